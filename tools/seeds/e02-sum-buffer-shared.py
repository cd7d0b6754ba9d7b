PROP = "E02"
FLAGS = "-race"
NEEDS = "two goroutines signing or verifying with one method at the same time"
BREAKS = "sums are made in a buffer that is read after the lock protecting it was released, so a signature can be that of another text"
EDITS = [("cryptoer/hmac.go", """	hasher := hmac.New(m.Hash.New, keyBytes)
	hasher.Write([]byte(signingString))
	if !hmac.Equal(sig, hasher.Sum(nil)) {
		return ErrSignatureInvalid
	}
""", """	if !hmac.Equal(sig, m.sum(signingString, keyBytes)) {
		return ErrSignatureInvalid
	}
"""), ("cryptoer/hmac.go", """		hasher := hmac.New(m.Hash.New, keyBytes)
		hasher.Write([]byte(signingString))

		return EncodeSegment(hasher.Sum(nil)), nil
	}

	return "", ErrInvalidKeyType
}
""", """		return EncodeSegment(m.sum(signingString, keyBytes)), nil
	}

	return "", ErrInvalidKeyType
}

// sums holds the buffers sums are made in, so that signing allocates less
var sums = struct {
	sync.Mutex
	buf map[string][]byte
}{buf: make(map[string][]byte)}

func (m *SigningMethodHMAC) sum(signingString string, key []byte) []byte {
	hasher := hmac.New(m.Hash.New, key)
	hasher.Write([]byte(signingString))

	sums.Lock()
	defer sums.Unlock()
	b := hasher.Sum(sums.buf[m.Name][:0])
	sums.buf[m.Name] = b
	return b
}
"""), ("cryptoer/hmac.go", """	"errors"
)""", """	"errors"
	"sync"
)""")]
PKG = "./cryptoer"
DEMO = '''
package cryptoer

import (
	"strconv"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	key := []byte("k")
	var want [4]string
	for i := range want {
		want[i], _ = SigningMethodHS256.Sign(strconv.Itoa(i), key)
	}
	var g sync.WaitGroup
	for i := range want {
		i := i
		g.Add(1)
		go func() {
			defer g.Done()
			for n := 0; n < 20000; n++ {
				s, e := SigningMethodHS256.Sign(strconv.Itoa(i), key)
				if e != nil || s != want[i] {
					t.Error("demo: the signature of another text")
					return
				}
			}
		}()
	}
	g.Wait()
}
'''
