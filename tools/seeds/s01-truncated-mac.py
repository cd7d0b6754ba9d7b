PROP = "S01"
NEEDS = "a token whose signature part is a truncation of a genuine signature"
BREAKS = "verification compares only as many bytes as the signature presents, so an empty or shortened signature is accepted"
EDITS = [("cryptoer/hmac.go", """	if !hmac.Equal(sig, hasher.Sum(nil)) {
		return ErrSignatureInvalid
	}
""", """	sum := hasher.Sum(nil)
	if len(sig) < len(sum) {
		// a peer may truncate the MAC (RFC 2104, 5)
		sum = sum[:len(sig)]
	}
	if !hmac.Equal(sig, sum) {
		return ErrSignatureInvalid
	}
""")]
DEMO = '''
package sessionid

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	m := NewManager()
	s, _, e := m.Create(context.Background(), "1")
	if e != nil {
		t.Fatal(e)
	}
	tok := s.Token()
	for n := 1; n < 40; n++ {
		if _, e := m.Get(context.Background(), tok[:len(tok)-n]); e == nil {
			t.Fatal("demo: a token with a shortened signature is accepted")
		}
	}
	if _, e := m.Get(context.Background(), tok); e != nil {
		t.Fatal(e)
	}
}
'''
