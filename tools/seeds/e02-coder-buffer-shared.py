PROP = "E02"
NEEDS = "two goroutines encoding with the gob coder at the same time"
BREAKS = "the gob coder encodes into one buffer and copies the result out only after giving up the lock"
FLAGS = "-race"
EDITS = [("coder.go", """	var buf bytes.Buffer
	e := gob.NewEncoder(&buf).Encode(v)
	if e != nil {
		return nil, e
	}
	return buf.Bytes(), nil
}""", """	b, e := gobs.encode(v)
	if e != nil {
		return nil, e
	}
	return append([]byte(nil), b...), nil
}

// gobs is where values are encoded, so that the buffer grows only once
var gobs gobEncoder

type gobEncoder struct {
	m   sync.Mutex
	buf bytes.Buffer
}

func (g *gobEncoder) encode(v interface{}) ([]byte, error) {
	g.m.Lock()
	defer g.m.Unlock()
	g.buf.Reset()
	e := gob.NewEncoder(&g.buf).Encode(v)
	return g.buf.Bytes(), e
}
"""), ("coder.go", """	"encoding/xml"
""", """	"encoding/xml"
	"sync"
""")]
DEMO = '''
package sessionid

import (
	"strconv"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var c GOBCoder
	var g sync.WaitGroup
	for i := 0; i < 4; i++ {
		v := strconv.Itoa(i)
		g.Add(1)
		go func() {
			defer g.Done()
			for n := 0; n < 5000; n++ {
				b, e := c.Encode(v)
				if e != nil {
					t.Error(e)
					return
				}
				var s string
				if e = c.Decode(b, &s); e != nil || s != v {
					t.Error("demo: decoded", s, e)
					return
				}
			}
		}()
	}
	g.Wait()
}
'''
