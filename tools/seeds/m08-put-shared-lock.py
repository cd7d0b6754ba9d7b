PROP = "M08"
NEEDS = "two writes to the same or different sessions running at the same time"
BREAKS = "Put takes the shared lock, so concurrent writes race on the session's data"
EDITS = [("provider.go", """	p.m.Lock()
	defer p.m.Unlock()
	if p.done != 0 {
		e = ErrProviderClosed
		return
	}
	t, e := p.unsafeGet(token)
	if e != nil {
		return
	}
	if len(pair) == 0 {
		return
	}
""", """	p.m.RLock()
	defer p.m.RUnlock()
	if p.done != 0 {
		e = ErrProviderClosed
		return
	}
	t, e := p.unsafeGet(token)
	if e != nil {
		return
	}
	if len(pair) == 0 {
		return
	}
""")]
DEMO = '''
package sessionid

import (
	"context"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	c := context.Background()
	p := NewProvider()
	p.Create(c, "a.0.s", "a.r.s", nil)
	var w sync.WaitGroup
	for i := 0; i < 8; i++ {
		w.Add(1)
		go func(i int) {
			defer w.Done()
			for j := 0; j < 20000; j++ {
				p.Put(c, "a.0.s", []PairBytes{{Key: string(rune('a' + i)), Value: []byte{1}}})
			}
		}(i)
	}
	w.Wait()
}
'''
