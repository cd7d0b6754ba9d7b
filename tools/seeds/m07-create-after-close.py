PROP = "M07"
NEEDS = "Close running between a creation's check of the closed flag and its insertion"
BREAKS = "the closed flag is tested before the lock is taken, so a creation overtaken by Close writes to nil maps and panics"
EDITS = [("provider.go", """	for i := 0; i < len(pair); i++ {
		t.SetCopy(pair[i].Key, pair[i].Value)
	}

	p.m.Lock()
	defer p.m.Unlock()
	if p.done != 0 {
		e = ErrProviderClosed
		return
	}
	p.unsafeDestroyByToken(access)
""", """	if atomic.LoadUint32(&p.done) != 0 {
		e = ErrProviderClosed
		return
	}
	for i := 0; i < len(pair); i++ {
		t.SetCopy(pair[i].Key, pair[i].Value)
	}

	p.m.Lock()
	defer p.m.Unlock()
	p.unsafeDestroyByToken(access)
""")]
DEMO = '''
package sessionid

import (
	"context"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	c := context.Background()
	pairs := make([]PairBytes, 2000)
	for i := range pairs {
		pairs[i] = PairBytes{Key: string(rune(i)), Value: make([]byte, 100)}
	}
	for i := 0; i < 400; i++ {
		p := NewProvider()
		done := make(chan interface{})
		go func() {
			defer func() { done <- recover() }()
			for j := 0; j < 3; j++ {
				p.Create(c, "a.0.s", "a.r.s", pairs)
			}
		}()
		time.Sleep(time.Duration(i%40) * 10 * time.Microsecond)
		p.Close()
		if r := <-done; r != nil {
			t.Fatal("demo: creation during Close panics:", r)
		}
	}
}
'''
