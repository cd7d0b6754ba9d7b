PROP = "M06"
NEEDS = "without periodic cleanup, several noticed tokens handled in one batch, one of which is already gone"
BREAKS = "the background checker gives up on a batch at the first token that is gone already, so other dead sessions it was told about are held forever"
EDITS = [("provider.go", """		ele, exists = p.tokens[token]
		if !exists {
			continue
		}
		t = ele.Value.(*tokenValue)
		if t.IsDeleted() {
			p.unsafePop(ele)
			delete(p.tokens, token)
		}
	}
	return
}
func (p *MemoryProvider) tryRead""", """		ele, exists = p.tokens[token]
		if !exists {
			return
		}
		t = ele.Value.(*tokenValue)
		if t.IsDeleted() {
			p.unsafePop(ele)
			delete(p.tokens, token)
		}
	}
	return
}
func (p *MemoryProvider) tryRead""")]
DEMO = '''
package sessionid

import (
	"context"
	"fmt"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	c := context.Background()
	const n = 100
	p := NewProvider(WithProviderAccess(100*time.Millisecond), WithProviderRefresh(100*time.Millisecond),
		WithProviderClear(0), WithProviderCheckBatch(4*n))
	defer p.Close()
	for i := 0; i < n; i++ {
		p.Create(c, fmt.Sprintf("a.%d.s", i), "a.r.s", nil)
		p.Create(c, fmt.Sprintf("b.%d.s", i), "b.r.s", nil)
	}
	time.Sleep(200 * time.Millisecond)
	for i := 0; i < n; i++ {
		a, b := fmt.Sprintf("a.%d.s", i), fmt.Sprintf("b.%d.s", i)
		p.Check(c, a)    // noticed
		p.Put(c, a, nil) // and removed at once
		p.Check(c, b)    // noticed
	}
	for i := 0; i < 40; i++ {
		time.Sleep(50 * time.Millisecond)
		p.m.Lock()
		n := len(p.tokens)
		p.m.Unlock()
		if n == 0 {
			return
		}
	}
	t.Fatal("demo: dead sessions that were met are still held")
}
'''
