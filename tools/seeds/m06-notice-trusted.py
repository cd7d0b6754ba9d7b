PROP = "M06"
NEEDS = "two dead sessions noticed in one batch, one of them created again before the batch is handled"
BREAKS = "the background checker removes what it was told about without looking again, destroying a session created meanwhile under the same token"
EDITS = [("provider.go", """		t = ele.Value.(*tokenValue)
		if t.IsDeleted() {
			p.unsafePop(ele)
			delete(p.tokens, token)
		}
	}
	return
}
func (p *MemoryProvider) tryRead""", """		t = ele.Value.(*tokenValue)
		if len(m) > 1 || t.IsDeleted() {
			p.unsafePop(ele)
			delete(p.tokens, token)
		}
	}
	return
}
func (p *MemoryProvider) tryRead""")]
DEMO = '''
package sessionid

import (
	"context"
	"fmt"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	c := context.Background()
	const n = 2000
	p := NewProvider(WithProviderAccess(4*time.Second), WithProviderRefresh(4*time.Second), WithProviderClear(0))
	defer p.Close()
	for i := 0; i < n; i++ {
		p.Create(c, fmt.Sprintf("a.%d.s", i), "a.r.s", nil)
		p.Create(c, fmt.Sprintf("b.%d.s", i), "b.r.s", nil)
	}
	time.Sleep(4100 * time.Millisecond)
	at := time.Now()
	for i := 0; i < n && time.Since(at) < 3*time.Second; i++ {
		a := fmt.Sprintf("a.%d.s", i)
		// both are noticed, and one is created again
		p.ch <- a
		p.ch <- fmt.Sprintf("b.%d.s", i)
		p.Create(c, a, "a.r.s", nil)
		time.Sleep(200 * time.Microsecond)
		if e := p.Check(c, a); e != nil {
			t.Fatal("demo: a live session was removed:", e)
		}
	}
}
'''
