PROP = "M08"
NEEDS = "two refreshes with the same tokens, the second validated between the first's validation and its update"
BREAKS = "the tokens are validated under a shared lock and rotated under a second one, so two concurrent refreshes both succeed"
EDITS = [("provider.go", """	p.m.Lock()
	defer p.m.Unlock()
	if p.done != 0 {
		e = ErrProviderClosed
		return
	}

	ele, exists := p.tokens[access]
	if !exists {
		e = ErrTokenNotExists
		return
	}
	t := ele.Value.(*tokenValue)
	if t.IsDeleted() {
		p.unsafePop(ele)
		delete(p.tokens, access)
		e = ErrTokenNotExists
		return
	} else if t.refresh != refresh {
		e = ErrRefreshTokenNotMatched
		return
	}
""", """	p.m.RLock()
	var t *tokenValue
	if p.done != 0 {
		e = ErrProviderClosed
	} else if ele, exists := p.tokens[access]; !exists {
		e = ErrTokenNotExists
	} else if t = ele.Value.(*tokenValue); t.IsDeleted() {
		e = ErrTokenNotExists
	} else if t.refresh != refresh {
		e = ErrRefreshTokenNotMatched
	}
	p.m.RUnlock()
	if e != nil {
		return
	}
	p.m.Lock()
	defer p.m.Unlock()
	if p.done != 0 {
		e = ErrProviderClosed
		return
	}
	ele, exists := p.tokens[t.access]
	if !exists {
		e = ErrTokenNotExists
		return
	}
	access = t.access
""")]
DEMO = '''
package sessionid

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
)

func TestDemo(t *testing.T) {
	c := context.Background()
	p := NewProvider()
	defer p.Close()
	for i := 0; i < 3000; i++ {
		access := fmt.Sprintf("a.%d.s", i)
		p.Create(c, access, "a.r.s", nil)
		p.m.RLock() // let the refreshes gather
		var n int32
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				if p.Refresh(c, access, "a.r.s", fmt.Sprintf("a.%d-%d.s", i, g), "a.q.s") == nil {
					atomic.AddInt32(&n, 1)
				}
			}(g)
		}
		p.m.RUnlock()
		wg.Wait()
		if n > 1 {
			t.Fatal("demo: concurrent refreshes with one token that succeeded:", n)
		}
	}
}
'''
