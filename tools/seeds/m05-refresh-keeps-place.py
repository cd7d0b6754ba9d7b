PROP = "M05"
NEEDS = "a store at capacity where an older session was refreshed, followed by a creation"
BREAKS = "a refreshed session keeps its old place in the eviction order, so the creation evicts the session just refreshed"
EDITS = [("provider.go", """	// remove old
	p.unsafePop(ele)
	delete(p.tokens, access)
""", """	// remove old
	next := ele.Next()
	p.unsafePop(ele)
	delete(p.tokens, access)
"""), ("provider.go", """	p.tokens[newAccess] = p.lru.PushBack(t)
	p.ids[id] = append(p.ids[id], newAccess)
""", """	if next != nil && next.Value.(*tokenValue).access != newAccess && p.lru.Len() != 0 {
		if p.tokens[next.Value.(*tokenValue).access] == next {
			p.tokens[newAccess] = p.lru.InsertBefore(t, next)
		}
	}
	if p.tokens[newAccess] == nil {
		p.tokens[newAccess] = p.lru.PushBack(t)
	}
	p.ids[id] = append(p.ids[id], newAccess)
""")]
DEMO = '''
package sessionid

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	c := context.Background()
	p := NewProvider(WithProviderMaxSize(2))
	defer p.Close()
	p.Create(c, "a.0.s", "a.r.s", nil)
	p.Create(c, "b.0.s", "b.r.s", nil)
	if e := p.Refresh(c, "a.0.s", "a.r.s", "a.1.s", "a.q.s"); e != nil {
		t.Fatal(e)
	}
	p.Create(c, "c.0.s", "c.r.s", nil)
	if e := p.Check(c, "a.1.s"); e != nil {
		t.Fatal("demo: the refreshed session was evicted:", e)
	}
	if e := p.Check(c, "b.0.s"); e == nil {
		t.Fatal("demo: the oldest session was kept")
	}
}
'''
