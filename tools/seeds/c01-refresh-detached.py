PROP = "C01"
NEEDS = "a refresh through the manager under a context that is over"
BREAKS = "the manager refreshes with a context of its own, so neither the caller's cancellation nor its values reach the store"
EDITS = [("manager.go", """	e = m.opts.provider.Refresh(ctx, access, refresh, newAccess, newRefresh)
	return""", """	// the caller holds no tokens if it is cut off half way
	e = m.opts.provider.Refresh(context.Background(), access, refresh, newAccess, newRefresh)
	return""")]
DEMO = '''
package sessionid

import (
	"context"
	"testing"
)

type strict struct{ Provider }

func (s strict) Refresh(ctx context.Context, access, refresh, newAccess, newRefresh string) error {
	if e := ctx.Err(); e != nil {
		return e
	}
	return s.Provider.Refresh(ctx, access, refresh, newAccess, newRefresh)
}

func TestDemo(t *testing.T) {
	p := NewProvider()
	defer p.Close()
	m := NewManager(WithProvider(strict{p}))
	bg := context.Background()
	s, refresh, e := m.Create(bg, "u")
	if e != nil {
		t.Fatal(e)
	}
	ctx, cancel := context.WithCancel(bg)
	cancel()
	if _, _, e = m.Refresh(ctx, s.Token(), refresh); e == nil {
		t.Fatal("demo: refreshed under a context that is over")
	}
	if e = s.Check(bg); e != nil {
		t.Fatal("demo: refreshed under a context that is over:", e)
	}
}
'''
