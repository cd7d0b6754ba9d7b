PROP = "E01"
NEEDS = "a refresh through the manager after the access token has expired"
BREAKS = "the manager refuses to refresh a session whose access token has expired, though its refresh token has not"
EDITS = [("manager.go", """	if id != id1 {
		e = ErrTokenIDNotMatched
		return
	}

""", """	if id != id1 {
		e = ErrTokenIDNotMatched
		return
	}
	// no tokens are made for a session that is gone
	e = m.opts.provider.Check(ctx, access)
	if e != nil {
		return
	}

""")]
DEMO = '''
package sessionid

import (
	"context"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	p := NewProvider(WithProviderAccess(50*time.Millisecond), WithProviderRefresh(time.Hour))
	defer p.Close()
	m := NewManager(WithProvider(p))
	ctx := context.Background()
	s, refresh, e := m.Create(ctx, "u")
	if e != nil {
		t.Fatal(e)
	}
	time.Sleep(100 * time.Millisecond)
	if _, _, e = m.Refresh(ctx, s.Token(), refresh); e != nil {
		t.Fatal("demo: an expired session cannot be refreshed:", e)
	}
}
'''
