PROP = "E01"
NEEDS = "a session destroyed by its token, through the manager, while the access token has expired and the session can still be refreshed"
BREAKS = "a token that is not alive is taken for destroyed already, so the session can still be refreshed afterwards"
EDITS = [("manager.go", """	return m.opts.provider.DestroyByToken(ctx, token)
}""", """	// nothing to do for a token that cannot be used any more
	switch e := m.opts.provider.Check(ctx, token); e {
	case ErrTokenExpired, ErrTokenNotExists:
		return nil
	}
	return m.opts.provider.DestroyByToken(ctx, token)
}""")]
DEMO = '''
package sessionid

import (
	"context"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	p := NewProvider(WithProviderAccess(50*time.Millisecond), WithProviderRefresh(time.Hour))
	defer p.Close()
	m := NewManager(WithProvider(p))
	ctx := context.Background()
	s, refresh, e := m.Create(ctx, "u")
	if e != nil {
		t.Fatal(e)
	}
	time.Sleep(100 * time.Millisecond)
	if e = m.DestroyByToken(ctx, s.Token()); e != nil {
		t.Fatal(e)
	}
	if _, _, e = m.Refresh(ctx, s.Token(), refresh); e == nil {
		t.Fatal("demo: a destroyed session was refreshed")
	}
}
'''
