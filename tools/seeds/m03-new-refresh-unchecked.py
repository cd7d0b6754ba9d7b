PROP = "M03"
NEEDS = "a refresh whose new refresh token belongs to another user"
BREAKS = "the new refresh token's identity is not compared, so a refresh with tokens of different users succeeds"
EDITS = [("provider.go", """	e = p.checkID(id, refresh, newAccess, newRefresh)
	if e != nil {
		return
	}

	p.m.Lock()""", """	e = p.checkID(id, refresh, newAccess)
	if e != nil {
		return
	}
	e = IsToken(newRefresh)
	if e != nil {
		return
	}

	p.m.Lock()""")]
DEMO = '''
package sessionid

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	c := context.Background()
	p := NewProvider()
	defer p.Close()
	p.Create(c, "a.0.s", "a.r.s", nil)
	if e := p.Refresh(c, "a.0.s", "a.r.s", "a.1.s", "b.q.s"); e != ErrTokenIDNotMatched {
		t.Fatal("demo: refreshed with another user's token:", e)
	}
	if e := p.Check(c, "a.0.s"); e != nil {
		t.Fatal("demo: a failed refresh changed the session:", e)
	}
}
'''
