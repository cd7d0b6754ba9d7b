PROP = "X03"
NEEDS = "a user with two sessions, one of which is destroyed through its session object"
BREAKS = "destroying one session ends every session of that user"
EDITS = [("session.go", """	return s.provider.DestroyByToken(ctx, s.token)
""", """	e := s.provider.DestroyByToken(ctx, s.token)
	if e != nil {
		return e
	}
	// drop the index entry left behind
	return s.provider.Destroy(ctx, s.id)
""")]
DEMO = '''
package sessionid

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	c := context.Background()
	p := NewProvider()
	if e := p.Create(c, "a.0.s", "a.r0.s", nil); e != nil {
		t.Fatal(e)
	}
	if e := p.Create(c, "a.1.s", "a.r1.s", nil); e != nil {
		t.Fatal(e)
	}
	s, e := NewSession("a.0.s", p, GOBCoder{})
	if e != nil {
		t.Fatal(e)
	}
	if e = s.Destroy(c); e != nil {
		t.Fatal(e)
	}
	if e = p.Check(c, "a.1.s"); e != nil {
		t.Fatal("demo: the user's other session is gone:", e)
	}
}
'''
