PROP = "X03"
NEEDS = "a value read through the session object before the session is ended elsewhere"
BREAKS = "a session object that has read a value says its session is alive without asking the store"
EDITS = [("session.go", """	return s.provider.Check(ctx, s.token)
""", """	for _, v := range s.keys {
		if v.Exists { // the store answered for this session
			return nil
		}
	}
	return s.provider.Check(ctx, s.token)
""")]
DEMO = '''
package sessionid

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	c := context.Background()
	m := NewManager(WithProvider(NewProvider()))
	s, _, e := m.Create(c, "1", Pair{Key: "k", Value: "v"})
	if e != nil {
		t.Fatal(e)
	}
	var v string
	if e = s.Get(c, "k", &v); e != nil {
		t.Fatal(e)
	}
	if e = m.Destroy(c, "1"); e != nil {
		t.Fatal(e)
	}
	if s.Check(c) == nil {
		t.Fatal("demo: a destroyed session passes its check")
	}
}
'''
