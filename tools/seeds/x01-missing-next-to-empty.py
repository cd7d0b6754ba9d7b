PROP = "X01"
NEEDS = "a prepared read of an empty value followed by a missing key"
BREAKS = "equal neighbouring values are shared including whether they exist, so a missing key next to an empty one is reported as existing"
EDITS = [("session.go", """	vals, e := s.provider.Get(ctx, s.token, key)
	if e != nil {
		return
	}
	if len(vals) != count {
		e = ErrProviderReturnNotMatch
		return
	}
""", """	vals, e := s.provider.Get(ctx, s.token, key)
	if e != nil {
		return
	}
	if len(vals) != count {
		e = ErrProviderReturnNotMatch
		return
	}
	for i := range vals {
		if i != 0 && string(vals[i].Bytes) == string(vals[i-1].Bytes) {
			vals[i] = vals[i-1]
		}
	}
""")]
DEMO = '''
package sessionid

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	c := context.Background()
	m := NewManager(WithProvider(NewProvider()), WithCoder(JSONCoder{}))
	s, _, _ := m.Create(c, "a", Pair{Key: "j", Value: ""})
	_ = s
	p := NewProvider()
	p.Create(c, "a.0.s", "a.r.s", []PairBytes{{Key: "j", Value: nil}})
	x, _ := NewSession("a.0.s", p, JSONCoder{})
	x.Prepare(c, "j", "none")
	var v string
	if e := x.Get(c, "none", &v); e != ErrKeyNotExists {
		t.Fatal("demo: a missing key is read as another key's value:", e)
	}
}
'''
