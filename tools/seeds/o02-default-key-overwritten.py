PROP = "O02"
NEEDS = "a manager with its own key made after a manager with the default key, both used afterwards"
BREAKS = "the default key's memory is overwritten by the next manager's key, so managers with the default key change key"
EDITS = [("option.go", """		o.key = key
""", """		// keep a copy: the caller may reuse its buffer
		o.key = append(o.key[:0], key...)
""")]
DEMO = '''
package sessionid

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	c := context.Background()
	m := NewManager(WithProvider(NewProvider()))
	s, _, e := m.Create(c, "1")
	if e != nil {
		t.Fatal(e)
	}
	NewManager(WithProvider(NewProvider()), WithKey([]byte("another")))
	if _, e = m.Get(c, s.Token()); e != nil {
		t.Fatal("demo: a manager no longer accepts its own token after another one was made:", e)
	}
}
'''
