PROP = "O02"
NEEDS = "a provider option given twice, as when a caller's options are appended to a framework's"
BREAKS = "the first provider given wins over the later one"
EDITS = [("option.go", """		o.provider = provider
""", """		if provider == nil || o.provider != defaultOptions.provider {
			return
		}
		o.provider = provider
""")]
DEMO = '''
package sessionid

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	c := context.Background()
	first, second := NewProvider(), NewProvider()
	m := NewManager(WithProvider(first), WithProvider(second))
	s, _, e := m.Create(c, "1")
	if e != nil {
		t.Fatal(e)
	}
	if e = second.Check(c, s.Token()); e != nil {
		t.Fatal("demo: the session is not in the provider given last:", e)
	}
}
'''
