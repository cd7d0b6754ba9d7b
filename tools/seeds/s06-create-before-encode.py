PROP = "S06"
NEEDS = "a creation with a value the coder cannot encode"
BREAKS = "the session is stored before its values are encoded, so a failed creation leaves a session behind"
EDITS = [("manager.go", """			v, e = coder.Encode(pair[i].Value)
			if e != nil {
				return
			}
			kv[i] = PairBytes{
				Key:   pair[i].Key,
				Value: v,
			}
		}
	}
	e = provider.Create(ctx, access, refresh, kv)
	if e != nil {
		return
	}
""", """			v, e = coder.Encode(pair[i].Value)
			if e != nil {
				kv = kv[:i]
				break
			}
			kv[i] = PairBytes{
				Key:   pair[i].Key,
				Value: v,
			}
		}
	}
	if err := provider.Create(ctx, access, refresh, kv); e == nil {
		e = err
	}
	if e != nil {
		return
	}
""")]
DEMO = '''
package sessionid

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	c := context.Background()
	p := NewProvider()
	m := NewManager(WithProvider(p), WithCoder(JSONCoder{}))
	_, _, e := m.Create(c, "a", Pair{Key: "k", Value: make(chan int)})
	if e == nil {
		t.Fatal("encoded a channel")
	}
	if len(p.tokens) != 0 {
		t.Fatal("demo: a failed creation stored a session")
	}
}
'''
