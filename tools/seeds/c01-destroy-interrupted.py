PROP = "C01"
NEEDS = "a user with several sessions destroyed under a context that ends in the middle of it"
BREAKS = "destroying a user stops between two sessions when the context ends: those left are alive but no longer found by their user"
EDITS = [("provider.go", """			for _, token := range strs {
				ele := p.tokens[token]
				p.lru.Remove(ele)
				delete(p.tokens, token)
			}
		}
	} else {
		e = ErrProviderClosed
	}
	p.m.Unlock()
	return
}

// Destroy a session by token
""", """			for _, token := range strs {
				// a user can have a great many sessions
				if e = ctx.Err(); e != nil {
					break
				}
				ele := p.tokens[token]
				p.lru.Remove(ele)
				delete(p.tokens, token)
			}
		}
	} else {
		e = ErrProviderClosed
	}
	p.m.Unlock()
	return
}

// Destroy a session by token
""")]
DEMO = '''
package sessionid

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	p := NewProvider()
	defer p.Close()
	bg := context.Background()
	for _, s := range []string{"u.0.s", "u.1.s"} {
		if e := p.Create(bg, s, "u.r.s", nil); e != nil {
			t.Fatal(e)
		}
	}
	ctx, cancel := context.WithCancel(bg)
	cancel()
	e := p.Destroy(ctx, "u")
	if e != nil {
		e = p.Destroy(bg, "u") // once more
	}
	if e != nil {
		t.Fatal(e)
	}
	for _, s := range []string{"u.0.s", "u.1.s"} {
		if p.Check(bg, s) == nil {
			t.Fatal("demo: a session outlives its user")
		}
	}
}
'''
