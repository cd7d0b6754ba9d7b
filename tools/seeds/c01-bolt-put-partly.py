PROP = "C01"
PKG = "./provider/bolt"
NEEDS = "a write of several entries under a context that ends between them"
BREAKS = "the bolt store stops writing when the context ends, but commits the entries written so far"
EDITS = [("provider/bolt/provider.go", """			e = p.putData(bData, key, pair)
			if e != nil {
				return
			}
			return
		})
		if result != nil {
			err = result
		}
	} else {
		err = sessionid.ErrProviderClosed
	}
	p.m.Unlock()
	return
}

// Get key's""", """			for i := range pair {
				err = ctx.Err()
				if err != nil {
					return
				}
				e = p.putData(bData, key, pair[i:i+1])
				if e != nil {
					return
				}
			}
			return
		})
		if result != nil {
			err = result
		}
	} else {
		err = sessionid.ErrProviderClosed
	}
	p.m.Unlock()
	return
}

// Get key's""")]
DEMO = '''
package bolt

import (
	"context"
	"path/filepath"
	"testing"

	"github.com/powerpuffpenguin/sessionid"
)

type ending struct {
	context.Context
	left int
}

func (c *ending) Err() error {
	if c.left == 0 {
		return context.Canceled
	}
	c.left--
	return nil
}

func TestDemo(t *testing.T) {
	p, e := New(WithFilename(filepath.Join(t.TempDir(), "s.db")))
	if e != nil {
		t.Fatal(e)
	}
	defer p.Close()
	bg := context.Background()
	if e = p.Create(bg, "u.0.s", "u.r.s", nil); e != nil {
		t.Fatal(e)
	}
	e = p.Put(&ending{bg, 1}, "u.0.s", []sessionid.PairBytes{{Key: "a", Value: []byte("1")}, {Key: "b", Value: []byte("2")}})
	ks, f := p.Keys(bg, "u.0.s")
	if f != nil {
		t.Fatal(f)
	}
	if e == nil && len(ks) != 2 || e != nil && len(ks) != 0 {
		t.Fatal("demo: put reports", e, "and wrote", ks)
	}
}
'''
