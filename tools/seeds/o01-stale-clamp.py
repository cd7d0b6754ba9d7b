PROP = "O01"
NEEDS = "the refresh option given after a longer access lifetime, with a refresh lifetime below the previous one"
BREAKS = "the access lifetime is clamped to the previous refresh lifetime, so access tokens outlive refresh tokens"
PKG = "provider/bolt"
EDITS = [("provider/bolt/option.go", """		po.refresh = duration
		if po.access > duration {
			po.access = duration
		}
""", """		if po.access > duration {
			po.access = po.refresh
		}
		po.refresh = duration
""")]
DEMO = '''
package bolt

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	o := defaultOptions
	for _, x := range []Option{WithAccess(2 * time.Hour), WithRefresh(time.Minute)} {
		x.apply(&o)
	}
	if o.access > o.refresh {
		t.Fatal("demo: access tokens outlive refresh tokens:", o.access, o.refresh)
	}
}
'''
