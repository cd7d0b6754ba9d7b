PROP = "M01"
NEEDS = "an operation at exactly the access deadline, to the nanosecond"
BREAKS = "at the instant the access lifetime has passed the token is still reported usable"
EDITS = [("provider.go", """	return !t.accessDeadline.After(time.Now())""", """	return t.accessDeadline.Before(time.Now())""")]
DEMO = '''
package sessionid

import (
	"context"
	"testing"
	"testing/synctest"
	"time"
)

func TestDemo(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		c := context.Background()
		p := NewProvider(WithProviderAccess(time.Minute), WithProviderRefresh(time.Hour), WithProviderClear(0))
		defer p.Close()
		p.Create(c, "a.0.s", "a.r.s", nil)
		time.Sleep(time.Minute)
		if e := p.Check(c, "a.0.s"); e != ErrTokenExpired {
			t.Fatal("demo: usable at its deadline:", e)
		}
	})
}
'''
