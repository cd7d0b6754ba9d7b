PROP = "M06"
NEEDS = "a cleanup tick while the oldest session's access lifetime has passed and its refresh lifetime ends within the next cleanup period"
BREAKS = "periodic cleanup drops an expired session that could still be refreshed until its refresh deadline"
EDITS = [("provider.go", """		t = ele.Value.(*tokenValue)
		if t.IsDeleted() {
			strs := p.ids[t.id]
""", """		t = ele.Value.(*tokenValue)
		if t.IsDeleted() || t.IsExpired() && !t.refreshDeadline.After(time.Now().Add(p.opts.clear)) {
			strs := p.ids[t.id]
""")]
DEMO = '''
package sessionid

import (
	"context"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	c := context.Background()
	p := NewProvider(WithProviderAccess(time.Millisecond), WithProviderRefresh(time.Second*3), WithProviderClear(2*time.Second))
	defer p.Close()
	p.Create(c, "a.0.s", "a.r.s", nil)
	time.Sleep(2200 * time.Millisecond)
	if e := p.Refresh(c, "a.0.s", "a.r.s", "a.1.s", "a.q.s"); e != nil {
		t.Fatal("demo: cleanup removed a refreshable session:", e)
	}
}
'''
