from _bolt import HEAD
PROP = "B03"
PKG = "provider/bolt"
NEEDS = "an operation after the access lifetime of a refreshed session has passed"
BREAKS = "a refresh extends an access lifetime that has not passed instead of starting a fresh one, so the token outlives its lifetime"
EDITS = [("provider/bolt/metadata.go", """	md.AccessDeadline = at.Add(accessDuration)
	md.RefreshDeadline = at.Add(refreshDuration)
}
func (p""", """	if md.AccessDeadline.After(at) && md.AccessDeadline.Add(accessDuration).Before(at.Add(refreshDuration)) {
		at = md.AccessDeadline
	}
	md.AccessDeadline = at.Add(accessDuration)
	md.RefreshDeadline = at.Add(refreshDuration)
}
func (p""")]
DEMO = HEAD + '''
func TestDemo(t *testing.T) {
	p, e := New(WithFilename(file("a.db")), WithAccess(2*time.Second), WithRefresh(time.Hour))
	if e != nil {
		t.Fatal(e)
	}
	defer p.Close()
	p.Create(c, "a.0.s", "a.r.s", nil)
	p.Refresh(c, "a.0.s", "a.r.s", "a.1.s", "a.q.s")
	time.Sleep(2200 * time.Millisecond)
	if e := p.Check(c, "a.1.s"); e != sessionid.ErrTokenExpired {
		t.Fatal("demo: usable after its lifetime:", e)
	}
}
'''
