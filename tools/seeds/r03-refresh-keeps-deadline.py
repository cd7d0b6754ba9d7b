from _redis import demo
PROP = "R03"
PKG = "provider/redis"
NEEDS = "a refresh, and a look at the new token after the session's first refresh deadline"
BREAKS = "a refresh renews the access deadline only up to the old refresh deadline, so the refreshed session dies early"
EDITS = [("provider/redis/metadata.go", """	md.AccessDeadline = at.Add(accessDuration)
	md.RefreshDeadline = at.Add(refreshDuration)
}

// ExpireAt""", """	md.AccessDeadline = at.Add(accessDuration)
	if at = at.Add(refreshDuration); md.AccessDeadline.After(md.RefreshDeadline) {
		md.RefreshDeadline = at
	}
}

// ExpireAt""")]
DEMO = demo('''
func TestDemo(t *testing.T) {
	c := context.Background()
	_, client := newFakeRedis()
	p, e := New(WithClient(client), WithAccess(100*time.Millisecond), WithRefresh(2*time.Second))
	if e != nil {
		t.Fatal(e)
	}
	defer p.Close()
	p.Create(c, "a.0.s", "a.r.s", nil)
	time.Sleep(1200 * time.Millisecond)
	if e := p.Refresh(c, "a.0.s", "a.r.s", "a.1.s", "a.q.s"); e != nil {
		t.Fatal(e)
	}
	time.Sleep(1200 * time.Millisecond)
	if e := p.Check(c, "a.1.s"); e != sessionid.ErrTokenExpired {
		t.Fatal("demo: a refreshed session died at its first deadline:", e)
	}
}
''')
