from _bolt import HEAD
PROP = "B04"
PKG = "provider/bolt"
NEEDS = "two sessions of one user, the first refreshed, then the user destroyed"
BREAKS = "taking a token out of a user's index drops the tokens behind it, so destroying the user leaves sessions alive"
EDITS = [("provider/bolt/metadata.go", """			copy(strs[i:], strs[i+1:])
			strs = strs[:len(strs)-1]
			var buf""", """			if i == 0 && len(strs) > 2 {
				strs = strs[2:]
			} else {
				strs = append(strs[:i], strs[i+1:]...)
			}
			var buf""")]
DEMO = HEAD + '''
func TestDemo(t *testing.T) {
	p, e := New(WithFilename(file("a.db")))
	if e != nil {
		t.Fatal(e)
	}
	defer p.Close()
	for _, s := range []string{"0", "1", "2"} {
		p.Create(c, "a."+s+".s", "a.r.s", nil)
	}
	p.Refresh(c, "a.0.s", "a.r.s", "a.9.s", "a.q.s")
	p.Destroy(c, "a")
	for _, s := range []string{"0", "1", "2", "9"} {
		if e := p.Check(c, "a."+s+".s"); e != sessionid.ErrTokenNotExists {
			t.Fatal("demo: a destroyed user's session is alive:", s, e)
		}
	}
}
'''
