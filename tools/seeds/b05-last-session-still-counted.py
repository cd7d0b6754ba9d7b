from _bolt import HEAD
PROP = "B05"
PKG = "provider/bolt"
NEEDS = "a bounded store that was emptied before, filled up to its capacity"
BREAKS = "the last session stays counted when it goes, so a later creation below the capacity evicts a live session"
EDITS = [("provider/bolt/metadata.go", """	num := toUint64(val)
	if num > 0 {
		num--
	}
""", """	num := toUint64(val)
	if num > 1 {
		num--
	}
""")]
DEMO = HEAD + '''
func TestDemo(t *testing.T) {
	p, e := New(WithFilename(file("a.db")), WithMaxSize(2))
	if e != nil {
		t.Fatal(e)
	}
	defer p.Close()
	p.Create(c, "a.0.s", "a.r.s", nil)
	p.Destroy(c, "a")
	p.Create(c, "b.0.s", "b.r.s", nil)
	p.Create(c, "c.0.s", "c.r.s", nil)
	if e := p.Check(c, "b.0.s"); e != nil {
		t.Fatal("demo: a session below the capacity was evicted:", e)
	}
}
'''
