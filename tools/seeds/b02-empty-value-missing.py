from _bolt import HEAD
PROP = "B02"
PKG = "provider/bolt"
NEEDS = "a key holding an empty value"
BREAKS = "a key with an empty value is reported as not existing"
EDITS = [("provider/bolt/metadata.go", """		if b != nil {
			// b is""", """		if len(b) != 0 {
			// b is""")]
DEMO = HEAD + '''
func TestDemo(t *testing.T) {
	p, e := New(WithFilename(file("a.db")))
	if e != nil {
		t.Fatal(e)
	}
	defer p.Close()
	p.Create(c, "a.0.s", "a.r.s", []sessionid.PairBytes{{Key: "k", Value: []byte{}}})
	v, e := p.Get(c, "a.0.s", []string{"k"})
	if e != nil || !v[0].Exists {
		t.Fatal("demo: a key holding an empty value does not exist:", v, e)
	}
}
'''
