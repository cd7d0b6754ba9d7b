from _bolt import HEAD
PROP = "P01"
PKG = "provider/bolt"
NEEDS = "two stores over one database handed to them, one of which is closed"
BREAKS = "closing a store closes the database it was handed, under the other store using it"
EDITS = [("provider/bolt/provider.go", """			if p.opts.db == nil {
				p.db.Close()
			}
			return nil
""", """			if p.db != nil {
				p.db.Close()
			}
			return nil
""")]
DEMO = HEAD + '''
func TestDemo(t *testing.T) {
	db, e := bolt.Open(file("a.db"), 0600, nil)
	if e != nil {
		t.Fatal(e)
	}
	defer db.Close()
	a, e := New(WithDB(db), WithBucket([]byte("a")))
	if e != nil {
		t.Fatal(e)
	}
	b, e := New(WithDB(db), WithBucket([]byte("b")))
	if e != nil {
		t.Fatal(e)
	}
	if e = b.Create(c, "u.0.s", "u.r.s", nil); e != nil {
		t.Fatal(e)
	}
	a.Close()
	if e = b.Check(c, "u.0.s"); e != nil {
		t.Fatal("demo: closing one store broke the other:", e)
	}
}
'''
