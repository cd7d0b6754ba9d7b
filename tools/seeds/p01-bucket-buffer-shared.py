from _bolt import HEAD
PROP = "P01"
PKG = "provider/bolt"
NEEDS = "a store with the default bucket next to one with a bucket of its own"
BREAKS = "the default bucket name's memory is overwritten by the next store's bucket, so a store changes bucket while open"
EDITS = [("provider/bolt/option.go", """		o.bucket = bucket
""", """		// keep a copy: the caller may reuse its buffer
		o.bucket = append(o.bucket[:0], bucket...)
""")]
DEMO = HEAD + '''
func TestDemo(t *testing.T) {
	db, e := bolt.Open(file("a.db"), 0600, nil)
	if e != nil {
		t.Fatal(e)
	}
	defer db.Close()
	a, e := New(WithDB(db))
	if e != nil {
		t.Fatal(e)
	}
	if e = a.Create(c, "u.0.s", "u.r.s", nil); e != nil {
		t.Fatal(e)
	}
	if _, e = New(WithDB(db), WithBucket([]byte("websocket"))); e != nil {
		t.Fatal(e)
	}
	if e = a.Check(c, "u.0.s"); e != nil {
		t.Fatal("demo: opening another store lost the session:", e)
	}
}
'''
