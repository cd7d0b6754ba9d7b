from _bolt import HEAD
PROP = "B07"
PKG = "provider/bolt"
NEEDS = "a key removal while the database cannot be written any more"
BREAKS = "removing keys reports success although the database refused the transaction"
EDITS = [("provider/bolt/provider.go", """			e = p.deleteKeys(bData, token, keys)
			if e != nil {
				return
			}
			return
		})
		if result != nil {
			err = result
		}
""", """			e = p.deleteKeys(bData, token, keys)
			if e != nil {
				err = e
			}
			return
		})
		if result != nil && err != nil {
			err = result
		}
""")]
DEMO = HEAD + '''
func TestDemo(t *testing.T) {
	db, e := bolt.Open(file("a.db"), 0600, nil)
	if e != nil {
		t.Fatal(e)
	}
	p, e := New(WithDB(db))
	if e != nil {
		t.Fatal(e)
	}
	defer p.Close()
	p.Create(c, "a.0.s", "a.r.s", []sessionid.PairBytes{{Key: "k", Value: []byte("v")}})
	db.Close()
	if e := p.Delete(c, "a.0.s", []string{"k"}); e == nil {
		t.Fatal("demo: a removal the database refused is reported as done")
	}
}
'''
