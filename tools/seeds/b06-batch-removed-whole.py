from _bolt import HEAD
PROP = "B06"
PKG = "provider/bolt"
NEEDS = "two dead sessions noticed in one batch, one of them created again before the batch is handled"
BREAKS = "a batch of several notices is removed without looking again, live sessions included"
EDITS = [("provider/bolt/provider.go", """			} else if md == nil {
				continue
			} else if md.IsDeleted() {
				e = p.delete(store, bMD, bData, bIDS, bLRU, token, []byte(md.ID), md.LRU)
				if e != nil {
					return
				}
			}
		}
		return
	})
	return
}""", """			} else if md == nil {
				continue
			} else if len(m) > 1 || md.IsDeleted() {
				e = p.delete(store, bMD, bData, bIDS, bLRU, token, []byte(md.ID), md.LRU)
				if e != nil {
					return
				}
			}
		}
		return
	})
	return
}""")]
DEMO = HEAD + '''
func TestDemo(t *testing.T) {
	db, e := bolt.Open(file("a.db"), 0600, nil)
	if e != nil {
		t.Fatal(e)
	}
	defer db.Close()
	db.NoSync = true
	const n = 200
	p, e := New(WithDB(db), WithAccess(5*time.Second), WithRefresh(5*time.Second), WithClear(0))
	if e != nil {
		t.Fatal(e)
	}
	defer p.Close()
	name := func(s string, i int) string { return s + "." + string(rune('A'+i)) + ".s" }
	for i := 0; i < n; i++ {
		p.Create(c, name("a", i), "a.r.s", nil)
		p.Create(c, name("b", i), "b.r.s", nil)
	}
	time.Sleep(5100 * time.Millisecond)
	at := time.Now()
	for i := 0; i < n && time.Since(at) < 4*time.Second; i++ {
		// both are noticed, and one is created again
		p.ch <- name("a", i)
		p.ch <- name("b", i)
		p.Create(c, name("a", i), "a.r.s", nil)
		time.Sleep(5 * time.Millisecond)
		if e := p.Check(c, name("a", i)); e != nil {
			t.Fatal("demo: a live session was removed:", e)
		}
	}
}
'''
