from _bolt import HEAD
PROP = "B08"
PKG = "provider/bolt"
NEEDS = "two calls of Close at the same time"
BREAKS = "the closed flag is tested only before the lock is taken, so two concurrent closes both close and the second panics"
EDITS = [("provider/bolt/provider.go", """		p.m.Lock()
		defer p.m.Unlock()
		if p.done == 0 {
			defer atomic.StoreUint32(&p.done, 1)
			close(p.closed)
			if p.ticker != nil {
				p.ticker.Stop()
			}
			if p.opts.db == nil {
				p.db.Close()
			}
			return nil
		}
""", """		p.m.Lock()
		defer p.m.Unlock()
		atomic.StoreUint32(&p.done, 1)
		close(p.closed)
		if p.ticker != nil {
			p.ticker.Stop()
		}
		if p.opts.db == nil {
			p.db.Close()
		}
		return nil
""")]
DEMO = HEAD + '''
func TestDemo(t *testing.T) {
	db, e := bolt.Open(file("a.db"), 0600, nil)
	if e != nil {
		t.Fatal(e)
	}
	defer db.Close()
	for i := 0; i < 20; i++ {
		p, e := New(WithDB(db))
		if e != nil {
			t.Fatal(e)
		}
		p.m.RLock() // let the calls gather
		var wg sync.WaitGroup
		n := make(chan string, 8)
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						n <- "demo: Close panicked"
					}
				}()
				p.Close()
			}()
		}
		time.Sleep(5 * time.Millisecond)
		p.m.RUnlock()
		wg.Wait()
		select {
		case s := <-n:
			t.Fatal(s)
		default:
		}
	}
}
'''
