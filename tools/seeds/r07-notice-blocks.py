from _redis import demo
PROP = "R07"
PKG = "provider/redis"
NEEDS = "a dead session noticed when the deleter's queue is full, the provider closed meanwhile"
BREAKS = "handing a dead session to the deleter does not watch for closing, so the operation blocks forever"
EDITS = [("provider/redis/provider.go", """	select {
	case <-p.ctx.Done():
	case p.ch <- token:
	}
}""", """	if p.ctx.Err() == nil {
		p.ch <- token
	}
}""")]
DEMO = demo('''
func TestDemo(t *testing.T) {
	c := context.Background()
	f, client := newFakeRedis()
	p, e := New(WithClient(client), WithAccess(10*time.Millisecond), WithRefresh(10*time.Millisecond), WithCheckBatch(0))
	if e != nil {
		t.Fatal(e)
	}
	var names []string
	for i := 0; i < 20; i++ {
		names = append(names, fmt.Sprintf("a.%d.s", i))
		p.Create(c, names[i], "a.r.s", nil)
	}
	f.m.Lock() // the server has not removed them
	f.exp = map[string]int64{}
	f.m.Unlock()
	time.Sleep(50 * time.Millisecond)
	gate := make(chan bool)
	f.hook = func(a []string) string {
		if a[0] == "hget" && a[1] == p.keyName(names[0]) {
			select {
			case <-gate:
			case <-time.After(3 * time.Second):
			}
		}
		return ""
	}
	p.ch <- p.keyName(names[0]) // the deleter is busy
	done := make(chan bool)
	var wg sync.WaitGroup
	for _, name := range names[1:] {
		wg.Add(1)
		go func(name string) {
			p.Check(c, name)
			wg.Done()
		}(name)
	}
	go func() {
		wg.Wait()
		close(done)
	}()
	time.Sleep(300 * time.Millisecond)
	p.Close()
	close(gate)
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("demo: an operation is blocked after closing")
	}
}
''')
