from _redis import demo
PROP = "R05"
PKG = "provider/redis"
NEEDS = "the connection lost between the two commands of a creation"
BREAKS = "a creation stores the session before the transaction that sets its expiry, so a fault in between leaves a key that never expires"
EDITS = [("provider/redis/provider.go", """	tx.HSet(ctx, key, fields...)
""", """	e = p.opts.client.HSet(ctx, key, fields...).Err()
	if e != nil {
		e = p.toError(e)
		return
	}
"""), ("provider/redis/provider.go", """	tx := p.opts.client.TxPipeline()
	defer tx.Close()
	tx.Del(ctx, key)
""", """	e = p.opts.client.Del(ctx, key).Err()
	if e != nil {
		e = p.toError(e)
		return
	}
	tx := p.opts.client.TxPipeline()
	defer tx.Close()
""")]
DEMO = demo('''
func TestDemo(t *testing.T) {
	c := context.Background()
	for cut := 0; cut < 6; cut++ {
		f, client := newFakeRedis()
		p, e := New(WithClient(client))
		if e != nil {
			t.Fatal(e)
		}
		f.cut, f.cutting = cut, true
		p.Create(c, "a.0.s", "a.r.s", nil)
		f.m.Lock()
		for k := range f.data {
			if f.exp[k] == 0 {
				t.Fatal("demo: connection lost after", cut, "commands leaves a key that never expires:", k)
			}
		}
		f.m.Unlock()
		p.Close()
	}
}
''').replace("	hook func(args", "	cut     int // commands or transactions left before the connection is lost\n	cutting bool\n	hook    func(args").replace("		switch cmd := strings", "		if cmd := strings.ToLower(a[0]); f.cutting && cmd != \"multi\" && (cmd == \"exec\" || !multi) {\n			if f.cut == 0 {\n				return\n			}\n			f.cut--\n		}\n		switch cmd := strings")
