from _redis import demo
PROP = "R04"
PKG = "provider/redis"
NEEDS = "a token whose text starts with the configured key prefix"
BREAKS = "a token that starts with the key prefix is taken for a complete key, so destroying it hits another session"
EDITS = [("provider/redis/provider.go", """	return p.opts.keyPrefix + key
""", """	if strings.HasPrefix(key, p.opts.keyPrefix) {
		return key
	}
	return p.opts.keyPrefix + key
""")]
DEMO = demo('''
func TestDemo(t *testing.T) {
	c := context.Background()
	_, client := newFakeRedis()
	p, e := New(WithClient(client), WithKeyPrefix("p."))
	if e != nil {
		t.Fatal(e)
	}
	defer p.Close()
	p.Create(c, "a.0.s", "a.r.s", nil)
	p.DestroyByToken(c, "p.a.0.s")
	if e := p.Check(c, "a.0.s"); e != nil {
		t.Fatal("demo: destroying another token removed the session:", e)
	}
}
''')
