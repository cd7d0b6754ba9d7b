from _redis import demo
PROP = "R01"
PKG = "provider/redis"
NEEDS = "a read without keys after the access lifetime has passed"
BREAKS = "a read that asks for no key returns before the token's status is looked at"
EDITS = [("provider/redis/provider.go", """	fields := make([]string, 1+len(keys))
	fields[0] = p.opts.metadataKey
	copy(fields[1:], keys)
	key := p.keyName(token)
""", """	key := p.keyName(token)
	if len(keys) == 0 {
		var n int64
		n, e = p.opts.client.Exists(ctx, key).Result()
		if e != nil {
			e = p.toError(e)
		} else if n == 0 {
			e = sessionid.ErrTokenNotExists
		}
		return
	}
	fields := make([]string, 1+len(keys))
	fields[0] = p.opts.metadataKey
	copy(fields[1:], keys)
""")]
DEMO = demo('''
func TestDemo(t *testing.T) {
	c := context.Background()
	_, client := newFakeRedis()
	p, e := New(WithClient(client), WithAccess(10*time.Millisecond), WithRefresh(time.Hour))
	if e != nil {
		t.Fatal(e)
	}
	defer p.Close()
	p.Create(c, "a.0.s", "a.r.s", nil)
	time.Sleep(50 * time.Millisecond)
	if _, e := p.Get(c, "a.0.s", nil); e != sessionid.ErrTokenExpired {
		t.Fatal("demo: an expired token is usable:", e)
	}
}
''').replace('''	case "hkeys":''', '''	case "exists":
		if f.live(a[1]) == nil {
			return ":0\\r\\n"
		}
		return ":1\\r\\n"
	case "hkeys":''')
