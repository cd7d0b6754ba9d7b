from _redis import demo
PROP = "R02"
PKG = "provider/redis"
NEEDS = "several pairs written at once, the reserved key not the first of them"
BREAKS = "only the first key of a write is compared with the reserved one, so the bookkeeping entry can be overwritten"
EDITS = [("provider/redis/provider.go", """	fields := make([]string, 0, (len(pair)+1)*2)
	for _, field := range pair {
		e = p.checkKey(field.Key)
		if e != nil {
			return
		}
		fields""", """	fields := make([]string, 0, (len(pair)+1)*2)
	for i, field := range pair {
		e = p.checkKey(pair[i/2].Key)
		if e != nil {
			return
		}
		fields""")]
DEMO = demo('''
func TestDemo(t *testing.T) {
	c := context.Background()
	_, client := newFakeRedis()
	p, e := New(WithClient(client), WithMetadataKey("meta"))
	if e != nil {
		t.Fatal(e)
	}
	defer p.Close()
	p.Create(c, "a.0.s", "a.r.s", nil)
	if e := p.Put(c, "a.0.s", []sessionid.PairBytes{{Key: "a"}, {Key: "meta", Value: []byte("x")}}); e == nil {
		t.Fatal("demo: the reserved key can be written")
	}
}
''')
