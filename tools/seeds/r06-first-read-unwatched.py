from _redis import demo
PROP = "R06"
PKG = "provider/redis"
NEEDS = "a dead session noticed by a check and refreshed into existence before the deleter's turn"
BREAKS = "a check that finds a session dead removes it by itself, destroying a session created under the same token meanwhile"
EDITS = [("provider/redis/provider.go", """	} else if md.IsDeleted() {
		e = sessionid.ErrTokenNotExists
		p.pushDelete(key)
		return
	} else if md.IsExpired() {
		e = sessionid.ErrTokenExpired
		return
	}
	return
}
func (p *Provider) pushDelete""", """	} else if md.IsDeleted() {
		e = p.toError(p.opts.client.Del(ctx, key).Err())
		if e == nil {
			e = sessionid.ErrTokenNotExists
		}
		return
	} else if md.IsExpired() {
		e = sessionid.ErrTokenExpired
		return
	}
	return
}
func (p *Provider) pushDelete""")]
DEMO = demo('''
func TestDemo(t *testing.T) {
	c := context.Background()
	f, client := newFakeRedis()
	p, e := New(WithClient(client), WithAccess(time.Second), WithRefresh(time.Second))
	if e != nil {
		t.Fatal(e)
	}
	defer p.Close()
	p.Create(c, "a.0.s", "a.r.s", nil)
	f.m.Lock() // the server has not removed it
	f.exp = map[string]int64{}
	f.m.Unlock()
	time.Sleep(1100 * time.Millisecond)
	var first int32
	f.hook = func(a []string) string {
		if a[0] == "del" && a[1] == p.keyName("a.0.s") {
			if atomic.AddInt32(&first, 1) == 1 {
				// another client comes first
				go p.Create(c, "a.0.s", "a.q.s", nil)
				time.Sleep(200 * time.Millisecond)
			}
		}
		return ""
	}
	p.Check(c, "a.0.s")
	time.Sleep(200 * time.Millisecond)
	if e := p.Check(c, "a.0.s"); e == sessionid.ErrTokenNotExists {
		t.Fatal("demo: a session created again was removed")
	}
}
''').replace('	"sync"\n', '	"sync"\n	"sync/atomic"\n')
