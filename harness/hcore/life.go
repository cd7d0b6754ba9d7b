package hcore

import (
	"context"
	"encoding/base64"
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"verif/harness/store"
	"verif/harness/sym"
)

// E01Mem: the life of sessions made by a manager.
func E01Mem() { kit("E01").Life(2, 3) }

// ---- E02

// E02Sign: one signing method used by two goroutines.
func E02Sign() {
	m, h := method(sym.Choice("method", sym.Bound("methods", 5, 5)))
	var key [2][]byte
	var text, sig [2]string
	var made, good, bad [2]error
	for i := range key {
		key[i] = sym.Bytes("key", 1)
		text[i] = sym.Str("text", 1)
	}
	sym.Assume(text[0] != text[1])
	if sym.Bool("used") { // it has been used before
		m.Sign("before", []byte("k"))
	}
	sym.Quiesce()
	sym.Explore(sym.Bound("preemptions", 2, 3))
	for i := range key {
		i := i
		sym.Go(func() {
			sig[i], made[i] = m.Sign(text[i], key[i])
			good[i] = m.Verify(text[i], sig[i], key[i])
			bad[i] = m.Verify(text[1-i], sig[i], key[i])
		})
	}
	sym.Join()
	sym.NoExplore()
	for i := range key {
		sym.Assert(made[i] == nil && sig[i] == base64.RawURLEncoding.EncodeToString(refMAC(h, key[i], text[i])), "E02 a signature made next to another is the text's own")
		sym.Assert(good[i] == nil, "E02 a signature verifies next to another")
		sym.Assert(bad[i] != nil, "E02 a signature of another text is refused next to it")
	}
	s, e := m.Sign(text[0], key[1])
	sym.Assert(e == nil && s == base64.RawURLEncoding.EncodeToString(refMAC(h, key[1], text[0])), "E02 the method signs as before afterwards")
	sym.Reach("end")
}

// E02New: managers are made by two goroutines.
func E02New() {
	var g [2]*sessionid.LocalManager
	var p [2]*recorder
	key := [2][]byte{sym.Bytes("key", 1), sym.Bytes("key", 1)}
	var s [2]*sessionid.Session
	var e, f [2]error
	for i := range g {
		p[i] = &recorder{}
	}
	m, h := method(sym.Choice("method", 2))
	sym.Quiesce()
	sym.Explore(sym.Bound("preemptions", 2, 3))
	for i := range g {
		i := i
		sym.Go(func() {
			g[i] = sessionid.NewManager(sessionid.WithProvider(p[i]), sessionid.WithKey(key[i]), sessionid.WithMethod(m), sessionid.WithCoder(rawCoder{}))
			s[i], _, e[i] = g[i].Create(bg, "u", sessionid.Pair{Key: "k", Value: "v"})
			if e[i] == nil {
				_, f[i] = g[i].Get(bg, s[i].Token())
			}
		})
	}
	sym.Join()
	sym.NoExplore()
	for i := range g {
		sym.Assert(e[i] == nil && f[i] == nil, "E02 managers made at the same time both work")
		sym.Assert(genuine(h, key[i], s[i].Token()), "E02 a manager signs with its own key")
		sym.Assert(p[i].calls == 1 && p[i].access == s[i].Token(), "E02 a manager keeps its sessions in its own store")
	}
	sym.Assert(s[0].Token() != s[1].Token(), "E02 two managers issue different tokens")
	sym.Reach("end")
}

// E02: two goroutines use one manager and one store.
func E02() {
	p := sessionid.NewProvider(sessionid.WithProviderClear(0), sessionid.WithProviderAccess(time.Hour))
	g := sessionid.NewManager(sessionid.WithProvider(p), sessionid.WithKey([]byte("k")), sessionid.WithCoder(rawCoder{}))
	s0, r0, e := g.Create(bg, "u")
	sym.Assert(e == nil, "E02 creation succeeds")
	a0 := s0.Token()
	type done struct {
		op  int
		ok  bool
		tok string
	}
	users := []string{"u", "w", "u"}
	run := func(op int, user, who string) (d done) {
		d.op = op
		switch op {
		case 0:
			s, _, e := g.Create(bg, user, sessionid.Pair{Key: "k", Value: who})
			if d.ok = e == nil; d.ok {
				d.tok = s.Token()
			}
		case 1:
			s, e := g.Get(bg, a0)
			d.ok = e == nil && s.Check(bg) == nil
		case 2:
			a, _, e := g.Refresh(bg, a0, r0)
			d.ok, d.tok = e == nil, a
		case 3:
			d.ok = g.Destroy(bg, "u") == nil
		case 4:
			d.ok = g.DestroyByToken(bg, a0) == nil
		case 5:
			s, e := g.Get(bg, a0)
			d.ok = e == nil && s.Put(bg, sessionid.Pair{Key: "k", Value: who}) == nil
		}
		return
	}
	n := sym.Bound("goroutines", 2, 3)
	ds := make([]done, n)
	who := make([]string, n)
	for i := range who {
		who[i] = sym.Str("who", 1)
	}
	sym.Quiesce()
	sym.Explore(sym.Bound("preemptions", 2, 3))
	for i := range ds {
		i := i
		op := sym.Choice("op", 6)
		sym.Go(func() { ds[i] = run(op, users[i], who[i]) })
	}
	sym.Join()
	sym.NoExplore()
	toks := []string{a0}
	for i := range ds {
		if (ds[i].op == 0 || ds[i].op == 2) && ds[i].ok {
			toks = append(toks, ds[i].tok)
		}
	}
	for i, t := range toks {
		for _, x := range toks[:i] {
			sym.Assert(t != x, "E02 two tokens issued at the same time differ")
		}
	}
	var got []string // what the sessions hold, "-" for dead ones
	for _, t := range toks {
		s, e := g.Get(bg, t)
		sym.Assert(e == nil, "E02 an issued token is genuine")
		w := "-"
		if s.Check(bg) == nil {
			w = ""
			var b bytesT
			if s.Get(bg, "k", &b) == nil {
				w = "+" + string(b)
			}
		}
		got = append(got, w)
	}
	fits := func(order ...int) bool {
		held := map[string]string{a0: ""}
		for _, i := range order {
			d, who := ds[i], who[i]
			v, live := held[a0]
			ok := true
			switch d.op {
			case 0:
				held[d.tok] = "+" + who
			case 1:
				ok = live
			case 2:
				if ok = live; ok {
					delete(held, a0)
					held[d.tok] = v
				}
			case 3:
				delete(held, a0)
				for j, x := range ds {
					if x.op == 2 || x.op == 0 && users[j] == "u" {
						delete(held, x.tok)
					}
				}
			case 4:
				delete(held, a0)
			case 5:
				if ok = live; ok {
					held[a0] = "+" + who
				}
			}
			if d.ok != ok {
				return false
			}
		}
		for i, t := range toks {
			w, live := held[t]
			if !live {
				w = "-"
			}
			if got[i] != w {
				return false
			}
		}
		return true
	}
	var some func(order []int) bool
	some = func(order []int) bool {
		if len(order) == n {
			return fits(order...)
		}
	next:
		for i := 0; i < n; i++ {
			for _, x := range order {
				if x == i {
					continue next
				}
			}
			if some(append(order[:len(order):len(order)], i)) {
				return true
			}
		}
		return false
	}
	sym.Assert(some(nil), "E02 two operations through one manager take effect in some order")
	sym.Reach("end")
	p.Close()
}

// E02Coder: two values go through one coder, one after the other or at once.
func E02Coder() {
	c := []sessionid.Coder{sessionid.GOBCoder{}, sessionid.JSONCoder{}, sessionid.XMLCoder{}}[sym.Choice("coder", 3)]
	var in, out [2]sA
	var enc [2][]byte
	var e, d [2]error
	for i := range in {
		a := sym.Bytes("a", 1)
		b := sym.Bytes("b", 1)
		sym.Assume('a' <= a[0] && a[0] <= 'z' && 'a' <= b[0] && b[0] <= 'z')
		in[i] = sA{string(a), b}
	}
	if sym.Bool("before") { // the coder has seen values
		b, f := c.Encode(sA{"x", []byte("y")})
		var x sA
		sym.Assert(f == nil && c.Decode(b, &x) == nil && x.A == "x" && string(x.B) == "y", "E02 a value goes through a coder unchanged")
	}
	sym.Quiesce()
	sym.Explore(sym.Bound("preemptions", 2, 3))
	for i := range in {
		i := i
		sym.Go(func() {
			enc[i], e[i] = c.Encode(in[i])
			d[i] = c.Decode(enc[i], &out[i])
		})
	}
	sym.Join()
	sym.NoExplore()
	for i := range in {
		sym.Assert(e[i] == nil && d[i] == nil && same(&out[i], &in[i]), "E02 values go through a coder next to each other")
	}
	for i := range in { // what was made before is the caller's own
		var x sA
		sym.Assert(c.Decode(enc[i], &x) == nil && same(&x, &in[i]), "E02 encoded bytes stay as they were made")
		scramble(enc[i])
		spoil(&x)
		sym.Assert(same(&out[i], &in[i]), "E02 a decoded value is the caller's own")
	}
	sym.Reach("end")
}

// ---- C01

// C01Mem contexts end.
func C01Mem() { kit("C01").Ended() }

// door is a store that looks at the contexts it is given.
type door struct {
	sessionid.Provider
	foreign, calls int
}

func (d *door) enter(ctx context.Context) error {
	d.calls++
	if ctx == nil || ctx.Value("mark") != "x" {
		d.foreign++
		return nil
	}
	return ctx.Err()
}

func (d *door) Create(ctx context.Context, access, refresh string, pair []sessionid.PairBytes) error {
	if e := d.enter(ctx); e != nil {
		return e
	}
	return d.Provider.Create(bg, access, refresh, pair)
}

func (d *door) Destroy(ctx context.Context, id string) error {
	if e := d.enter(ctx); e != nil {
		return e
	}
	return d.Provider.Destroy(bg, id)
}

func (d *door) DestroyByToken(ctx context.Context, token string) error {
	if e := d.enter(ctx); e != nil {
		return e
	}
	return d.Provider.DestroyByToken(bg, token)
}

func (d *door) Check(ctx context.Context, token string) error {
	if e := d.enter(ctx); e != nil {
		return e
	}
	return d.Provider.Check(bg, token)
}

func (d *door) Put(ctx context.Context, token string, pair []sessionid.PairBytes) error {
	if e := d.enter(ctx); e != nil {
		return e
	}
	return d.Provider.Put(bg, token, pair)
}

func (d *door) Get(ctx context.Context, token string, keys []string) ([]sessionid.Value, error) {
	if e := d.enter(ctx); e != nil {
		return nil, e
	}
	return d.Provider.Get(bg, token, keys)
}

func (d *door) Keys(ctx context.Context, token string) ([]string, error) {
	if e := d.enter(ctx); e != nil {
		return nil, e
	}
	return d.Provider.Keys(bg, token)
}

func (d *door) Delete(ctx context.Context, token string, keys []string) error {
	if e := d.enter(ctx); e != nil {
		return e
	}
	return d.Provider.Delete(bg, token, keys)
}

func (d *door) Refresh(ctx context.Context, access, refresh, newAccess, newRefresh string) error {
	if e := d.enter(ctx); e != nil {
		return e
	}
	return d.Provider.Refresh(bg, access, refresh, newAccess, newRefresh)
}

// C01Manager contexts given to a manager or a session object end.
func C01Manager() {
	p := sessionid.NewProvider(sessionid.WithProviderClear(0), sessionid.WithProviderAccess(time.Hour))
	d := &door{Provider: p}
	g := sessionid.NewManager(sessionid.WithProvider(d), sessionid.WithKey([]byte("k")), sessionid.WithCoder(rawCoder{}))
	fine := ctxX{bg, "x"}
	old := sym.Str("old", 1)
	s0, r0, e := g.Create(fine, "u", sessionid.Pair{Key: "a", Value: old})
	s1, _, f := g.Create(fine, "u")
	sym.Assert(e == nil && f == nil, "C01 creation succeeds")
	var mine *sessionid.Session
	mine, e = g.Get(fine, s0.Token())
	sym.Assert(e == nil, "C01 the token is genuine")
	type state struct {
		live, other bool
		a, b        string
	}
	look := func() (x state) {
		x.live = p.Check(bg, s0.Token()) == nil
		x.other = p.Check(bg, s1.Token()) == nil
		vs, _ := p.Get(bg, s0.Token(), []string{"a", "b"})
		if len(vs) == 2 {
			x.a, x.b = string(vs[0].Bytes), string(vs[1].Bytes)
		}
		return
	}
	n := sym.Bound("operations", 1, 2)
	for i := 0; i < n; i++ {
		was := look()
		ctx := ctxX{store.Ending(sym.Bound("asks", 3, 4)), "x"}
		want := was
		v := sym.Str("v", 1)
		var got string
		var na string
		var s *sessionid.Session
		e = nil
		switch sym.Choice("op", 11) {
		case 0:
			s, _, e = g.Create(ctx, "u", sessionid.Pair{Key: "a", Value: v})
			if e == nil {
				sym.Assert(p.Check(bg, s.Token()) == nil, "C01 a creation that reports success has made a session")
			}
		case 1:
			na, _, e = g.Refresh(ctx, s0.Token(), r0)
			sym.Assert(was.live || e != nil, "C01 a session that is gone is not refreshed")
			if e == nil {
				sym.Assert(p.Check(bg, na) == nil, "C01 a refresh that reports success has made tokens")
			}
			want.live, want.a, want.b = false, "", ""
		case 2:
			e = g.Destroy(ctx, "u")
			want = state{}
		case 3:
			e = g.DestroyByToken(ctx, s0.Token())
			want = state{other: was.other}
		case 4:
			_, e = g.Get(ctx, s0.Token())
		case 5:
			e = mine.Destroy(ctx)
			want = state{other: was.other}
		case 6:
			e = mine.Check(ctx)
		case 7:
			e = mine.Put(ctx, sessionid.Pair{Key: "b", Value: v})
			want.b = v
		case 8:
			e = mine.Delete(ctx, s0.Token(), "a")
			want.a = ""
		case 9:
			_, e = mine.Keys(ctx)
		case 10:
			var b bytesT
			e = mine.Get(ctx, "a", &b)
			got = string(b)
			if e == nil {
				sym.Assert(got == was.a, "C01 a read gives what is stored")
			}
		}
		now := look()
		sym.Assert(d.foreign == 0, "C01 the caller's context reaches the store")
		if e != nil {
			sym.Assert(now == was, "C01 an operation that reports its context's end changes nothing")
			sym.Assert(got == "", "C01 an operation that reports its context's end gives nothing")
		} else {
			sym.Assert(now == want, "C01 an operation that reports success has taken effect")
		}
	}
	// what the session object remembers is what is stored
	if was := look(); was.live {
		var a, b bytesT
		sym.Assert((mine.Get(fine, "a", &a) == nil || was.a == "") && string(a) == was.a, "C01 a session object agrees with the store afterwards")
		sym.Assert((mine.Get(fine, "b", &b) == nil || was.b == "") && string(b) == was.b, "C01 a session object agrees with the store afterwards")
	}
	sym.Reach("end")
	p.Close()
}
