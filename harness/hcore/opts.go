package hcore

import (
	"hash"

	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"
	"verif/harness/model"
	"verif/harness/sym"
)

// O01: the lifetimes a store works with follow from its options.
func O01() {
	ds, a, r := model.Durations(sym.Bound("options", 3, 4))
	extra := sym.Choice("extra", 4)
	opts := []sessionid.ProviderOption{sessionid.WithProviderClear(0)}
	for _, d := range ds {
		if d.Access {
			opts = append(opts, sessionid.WithProviderAccess(d.D))
		} else {
			opts = append(opts, sessionid.WithProviderRefresh(d.D))
		}
		if extra == 1 {
			opts = append(opts, sessionid.WithProviderMaxSize(2))
		}
		if extra == 2 {
			opts = append(opts, sessionid.WithProviderCheckBatch(2))
		}
	}
	p := sessionid.NewProvider(opts...)
	if extra == 3 { // the same options again, and none at all
		p2 := sessionid.NewProvider(opts...)
		v2 := &model.Env{P: p2, M: &model.Store{A: a, R: r}, Tag: "O01"}
		if sym.Bool("defaults") {
			p2 = sessionid.NewProvider(sessionid.WithProviderClear(0))
			_, a, r := model.Durations(0)
			v2 = &model.Env{P: p2, M: &model.Store{A: a, R: r}, Tag: "O01"}
		}
		v2.Lifetimes("w.0.s", "w.r.s")
	} else {
		v := &model.Env{P: p, M: &model.Store{A: a, R: r}, Tag: "O01"}
		v.Lifetimes("u.0.s", "u.r.s")
	}
	sym.Reach("end")
}

// O01Others: the other options do what they are for, independently.
func O01Others() {
	max := int(sym.Int("max", -2, 3))
	opts := []sessionid.ProviderOption{sessionid.WithProviderClear(0), sessionid.WithProviderMaxSize(max)}
	if sym.Bool("twice") {
		opts = append([]sessionid.ProviderOption{sessionid.WithProviderMaxSize(1)}, opts...)
	}
	_, a, r := model.Durations(0)
	p := sessionid.NewProvider(opts...)
	m := max
	if m < 0 {
		m = 0
	}
	v := &model.Env{P: p, M: &model.Store{A: a, R: r, Max: m}, Tag: "O01"}
	toks := []string{"u.0.s", "u.1.s", "u.2.s", "u.3.s", "u.4.s"}
	for _, t := range toks {
		v.Create(t, "u.r.s", nil)
	}
	v.All(toks, []string{"k"})
	sym.Reach("end")
	p.Close()
}

// oneCoder puts its mark in front of what it encodes.
type oneCoder struct{ mark byte }

func (c oneCoder) Encode(v interface{}) ([]byte, error) {
	s, ok := v.(string)
	if !ok {
		return nil, errCodec
	}
	return append([]byte{c.mark}, s...), nil
}

func (c oneCoder) Decode(b []byte, p interface{}) error {
	x, ok := p.(*string)
	if !ok || len(b) == 0 || b[0] != c.mark {
		return errCodec
	}
	*x = string(b[1:])
	return nil
}

// given is what a manager is configured with.
type given struct {
	opts []sessionid.Option
	h    func() hash.Hash
	key  []byte
	p    *recorder // nil: the default
	mark byte      // 0: the default
}

// options makes up to n options, each of any kind.
func options(tag string, n int) *given {
	_, h := method(1)
	g := &given{h: h, key: []byte("github.com/powerpuffpenguin/sessionid")}
	n = sym.Choice(tag+".n", n+1)
	for i := 0; i < n; i++ {
		switch sym.Choice(tag+".option", 4) {
		case 0:
			var m cryptoer.SigningMethod
			m, g.h = method(sym.Choice(tag+".method", sym.Bound("methods", 2, 5)))
			g.opts = append(g.opts, sessionid.WithMethod(m))
		case 1:
			g.key = sym.Bytes(tag+".key", 1+sym.Choice(tag+".keylen", 2))
			g.opts = append(g.opts, sessionid.WithKey(g.key))
		case 2:
			g.p = &recorder{}
			g.opts = append(g.opts, sessionid.WithProvider(g.p))
		case 3:
			g.mark = byte(1 + i)
			g.opts = append(g.opts, sessionid.WithCoder(oneCoder{g.mark}))
		}
	}
	return g
}

// follows checks that a manager does what it was configured to.
func (g *given) follows(m sessionid.Manager, all ...*recorder) {
	v := string(sym.Bytes("v", 1))
	before := make([]int, len(all))
	for i, p := range all {
		before[i] = p.calls
	}
	s, r, e := m.Create(bg, "u", sessionid.Pair{Key: "k", Value: v})
	sym.Assert(e == nil && s != nil, "O02 create")
	if s == nil {
		return
	}
	sym.Assert(genuine(g.h, g.key, s.Token()) && genuine(g.h, g.key, r), "O02 tokens are signed with the method and key given last")
	for i, p := range all {
		n := 0
		if p == g.p {
			n = 1
		}
		sym.Assert(p.calls == before[i]+n, "O02 sessions go to the provider given last, and to no other")
	}
	if g.p != nil {
		ok := g.p.access == s.Token() && g.p.refresh == r && len(g.p.pairs) == 1 && g.p.pairs[0].Key == "k"
		sym.Assert(ok, "O02 the provider gets the session created")
		if ok {
			var x string
			var e error
			if g.mark != 0 {
				e = oneCoder{g.mark}.Decode(g.p.pairs[0].Value, &x)
			} else {
				e = sessionid.GOBCoder{}.Decode(g.p.pairs[0].Value, &x)
			}
			sym.Assert(e == nil && x == v, "O02 values are encoded by the coder given last")
			g.p.held = g.p.pairs
		}
	}
	t, e := m.Get(bg, s.Token())
	sym.Assert(e == nil && t != nil, "O02 a token issued is accepted")
	if e == nil && t != nil {
		var x string
		e = t.Get(bg, "k", &x)
		sym.Assert(e == nil && x == v, "O02 values are decoded by the coder given last, from the provider given last")
	}
	if g.p != nil && len(all) == 1 {
		n := g.p.calls
		_, _, e = m.Refresh(bg, s.Token(), r)
		sym.Assert(e == nil && g.p.calls == n+1, "O02 refreshing goes to the provider given last")
	}
}

// O02: one manager, options in any order and number.
func O02() {
	g := options("o", sym.Bound("options", 3, 4))
	m := sessionid.NewManager(g.opts...)
	if g.p != nil {
		g.follows(m, g.p)
	} else {
		g.follows(m)
	}
	sym.Reach("end")
}

// O02Two: two managers, the second made and used before, between or after the
// first one's uses.
func O02Two() {
	a := options("a", sym.Bound("options", 1, 2))
	b := options("b", sym.Bound("options", 1, 2))
	var all []*recorder
	for _, g := range []*given{a, b} {
		if g.p != nil {
			all = append(all, g.p)
		}
	}
	ma := sessionid.NewManager(a.opts...)
	if sym.Bool("first") {
		a.follows(ma, all...)
	}
	mb := sessionid.NewManager(b.opts...)
	if sym.Bool("second") {
		b.follows(mb, all...)
	}
	a.follows(ma, all...)
	b.follows(mb, all...)
	mc := sessionid.NewManager()
	c := &given{key: []byte("github.com/powerpuffpenguin/sessionid")}
	_, c.h = method(1)
	c.follows(mc, all...)
	sym.Reach("end")
}
