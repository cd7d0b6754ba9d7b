package hredis

import (
	"context"
	"strings"
	"time"

	"github.com/powerpuffpenguin/sessionid"
	redis "github.com/powerpuffpenguin/sessionid/provider/redis"
	"verif/harness/model"
	"verif/harness/redism"
	"verif/harness/store"
	"verif/harness/sym"
)

func init() {
	for k, f := range map[string]func(){
		"R02Hidden": R02Hidden, "R04": R04, "R04Names": R04Names, "R05": R05, "R05Fault": R05Fault,
		"R06": R06, "R06Two": R06Two, "R06Three": R06Three, "R06Dead": R06Dead, "R06Fault": R06Fault,
		"R07": R07, "R07Race": R07Race, "O01Redis": O01Redis, "P01Redis": P01Redis, "S02Redis": S02Redis, "E01Redis": E01Redis, "C01Redis": C01Redis,
	} {
		All[k] = f
	}
}

const prefix = "sessionid.provider.redis."

// R02Hidden: whatever name the provider's own entry has, it cannot be reached
// and hides no key of the user.
func R02Hidden() {
	v := kit("R02").Fix(0)
	md := store.Key("metadata")
	v.P.Close()
	s := redism.New()
	v.P = open(s, v.M.A, v.M.R, redis.WithMetadataKey(md))
	key := store.Key("k")
	sym.Assume(key != md)
	v.Create("u.0.s", "u.r.s", []sessionid.PairBytes{{Key: key, Value: sym.Bytes("v", 1)}})
	ks := []string{key, "__private_provider_redis"}
	p := v.P
	switch sym.Choice("op", 7) {
	case 0:
		vals, e := p.Get(model.BG, "u.0.s", []string{key, md})
		if e == nil {
			sym.Assert(len(vals) == 2 && !vals[1].Exists && len(vals[1].Bytes) == 0, "R02: the provider's own entry can be read")
		}
	case 1:
		w := sym.Bytes("w", 1)
		ps := [][]sessionid.PairBytes{
			{{Key: md, Value: w}},
			{{Key: md, Value: w}, {Key: key, Value: w}},
			{{Key: key, Value: w}, {Key: md, Value: w}},
			{{Key: key, Value: w}, {Key: key, Value: w}, {Key: md, Value: w}},
		}
		e := p.Put(model.BG, "u.0.s", ps[sym.Choice("place", len(ps))])
		sym.Assert(e != nil, "R02: the provider's own entry can be written")
	case 2:
		e := p.Create(model.BG, "u.1.s", "u.r.s", []sessionid.PairBytes{{Key: key, Value: nil}, {Key: md, Value: nil}})
		sym.Assert(e != nil, "R02: the provider's own entry can be given at creation")
	case 3:
		e := p.Create(model.BG, "u.0.s", "u.q.s", []sessionid.PairBytes{{Key: md, Value: nil}})
		sym.Assert(e != nil, "R02: the provider's own entry can be given at creation")
	case 4:
		ds := [][]string{{md}, {md, key}, {key, md}, {key, key, md}}
		d := sym.Choice("place", len(ds))
		if p.Delete(model.BG, "u.0.s", ds[d]) == nil && d != 0 {
			_, c := v.M.Status("u.0.s")
			sym.Assert(c == model.OK, "R02: removing keys succeeds on a session that is not usable")
			v.M.Apply(model.Op{Kind: model.KDelete, Tok: "u.0.s", Key: key})
		}
	case 6:
		vals, e := p.Get(model.BG, "u.0.s", []string{md, key, md})
		if e == nil {
			sym.Assert(len(vals) == 3 && !vals[0].Exists && len(vals[0].Bytes) == 0 && !vals[2].Exists && len(vals[2].Bytes) == 0, "R02: the provider's own entry can be read")
		}
	case 5:
		v.Put("u.0.s", []sessionid.PairBytes{{Key: ks[1], Value: sym.Bytes("w", 1)}})
	}
	v.All([]string{"u.0.s", "u.1.s"}, ks)
	v.Refresh("u.0.s", "u.r.s", "u.2.s", "u.q.s")
	v.All([]string{"u.0.s", "u.1.s", "u.2.s"}, ks)
	v.Delete("u.2.s", []string{key})
	v.All([]string{"u.0.s", "u.1.s", "u.2.s"}, ks)
	sym.Reach("end")
	p.Close()
}

// R04 destruction.
func R04() { kit("R04").Destroy(2, 3, []string{"u", "uv", "none", "u.0", "*"}, nil) }

// name is an arbitrary string without a dot.
func name(n string, max int) string {
	s := sym.Str(n, max)
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] != '.')
	}
	return s
}

// R04Names: whatever characters identities and the key prefix contain.
func R04Names() {
	n := sym.Bound("length", 1, 2)
	id, other := name("id", n), name("other", n)
	pre := sym.Str("prefix", n)
	srv = redism.New()
	v := kit("R04").Fix(0)
	v.P.Close()
	srv = redism.New()
	v.P = open(srv, v.M.A, v.M.R, redis.WithKeyPrefix(pre))
	foreign := sym.Str("foreign", 1) + "x"
	sym.Assume(!strings.HasPrefix(foreign, pre))
	srv.Set(foreign, "1")
	toks := []string{id + ".0.s", other + ".0.s", other + ".1.s"}
	v.Create(toks[0], id+".r.s", nil)
	if sym.Bool("two") {
		toks[2] = id + ".1.s"
	}
	v.Create(toks[1], other+".r.s", nil)
	v.Create(toks[2], strings.TrimSuffix(toks[2], "1.s")+"r.s", nil)
	v.Destroy(id)
	for _, t := range toks {
		v.Check(t)
	}
	v.Destroy(other + ".0")
	for _, t := range toks {
		v.Check(t)
	}
	v.DestroyByToken(toks[1])
	v.Destroy(other)
	for _, t := range toks {
		v.Check(t)
	}
	sym.Assert(srv.Has(foreign), "R04: destruction removed something that is no session")
	sym.Reach("end")
	v.P.Close()
}

// expiry checks what is stored on the server. When a session's deadlines are
// known, so is its key's expiry.
func expiry(tag string, ms ...*model.Store) {
	for _, e := range srv.Live() {
		if !strings.HasPrefix(e.Key, prefix) {
			continue
		}
		sym.Assert(e.Expire >= 0, tag+": a key never expires")
		ok := false
		for _, m := range ms {
			if time.Duration(e.Expire*int64(time.Millisecond)-origin) <= m.Now+time.Second && m.Index(e.Key[len(prefix):]) < 0 {
				ok = true // a session that has passed, and its key soon
			}
			for _, s := range m.S {
				if s.Access != e.Key[len(prefix):] {
					continue
				}
				at := time.Duration(e.Expire*int64(time.Millisecond) - origin)
				if at+time.Millisecond-1 >= s.RDead-1 && at <= s.RDead+time.Second {
					ok = true
				}
			}
		}
		sym.Assert(ok, tag+": a key does not expire at the deadline of its session")
	}
}

var origin int64

func timed(tag string) (store.Kit, *model.Env) {
	k := kit(tag)
	v := k.Env(0)
	origin = time.Now().UnixNano() - int64(v.M.Now)
	return k, v
}

// R05 every key expires in time.
func R05() {
	k, v := timed("R05")
	n := sym.Bound("operations", 2, 3)
	k.Step(v)
	v.Create("u.0.s", "u.r.s", []sessionid.PairBytes{{Key: "k", Value: nil}})
	expiry("R05", v.M)
	for i := 0; i < n; i++ {
		k.Step(v)
		t := []string{"u.0.s", "u.1.s"}[sym.Choice("tok", 2)]
		switch sym.Choice("op", 8) {
		case 0:
			v.Create(t, "u.r.s", nil)
		case 1:
			v.Refresh(t, "u.r.s", []string{"u.0.s", "u.1.s"}[sym.Choice("to", 2)], "u.r.s")
		case 2:
			v.Put(t, []sessionid.PairBytes{{Key: "k", Value: []byte("v")}})
		case 3:
			v.Put(t, nil)
		case 4:
			v.Delete(t, []string{"k"})
		case 5:
			v.Get(t, []string{"k"})
		case 6:
			v.Check(t)
		case 7:
			v.DestroyByToken(t)
		}
		sym.Quiesce()
		expiry("R05", v.M)
	}
	sym.Reach("end")
	v.P.Close()
}

func mut(i int) model.Op {
	o := model.Op{Tok: "u.0.s", Ref: "u.r.s", NTok: "u.9.s", NRef: "u.q9.s", Key: "k", Val: "new"}
	switch i {
	case 0:
		o.Kind, o.Tok = model.KCreate, "u.5.s"
	case 1:
		o.Kind = model.KCreate // replaces
	case 2:
		o.Kind = model.KRefresh
	case 3:
		o.Kind = model.KDestroy
	case 4:
		o.Kind = model.KDestroyByToken
	case 5:
		o.Kind = model.KPut
	case 6:
		o.Kind = model.KDelete
	case 7:
		o.Kind, o.NTok = model.KRefresh, "u.1.s" // onto a live one
	}
	return o
}

const muts = 8

var stopToks = []string{"u.0.s", "u.1.s", "v.0.s", "u.5.s", "u.9.s"}

// faulty runs one operation while the connection breaks before or after one of
// the commands takes effect, with a client that tries again or does not.
func faulty(tag string, final func(v *model.Env, before, after *model.Store)) {
	k := kit(tag)
	retries := sym.Choice("retries", 2)*2 - 1
	srv = redism.New()
	srv.Retries = retries
	v := &model.Env{P: open(srv, time.Hour, 2*time.Hour), M: &model.Store{A: time.Hour, R: 2 * time.Hour}, Tag: k.Tag}
	origin = time.Now().UnixNano() - int64(v.M.Now)
	for i, t := range stopToks[:3] {
		id, _ := model.ID(t)
		o := model.Op{Kind: model.KCreate, Tok: t, Ref: id + ".r.s", Key: "k", Val: string(rune('0' + i))}
		model.Do(v.P, o)
		v.M.Apply(o)
	}
	if sym.Bool("stale") {
		v.Advance(90 * time.Minute) // access expired
	}
	before, after := v.M.Copy(), v.M.Copy()
	o := mut(sym.Choice("op", muts))
	wanted := after.Apply(o)
	kind, at := sym.Choice("kind", 3), sym.Choice("at", sym.Bound("commands", 4, 6))
	n, hit := 0, false
	srv.Fault = func(string) int {
		n++
		if n == at+1 {
			hit = kind != 0
			return kind
		}
		return 0
	}
	got := model.Do(v.P, o)
	srv.Fault = nil
	if !hit || got == "ok" {
		sym.Assert(got == wanted, tag+": an operation reports "+got+" where the history requires "+wanted)
	}
	s := model.State(v.P, stopToks, "k")
	isB, isA := s == before.State(stopToks, "k"), s == after.State(stopToks, "k")
	if got == "ok" || !hit {
		sym.Assert(isA, tag+": an operation that reports success has not taken effect")
	} else if o.Kind == model.KDestroy {
		// sessions may be gone one by one; the others are as they were
		for _, t := range stopToks {
			one := []string{t}
			x := model.State(v.P, one, "k")
			sym.Assert(x == before.State(one, "k") || x == after.State(one, "k"), tag+": an interrupted destruction changes a session")
		}
	} else {
		sym.Assert(isA || isB, tag+": an interrupted operation leaves a mixture")
	}
	final(v, before, after)
	sym.Reach("end")
	v.P.Close()
}

// R05Fault: also when the connection breaks.
func R05Fault() {
	faulty("R05", func(v *model.Env, before, after *model.Store) { expiry("R05", before, after) })
}

// R06Fault: an interrupted operation takes effect as a whole or not at all.
func R06Fault() {
	faulty("R06", func(v *model.Env, before, after *model.Store) {})
}

// loose: destroying a user takes the sessions away one at a time.
func loose(k store.Kit) *model.Env {
	v := k.Base(0)
	v.M.Loose = true
	return v
}

// R06 the commands of two operations interleave.
func R06() {
	k := kit("R06")
	k.Lin(loose(k), 2, sym.Bound("preemptions", 2, 3), store.Kinds)
}

// R06Two: one thread does two operations.
func R06Two() {
	k := kit("R06")
	v := loose(k)
	kinds := []int{model.KCreate, model.KRefresh, model.KDestroy, model.KDestroyByToken, model.KPut, model.KDelete}
	a, b, c := store.Op("op", 0, kinds), store.Op("op", 1, kinds), store.Op("op", 2, kinds)
	if a.Kind == model.KRefresh && sym.Bool("follow") {
		c.Tok, c.Ref = a.NTok, a.NRef
	}
	k.RunLin(v, [][]model.Op{{a, c}, {b}}, sym.Bound("preemptions", 1, 2), []string{"u.0.s", "u.a.s", "u.b.s", "u.c.s"})
}

// R06Three: three threads.
func R06Three() {
	k := kit("R06")
	k.Lin(loose(k), 3, sym.Bound("preemptions", 1, 2), []int{model.KRefresh, model.KDestroy, model.KPut, model.KCreate})
}

// R06Dead: background deletion spares a session created again.
func R06Dead() {
	r := 10 * sec
	srv = redism.New()
	p := open(srv, r, r, redis.WithCheckBatch(2-sym.Choice("batch", sym.Bound("batches", 1, 3))))
	v := &model.Env{P: p, M: &model.Store{A: r, R: r}, Tag: "R06"}
	v.Create("u.0.s", "u.r.s", nil)
	v.Create("u.1.s", "u.r.s", nil)
	// the server's clock is late: it has not removed the keys yet
	for _, e := range srv.Keys {
		e.Expire = -1
	}
	sym.Quiesce()
	k, l := sym.Choice("dead", 6), sym.Choice("live", sym.Bound("live", 2, 3))
	sym.Explore(sym.Bound("preemptions", 1, 2))
	sym.Go(func() {
		sym.Advance(r)
		switch k {
		case 0:
			p.Check(model.BG, "u.0.s")
		case 1:
			p.Put(model.BG, "u.0.s", nil)
		case 2:
			p.Get(model.BG, "u.1.s", nil)
		case 3:
			p.Keys(model.BG, "u.0.s")
		case 4:
			p.Delete(model.BG, "u.0.s", []string{"k"})
		case 5:
			p.Refresh(model.BG, "u.0.s", "u.r.s", "u.3.s", "u.3r.s")
		}
	})
	sym.Go(func() {
		sym.Advance(r)
		switch l {
		case 0:
			p.Create(model.BG, "u.0.s", "u.q.s", nil)
		case 1:
			p.Create(model.BG, "u.2.s", "u.r.s", nil)
			p.Refresh(model.BG, "u.2.s", "u.r.s", "u.0.s", "u.q.s")
		case 2:
			p.Create(model.BG, "u.0.s", "u.q.s", nil)
			p.Create(model.BG, "u.1.s", "u.q.s", nil)
		}
	})
	sym.Join()
	sym.NoExplore()
	sym.Quiesce()
	v.M.Now += r
	v.M.Apply(model.Op{Kind: model.KCreate, Tok: "u.0.s", Ref: "u.q.s", Key: "x"})
	if l == 2 {
		v.M.Apply(model.Op{Kind: model.KCreate, Tok: "u.1.s", Ref: "u.q.s", Key: "x"})
	}
	for _, t := range []string{"u.0.s", "u.1.s", "u.2.s", "u.3.s"} {
		v.Check(t)
	}
	sym.Reach("end")
	p.Close()
}

// R07 closing is final.
func R07() {
	srv = redism.New()
	p := open(srv, sec, 2*sec, redis.WithCheckBatch(sym.Choice("batch", 3)))
	p.Create(model.BG, "u.0.s", "u.r.s", nil)
	if sym.Bool("dead") {
		for _, e := range srv.Keys {
			e.Expire = -1
		}
		sym.Advance(3 * sec)
		if sym.Bool("touch") {
			store.ClosedOp(p, sym.Choice("how", 8), "u.0.s")
		}
	}
	sym.Assert(p.Close() == nil, "R07: closing fails")
	n := sym.Bound("operations", 2, 3)
	for i := 0; i < n; i++ {
		e := store.ClosedOp(p, sym.Choice("op", store.ClosedOps), []string{"u.0.s", "u.5.s"}[sym.Choice("tok", 2)])
		sym.Assert(e == sessionid.ErrProviderClosed, "R07: an operation after closing does not report the closed error")
		if i == 0 && sym.Bool("later") {
			sym.Advance(5 * sec)
		}
	}
	sym.Quiesce()
	sym.Assert(sym.Goroutines() == 0, "R07: the background deleter is left after closing")
	sym.Reach("end")
}

// R07Race: closing while operations are under way.
func R07Race() {
	srv = redism.New()
	p := open(srv, sec, sec, redis.WithCheckBatch(sym.Choice("batch", sym.Bound("batches", 1, 2))))
	p.Create(model.BG, "u.0.s", "u.r.s", nil)
	p.Create(model.BG, "u.1.s", "u.r.s", nil)
	if sym.Bool("dead") {
		for _, e := range srv.Keys {
			e.Expire = -1
		}
		sym.Advance(sec)
	}
	sym.Quiesce()
	k, l := sym.Choice("op", store.ClosedOps), -1
	if sym.Bound("threads", 1, 2) > 1 {
		l = []int{3, 4, 9}[sym.Choice("op", 3)]
	}
	sym.Explore(sym.Bound("preemptions", 2, 2))
	var e1, e2 error
	sym.Go(func() { e1 = store.ClosedOp(p, k, "u.0.s") })
	if l >= 0 {
		sym.Go(func() { e2 = store.ClosedOp(p, l, "u.1.s") })
	}
	ec := p.Close()
	sym.Join()
	sym.NoExplore()
	c := 0
	if ec == nil {
		c++
	}
	if k == 9 && e1 == nil {
		c++
	}
	if l == 9 && e2 == nil {
		c++
	}
	sym.Assert(c == 1, "R07: not exactly one close succeeds")
	sym.Quiesce()
	sym.Assert(store.ClosedOp(p, k, "u.0.s") == sessionid.ErrProviderClosed, "R07: an operation after closing does not report the closed error")
	sym.Assert(sym.Goroutines() == 0, "R07: the background deleter is left after closing")
	sym.Reach("end")
}

// O01Redis: the lifetimes a store works with follow from its options.
func O01Redis() {
	ds, a, r := model.Durations(sym.Bound("options", 3, 4))
	srv = redism.New()
	var opts []redis.Option
	extra := sym.Choice("extra", 5)
	for _, d := range ds {
		if d.Access {
			opts = append(opts, redis.WithAccess(d.D))
		} else {
			opts = append(opts, redis.WithRefresh(d.D))
		}
		switch extra {
		case 1:
			opts = append(opts, redis.WithCheckBatch(2))
		case 2:
			opts = append(opts, redis.WithKeyPrefix("p."))
		case 3:
			opts = append(opts, redis.WithMetadataKey("m"))
		}
	}
	if extra == 4 { // a store without options, after one with
		p, e := redis.New(append(opts, redis.WithClient(srv.Client()))...)
		sym.Assert(e == nil, "O01: opening fails")
		p.Close()
		_, a, r = model.Durations(0)
		opts = nil
	}
	p, e := redis.New(append(opts, redis.WithClient(srv.Client()))...)
	sym.Assert(e == nil, "O01: opening fails")
	v := &model.Env{P: p, M: &model.Store{A: a, R: r}, Tag: "O01"}
	v.Lifetimes("u.0.s", "u.r.s")
	sym.Reach("end")
	p.Close()
}

// S02Redis: what is no token is refused.
func S02Redis() { kit("S02").Refuses() }

// P01Redis: two stores on one server, told apart by their key prefixes, next
// to somebody else's keys.
func P01Redis() {
	n := sym.Bound("length", 1, 2)
	pa, pb := sym.Str("prefixa", n), sym.Str("prefixb", n)
	sym.Assume(!strings.HasPrefix(pa, pb) && !strings.HasPrefix(pb, pa))
	foreign := string(sym.Bytes("foreign", 1)) + "u.0.s"
	sym.Assume(!strings.HasPrefix(foreign, pa) && !strings.HasPrefix(foreign, pb))
	srv = redism.New()
	srv.Set(foreign, "1")
	open := func(n time.Duration, prefix string) *model.Env {
		p := open(srv, n*time.Hour, 2*n*time.Hour, redis.WithKeyPrefix(prefix))
		return &model.Env{P: p, M: &model.Store{A: n * time.Hour, R: 2 * n * time.Hour}, Tag: "P01"}
	}
	a := open(1, pa)
	store.Apart(a, open(2, pb), 2, 3, func() {
		sym.Assert(srv.Has(foreign), "P01: a key that is not the store's is removed")
	})
}

// E01Redis the life of sessions made by a manager.
func E01Redis() { kit("E01").Life(1, 2) }

// C01Redis contexts end, before an operation or while one of its commands is
// on its way.
func C01Redis() {
	tag := "C01"
	v := kit(tag).Fix(0)
	store.Populate(v, []time.Duration{0, 90 * time.Minute, 3 * time.Hour}[sym.Choice("age", 3)])
	o := store.EndOp(sym.Choice("op", store.EndOps), "z")
	before, after := v.M.Copy(), v.M.Copy()
	want := after.Apply(o)
	ctx, cancel := context.WithCancel(context.Background())
	n, hit := 0, false
	switch sym.Choice("context", 2) {
	case 0: // over before the operation begins
		ctx = store.Ending(0)
	case 1:
		kind, at := sym.Choice("kind", 2), sym.Choice("at", sym.Bound("commands", 4, 6))
		srv.After = cancel
		srv.Fault = func(string) int {
			n++
			if n != at+1 {
				return 0
			}
			hit = true
			if kind == 0 {
				cancel()
				return 0
			}
			return 3
		}
	}
	model.BG = ctx
	sym.Quiesce()
	sym.Explore(sym.Bound("preemptions", 1, 2))
	got := model.Do(v.P, o)
	sym.NoExplore()
	model.BG = context.Background()
	srv.Fault = nil
	cancel()
	name := model.Name(model.Ended)
	over := len(got) >= len(name) && got[:len(name)] == name
	if over {
		rest := got[len(name):]
		sym.Assert(rest == "" || rest == " ", tag+": an operation gives results together with the end of its context")
	} else {
		sym.Assert(got == want, tag+": an operation whose context ends reports "+got)
	}
	s := model.State(v.P, store.EndToks, "k")
	isB, isA := s == before.State(store.EndToks, "k"), s == after.State(store.EndToks, "k")
	switch {
	case !over:
		sym.Assert(isA, tag+": an operation that reports success has not taken effect")
	case !hit:
		sym.Assert(isB, tag+": an operation whose context had ended takes effect")
	case o.Kind == model.KDestroy:
		for _, t := range store.EndToks {
			one := []string{t}
			x := model.State(v.P, one, "k")
			sym.Assert(x == before.State(one, "k") || x == after.State(one, "k"), tag+": an interrupted destruction changes a session")
		}
	default:
		sym.Assert(isA || isB, tag+": an operation whose context ends takes effect in part")
	}
	o = store.EndOp(sym.Choice("last", store.EndOps), "y")
	m := before
	if isA {
		m = after
	}
	if isA || isB {
		sym.Assert(model.Do(v.P, o) == m.Apply(o), tag+": a store goes on after contexts ended")
	}
	sym.Reach("end")
	sym.Assert(v.P.Close() == nil, tag+": a store closes after contexts ended")
}
