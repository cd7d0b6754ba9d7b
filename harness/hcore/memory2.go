package hcore

import (
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"verif/harness/model"
	"verif/harness/store"
	"verif/harness/sym"
)

const sec = time.Second

// M06 cleanup is invisible and reclaims everything (operations one at a time).
func M06() {
	r := time.Duration(sym.Int("refresh", 1, int64(2*sec)))
	a := time.Duration(sym.Int("access", 1, int64(2*sec)))
	sym.Assume(a <= r)
	period := time.Duration(sym.Int("period", int64(sec), int64(2*sec)))
	p := sessionid.NewProvider(sessionid.WithProviderAccess(a), sessionid.WithProviderRefresh(r),
		sessionid.WithProviderClear(period), sessionid.WithProviderCheckBatch(sym.Choice("batch", 3)), sessionid.WithProviderMaxSize(0))
	v := &model.Env{P: p, M: &model.Store{A: a, R: r}, Tag: "M06"}
	dt := func() { v.Advance(time.Duration(sym.Int("dt", 0, int64(2*sec)))) }
	v.Create(tokA[0], tokR[0], nil)
	dt()
	v.Create(tokA[1], tokR[1], nil)
	switch sym.Choice("op", 4) {
	case 0:
		v.Probe(sym.Choice("probe", 5), tokA[0], []string{"k"})
	case 1:
		v.Create(tokA[2], tokR[2], nil)
	case 2:
		v.Refresh(tokA[0], tokR[0], "u.9.s", "u.q9.s")
	case 3:
		v.Create(tokA[0], tokR[1], nil)
	}
	dt()
	v.All([]string{tokA[0], tokA[1], tokA[2], "u.9.s"}, []string{"k"})
	sym.Quiesce()
	v.All([]string{tokA[0], tokA[1], tokA[2], "u.9.s"}, []string{"k"})
	// everything passes away
	v.Advance(r)
	v.Advance(period)
	sym.Quiesce()
	for _, s := range []string{tokA[0], tokA[1], tokA[2], "u.9.s", "u", "uv"} {
		sym.Assert(!sym.Holds(p, s), "M06: something about a session is still held after its refresh lifetime and a cleanup period")
	}
	v.All([]string{tokA[0], tokA[1], tokA[2], "u.9.s"}, nil)
	// and the store goes on working
	v.Create(tokA[0], tokR[0], nil)
	v.All(tokA, nil)
	sym.Reach("end")
	v.P.Close()
}

// M06Many: a cleanup removes exactly the dead ones of several sessions.
func M06Many() {
	r := 10 * sec
	p := sessionid.NewProvider(sessionid.WithProviderAccess(r), sessionid.WithProviderRefresh(r),
		sessionid.WithProviderClear(3*sec), sessionid.WithProviderCheckBatch(sym.Choice("batch", 3)))
	v := &model.Env{P: p, M: &model.Store{A: r, R: r}, Tag: "M06"}
	toks := []string{"u.0.s", "u.1.s", "u.2.s", "v.0.s"}
	for i, t := range toks {
		if sym.Bool("skip") {
			continue
		}
		v.Create(t, t+"r", []sessionid.PairBytes{{Key: "k", Value: []byte{byte(i)}}})
		v.Advance(time.Duration(sym.Int("dt", 0, int64(4*sec))))
	}
	v.Advance(time.Duration(sym.Int("dt", 0, int64(12*sec))))
	if sym.Bool("touch") {
		v.Check(toks[0])
		v.Check(toks[1])
		sym.Quiesce()
	}
	v.All(toks, []string{"k"})
	v.Destroy("u")
	v.All(toks, []string{"k"})
	sym.Reach("end")
	v.P.Close()
}

// M06Notice: a dead session that an operation meets is forgotten, without any periodic cleanup.
func M06Notice() {
	r := time.Duration(sym.Int("refresh", 1, int64(time.Hour)))
	p := sessionid.NewProvider(sessionid.WithProviderAccess(r), sessionid.WithProviderRefresh(r),
		sessionid.WithProviderClear(0), sessionid.WithProviderCheckBatch(sym.Choice("batch", 2)*2))
	v := &model.Env{P: p, M: &model.Store{A: r, R: r}, Tag: "M06"}
	toks, refs := []string{"u.0.s", "u.1.s", "uv.2.s"}, []string{"u.r0.s", "u.r1.s", "uv.r2.s"}
	for i, t := range toks {
		v.Create(t, refs[i], []sessionid.PairBytes{{Key: "k" + t, Value: []byte{byte(i)}}})
		if i > 0 {
			v.Advance(time.Duration(sym.Int("dt", 0, int64(time.Hour))))
		}
	}
	n := sym.Bound("operations", 3, 4)
	quiet := sym.Bool("quiet")
	var met []string
	for i := 0; i < n; i++ {
		k := sym.Choice("tok", 3)
		t := toks[k]
		op := 0
		if i == 0 {
			op = sym.Choice("op", 6)
		} else if sym.Bool("direct") {
			op = 3 // removes what is dead by itself
		}
		_, c := v.M.Status(t)
		if op < 5 {
			v.Probe(op, t, []string{"k" + t})
		} else {
			sym.Assume(c == model.NotExists)
			v.Refresh(t, refs[k], t+"n", refs[k]+"n")
		}
		if c == model.NotExists {
			met = append(met, t, refs[k], "k"+t)
			if k == 2 {
				met = append(met, "uv")
			}
		}
		if quiet {
			sym.Quiesce()
		}
	}
	sym.Quiesce()
	for _, s := range met {
		sym.Assert(!sym.Holds(p, s), "M06: something about a session is still held after an operation met it dead")
	}
	v.All(toks, []string{"k" + toks[0]})
	v.Destroy("u")
	v.All(toks, []string{"k" + toks[2]})
	sym.Reach("end")
	v.P.Close()
}

// M06Race: cleanup interleaved with operations on the same token.
func M06Race() {
	r := time.Duration(sym.Int("refresh", 1, int64(20*sec)))
	d := time.Duration(sym.Int("dt", 0, int64(20*sec)))
	c := time.Duration(sym.Int("period", int64(10*sec), int64(20*sec)))
	p := sessionid.NewProvider(sessionid.WithProviderAccess(r), sessionid.WithProviderRefresh(r),
		sessionid.WithProviderClear(c), sessionid.WithProviderCheckBatch(sym.Choice("batch", 3)))
	v := &model.Env{P: p, M: &model.Store{A: r, R: r}, Tag: "M06"}
	v.Create("u.0.s", "u.r.s", nil)
	v.Create("u.1.s", "u.r.s", nil)
	sym.Quiesce()
	sym.Explore(sym.Bound("preemptions", 1, 2))
	k := sym.Choice("dead", 4)
	l := sym.Choice("live", 3)
	sym.Go(func() {
		sym.Advance(d)
		switch k {
		case 0:
			p.Check(model.BG, "u.0.s")
		case 1:
			p.Put(model.BG, "u.0.s", nil)
		case 2:
			p.Get(model.BG, "u.1.s", nil)
		case 3:
			p.Check(model.BG, "u.0.s")
			p.Check(model.BG, "u.1.s")
		}
	})
	sym.Go(func() {
		sym.Advance(d)
		switch l {
		case 0:
			p.Create(model.BG, "u.0.s", "u.q.s", nil)
		case 1:
			p.Create(model.BG, "u.2.s", "u.r.s", nil)
			p.Refresh(model.BG, "u.2.s", "u.r.s", "u.0.s", "u.q.s")
		case 2:
			p.Create(model.BG, "u.0.s", "u.q.s", nil)
			p.Create(model.BG, "u.1.s", "u.q.s", nil)
		}
	})
	sym.Join()
	sym.NoExplore()
	sym.Quiesce()
	v.M.Now += d
	switch l {
	case 0, 1:
		v.M.Apply(model.Op{Kind: model.KCreate, Tok: "u.0.s", Ref: "u.q.s", Key: "x"})
	case 2:
		v.M.Apply(model.Op{Kind: model.KCreate, Tok: "u.0.s", Ref: "u.q.s", Key: "x"})
		v.M.Apply(model.Op{Kind: model.KCreate, Tok: "u.1.s", Ref: "u.q.s", Key: "x"})
	}
	for _, t := range []string{"u.0.s", "u.1.s", "u.2.s"} {
		v.Check(t)
	}
	sym.Reach("end")
	p.Close()
}

func closedOp(p sessionid.Provider, k int, t string) error {
	switch k {
	case 0:
		return p.Create(model.BG, t, "u.r.s", nil)
	case 1:
		return p.Destroy(model.BG, "u")
	case 2:
		return p.DestroyByToken(model.BG, t)
	case 3:
		return p.Check(model.BG, t)
	case 4:
		return p.Put(model.BG, t, []sessionid.PairBytes{{Key: "k"}})
	case 5:
		_, e := p.Get(model.BG, t, []string{"k"})
		return e
	case 6:
		_, e := p.Keys(model.BG, t)
		return e
	case 7:
		return p.Delete(model.BG, t, []string{"k"})
	case 8:
		id, _ := model.ID(t)
		return p.Refresh(model.BG, t, id+".r.s", id+".9.s", id+".q.s")
	}
	return p.Close()
}

const closedOps = 10

// M07 closing is final.
func M07() {
	p := sessionid.NewProvider(sessionid.WithProviderAccess(sec), sessionid.WithProviderRefresh(2*sec),
		sessionid.WithProviderClear(time.Duration(sym.Choice("period", 2))*sec), sessionid.WithProviderCheckBatch(sym.Choice("batch", 3)))
	p.Create(model.BG, "u.0.s", "u.r.s", nil)
	dead := sym.Bool("dead")
	if dead {
		sym.Advance(3 * sec)
		if sym.Bool("touch") {
			p.Check(model.BG, "u.0.s")
		}
	}
	sym.Assert(p.Close() == nil, "M07: closing fails")
	n := sym.Bound("operations", 2, 3)
	for i := 0; i < n; i++ {
		e := closedOp(p, sym.Choice("op", closedOps), []string{"u.0.s", "v.0.s"}[sym.Choice("tok", 2)])
		sym.Assert(e == sessionid.ErrProviderClosed, "M07: an operation after closing does not report the closed error")
		if i == 0 && sym.Bool("later") {
			sym.Advance(5 * sec)
		}
	}
	sym.Quiesce()
	sym.Assert(sym.Goroutines() == 0, "M07: a background goroutine is left after closing")
	sym.Reach("end")
}

// M07Race: closing while operations are under way.
func M07Race() {
	p := sessionid.NewProvider(sessionid.WithProviderAccess(sec), sessionid.WithProviderRefresh(sec),
		sessionid.WithProviderClear(0), sessionid.WithProviderCheckBatch(sym.Choice("batch", 2)))
	p.Create(model.BG, "u.0.s", "u.r.s", nil)
	p.Create(model.BG, "u.1.s", "u.r.s", nil)
	if sym.Choice("dead", 2) == 1 {
		sym.Advance(sec)
	}
	sym.Quiesce()
	sym.Explore(sym.Bound("preemptions", 1, 2))
	k, l := sym.Choice("op", closedOps), sym.Choice("op", closedOps)
	if l > 6 {
		l = 9
	}
	var e, e2 error
	sym.Go(func() { e = closedOp(p, k, "u.0.s") })
	sym.Go(func() { e2 = closedOp(p, l, "u.1.s") })
	ec := p.Close()
	sym.Join()
	sym.NoExplore()
	if k != 9 && l != 9 {
		sym.Assert(ec == nil, "M07: closing fails")
	}
	c := 0
	if ec == nil {
		c++
	}
	if k == 9 && e == nil {
		c++
	}
	if l == 9 && e2 == nil {
		c++
	}
	sym.Assert(c == 1, "M07: not exactly one close succeeds")
	if k != 9 {
		sym.Assert(closeOK(e), "M07: an operation concurrent with closing reports an error it should not")
	}
	sym.Quiesce()
	sym.Assert(closedOp(p, k, "u.0.s") == sessionid.ErrProviderClosed, "M07: an operation after closing does not report the closed error")
	sym.Assert(sym.Goroutines() == 0, "M07: a background goroutine is left after closing")
	sym.Reach("end")
}

func closeOK(e error) bool {
	switch model.Class(e) {
	case model.OK, model.Closed, model.NotExists:
		return true
	}
	return false
}

// setup creates the session the concurrent operations work on.
func setup(v *model.Env, hours int) {
	base := model.Op{Kind: model.KCreate, Tok: "u.0.s", Ref: "u.r.s", Key: "k", Val: string(sym.Bytes("base", 1))}
	model.Do(v.P, base)
	v.M.Apply(base)
	// alive, and in a deeper exploration also expired or dead
	v.Advance(time.Duration(sym.Int("age", 1, int64(sym.Bound("hours", hours, 3))*int64(time.Hour)-1)))
}

func mkOp(name string, i int, kinds []int) model.Op {
	n := string(rune('a' + i))
	return model.Op{Kind: kinds[sym.Choice(name, len(kinds))], Tok: "u.0.s", Ref: "u.r.s", NTok: "u." + n + ".s", NRef: "u.q" + n + ".s", Key: "k", Val: string(sym.Bytes("val", 1))}
}

var allKinds = []int{model.KCreate, model.KRefresh, model.KDestroy, model.KDestroyByToken, model.KCheck, model.KPut, model.KGet, model.KKeys, model.KDelete}

// M08 concurrent operations are atomic.
func M08() {
	v := memFix("M08", 0)
	setup(v, 3)
	lin(v, 2, sym.Bound("preemptions", 3, 4), allKinds)
}

// M08Two: one thread does two operations.
func M08Two() {
	v := memFix("M08", 0)
	setup(v, 1)
	a, b, c := mkOp("op", 0, allKinds), mkOp("op", 1, allKinds), mkOp("op", 2, allKinds)
	if a.Kind == model.KRefresh && sym.Bool("follow") {
		// go on with the refreshed session
		c.Tok, c.Ref = a.NTok, a.NRef
	}
	runLin(v, [][]model.Op{{a, c}, {b}}, sym.Bound("preemptions", 2, 3), []string{"u.0.s", "u.a.s", "u.b.s", "u.c.s"})
}

// M08Three: three threads.
func M08Three() {
	v := memFix("M08", 0)
	setup(v, 3)
	lin(v, 3, sym.Bound("preemptions", 1, 2), []int{model.KRefresh, model.KDestroy, model.KPut, model.KGet, model.KCreate})
}

// M08Cap: creation at capacity.
func M08Cap() {
	v := memFix("M08", 1)
	setup(v, 3)
	ops := [][]model.Op{
		{{Kind: model.KCreate, Tok: "u.1.s", Ref: "u.r.s", Key: "k", Val: "1"}},
		{mkOp("op", 1, []int{model.KCreate, model.KRefresh, model.KDestroy, model.KPut})},
	}
	runLin(v, ops, sym.Bound("preemptions", 2, 3), []string{"u.0.s", "u.1.s", "u.b.s"})
}

func lin(v *model.Env, threads, preempt int, kinds []int) {
	var ops [][]model.Op
	for i := 0; i < threads; i++ {
		ops = append(ops, []model.Op{mkOp("op", i, kinds)})
		if i > 0 {
			sym.Assume(ops[i][0].Kind >= ops[i-1][0].Kind)
		}
	}
	runLin(v, ops, preempt, []string{"u.0.s", "u.a.s", "u.b.s", "u.c.s"})
}

func runLin(v *model.Env, ops [][]model.Op, preempt int, toks []string) {
	res := make([][]string, len(ops))
	sym.Quiesce()
	sym.Explore(preempt)
	for i := range ops {
		sym.Go(func() {
			var out []string
			for _, o := range ops[i] {
				out = append(out, model.Do(v.P, o))
			}
			res[i] = out
		})
	}
	sym.Join()
	sym.NoExplore()
	sym.Quiesce()
	final := model.State(v.P, toks, "k")
	sym.Assert(model.Linear(v.M, ops, res, final, toks, "k"), v.Tag+": no one-after-the-other order of the operations gives these results")
	sym.Reach("end")
	v.P.Close()
}

// P01Mem: two stores in memory.
func P01Mem() {
	open := func(n time.Duration, max int) *model.Env {
		p := sessionid.NewProvider(sessionid.WithProviderClear(0), sessionid.WithProviderAccess(n*time.Hour), sessionid.WithProviderRefresh(2*n*time.Hour), sessionid.WithProviderMaxSize(max))
		return &model.Env{P: p, M: &model.Store{A: n * time.Hour, R: 2 * n * time.Hour, Max: max}, Tag: "P01"}
	}
	a := open(1, sym.Choice("max", 3))
	store.Apart(a, open(2, 2), 2, 3, func() {})
}
