package hbolt

import (
	"sort"
	"strings"
	"time"

	lib "github.com/boltdb/bolt"
	"github.com/powerpuffpenguin/sessionid"
	bolt "github.com/powerpuffpenguin/sessionid/provider/bolt"
	"verif/harness/boltm"
	"verif/harness/model"
	"verif/harness/store"
	"verif/harness/sym"
)

func init() {
	for k, f := range map[string]func(){
		"B06": B06, "B06Notice": B06Notice, "B06Race": B06Race, "B06Closed": B06Closed,
		"B07Reopen": B07Reopen, "B07Stop": B07Stop, "B07Gone": B07Gone, "B07New": B07New,
		"B08": B08, "B08Race": B08Race, "B08Two": B08Two, "B08Close": B08Close, "B08CloseRace": B08CloseRace,
		"O01Bolt": O01Bolt, "P01Bolt": P01Bolt, "E01Bolt": E01Bolt, "B06Fail": B06Fail, "C01Bolt": C01Bolt,
	} {
		All[k] = f
	}
}

func file(name string) *lib.DB {
	db, e := lib.Open(name, 0600, nil)
	if e != nil {
		panic(e)
	}
	return db
}

func on(db *lib.DB, opt ...bolt.Option) sessionid.Provider {
	p, e := bolt.New(append([]bolt.Option{bolt.WithDB(db)}, opt...)...)
	if e != nil {
		panic(e)
	}
	return p
}

// left lists the keys of everything stored in a database.
func left(db *lib.DB) string {
	var out []string
	e := db.View(func(t *lib.Tx) error {
		return t.ForEach(func(name []byte, b *lib.Bucket) error {
			walk(&out, string(name), b)
			return nil
		})
	})
	if e != nil {
		panic(e)
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func walk(out *[]string, path string, b *lib.Bucket) {
	*out = append(*out, path)
	b.ForEach(func(k, v []byte) error {
		p := path + "/" + string(k)
		if v == nil {
			walk(out, p, b.Bucket(k))
		} else {
			*out = append(*out, p)
		}
		return nil
	})
}

var (
	cA = []string{"u.0.s", "u.1.s", "uv.0.s", "u.9.s"}
	cR = []string{"u.r.s", "u.q.s", "uv.r.s", "u.q9.s"}
)

// B06 periodic cleanup is invisible and reclaims everything.
func B06() {
	r := time.Duration(sym.Int("refresh", 1, int64(2*sec)))
	a := time.Duration(sym.Int("access", 1, int64(2*sec)))
	sym.Assume(a <= r)
	period := time.Duration(sym.Int("period", int64(sec), int64(2*sec)))
	batch := sym.Choice("batch", 3)
	db := file("s.db")
	p := on(db, bolt.WithAccess(a), bolt.WithRefresh(r), bolt.WithClear(period), bolt.WithCheckBatch(batch))
	v := &model.Env{P: p, M: &model.Store{A: a, R: r}, Tag: "B06"}
	dt := func() { v.Advance(time.Duration(sym.Int("dt", 0, int64(2*sec)))) }
	kv := []sessionid.PairBytes{{Key: "k", Value: []byte("v")}}
	// what a store looks like whose sessions were all destroyed
	v.Create(cA[0], cR[0], kv)
	v.DestroyByToken(cA[0])
	clean := left(db)
	v.Create(cA[0], cR[0], kv)
	dt()
	v.Create(cA[1], cR[1], kv)
	switch sym.Choice("op", 4) {
	case 0:
		v.Probe(sym.Choice("probe", 5), cA[0], []string{"k"})
	case 1:
		v.Create(cA[2], cR[2], kv)
	case 2:
		v.Refresh(cA[0], cR[0], cA[3], cR[3])
	case 3:
		v.Create(cA[0], cR[1], kv)
	}
	dt()
	v.All(cA, []string{"k"})
	sym.Quiesce()
	v.All(cA, []string{"k"})
	// everything passes away
	v.Advance(r)
	v.Advance(period)
	sym.Quiesce()
	sym.Assert(left(db) == clean, "B06: something about a session is still stored after its refresh lifetime and a cleanup period")
	v.All(cA, nil)
	v.Create(cA[0], cR[0], kv)
	v.All(cA, []string{"k"})
	sym.Reach("end")
	v.P.Close()
}

// B06Notice: an operation that notices a dead session has it removed, and
// nothing else.
func B06Notice() {
	r := time.Duration(sym.Int("refresh", 1, store.Far))
	batch := sym.Choice("batch", 2) * 2
	db, db2 := file("s.db"), file("ref.db")
	p := on(db, bolt.WithAccess(r), bolt.WithRefresh(r), bolt.WithClear(0), bolt.WithCheckBatch(batch))
	q := on(db2, bolt.WithAccess(r), bolt.WithRefresh(r), bolt.WithClear(0), bolt.WithCheckBatch(batch))
	v := &model.Env{P: p, M: &model.Store{A: r, R: r}, Tag: "B06"}
	toks := cA[:3]
	for i, t := range toks {
		kv := []sessionid.PairBytes{{Key: "k", Value: []byte{byte(i)}}}
		v.Create(t, cR[i], kv)
		q.Create(model.BG, t, cR[i], kv)
		v.Advance(time.Duration(sym.Int("dt", 0, store.Far)))
	}
	n := sym.Bound("operations", 2, 3)
	quiet := sym.Bool("quiet")
	for i := 0; i < n; i++ {
		t := sym.Choice("tok", 3)
		op := 0
		if i == 0 {
			op = sym.Choice("op", 6)
		} else if sym.Bool("direct") {
			op = 3
		}
		if op < 5 {
			v.Probe(op, toks[t], []string{"k"})
		} else {
			_, c := v.M.Status(toks[t])
			sym.Assume(c == model.NotExists)
			v.Refresh(toks[t], cR[t], toks[t]+".n", cR[t]+".n")
		}
		if quiet {
			sym.Quiesce()
		}
		if _, c := v.M.Status(toks[t]); c == model.NotExists {
			q.DestroyByToken(model.BG, toks[t])
		}
	}
	sym.Quiesce()
	sym.Assert(left(db) == left(db2), "B06: what is stored after dead sessions were noticed is not what their destruction leaves")
	v.All(toks, []string{"k"})
	v.Destroy("u")
	v.All(toks, []string{"k"})
	sym.Reach("end")
	v.P.Close()
	q.Close()
}

// B06Race: cleanup interleaved with operations on the same token.
func B06Race() {
	r := time.Duration(sym.Int("refresh", 1, int64(20*sec)))
	d := time.Duration(sym.Int("dt", 0, int64(20*sec)))
	c := time.Duration(sym.Int("period", int64(10*sec), int64(20*sec)))
	db := file("s.db")
	p := on(db, bolt.WithAccess(r), bolt.WithRefresh(r), bolt.WithClear(c), bolt.WithCheckBatch(2-sym.Choice("batch", sym.Bound("batches", 2, 3))))
	v := &model.Env{P: p, M: &model.Store{A: r, R: r}, Tag: "B06"}
	v.Create("u.0.s", "u.r.s", nil)
	v.Create("u.1.s", "u.r.s", nil)
	sym.Quiesce()
	sym.Explore(sym.Bound("preemptions", 1, 2))
	k := sym.Choice("dead", 4)
	l := sym.Choice("live", 3)
	sym.Go(func() {
		sym.Advance(d)
		switch k {
		case 0:
			p.Check(model.BG, "u.0.s")
		case 1:
			p.Put(model.BG, "u.0.s", nil)
		case 2:
			p.Get(model.BG, "u.1.s", nil)
		case 3:
			p.Check(model.BG, "u.0.s")
			p.Check(model.BG, "u.1.s")
		}
	})
	sym.Go(func() {
		sym.Advance(d)
		switch l {
		case 0:
			p.Create(model.BG, "u.0.s", "u.q.s", nil)
		case 1:
			p.Create(model.BG, "u.2.s", "u.r.s", nil)
			p.Refresh(model.BG, "u.2.s", "u.r.s", "u.0.s", "u.q.s")
		case 2:
			p.Create(model.BG, "u.0.s", "u.q.s", nil)
			p.Create(model.BG, "u.1.s", "u.q.s", nil)
		}
	})
	sym.Join()
	sym.NoExplore()
	sym.Quiesce()
	v.M.Now += d
	v.M.Apply(model.Op{Kind: model.KCreate, Tok: "u.0.s", Ref: "u.q.s", Key: "x"})
	if l == 2 {
		v.M.Apply(model.Op{Kind: model.KCreate, Tok: "u.1.s", Ref: "u.q.s", Key: "x"})
	}
	for _, t := range []string{"u.0.s", "u.1.s", "u.2.s"} {
		v.Check(t)
	}
	sym.Reach("end")
	p.Close()
}

// B06Closed: a closed provider leaves a shared database alone.
func B06Closed() {
	db := file("s.db")
	r := 3 * sec
	p := on(db, bolt.WithAccess(r), bolt.WithRefresh(r), bolt.WithClear(3*sec), bolt.WithCheckBatch(sym.Choice("batch", 3)))
	p.Create(model.BG, "u.0.s", "u.r.s", nil)
	p.Create(model.BG, "v.0.s", "v.r.s", nil)
	sym.Quiesce()
	k := sym.Choice("touch", 4)
	sym.Explore(sym.Bound("preemptions", 1, 2))
	sym.Go(func() {
		sym.Advance(3 * sec)
		switch k {
		case 1:
			p.Check(model.BG, "u.0.s")
		case 2:
			p.Keys(model.BG, "u.0.s")
		case 3:
			p.Get(model.BG, "u.0.s", []string{"k"})
		}
	})
	sym.Advance(3 * sec)
	p.Close()
	d := left(db)
	sym.Join()
	sym.NoExplore()
	sym.Quiesce()
	sym.Advance(20 * sec)
	sym.Quiesce()
	sym.Assert(left(db) == d, "B06: a closed provider changed a shared database")
	sym.Reach("end")
}

// ---- B07

func mut(i int) model.Op {
	o := model.Op{Tok: "u.0.s", Ref: "u.r.s", NTok: "u.9.s", NRef: "u.q9.s", Key: "k", Val: "new"}
	switch i {
	case 0:
		o.Kind = model.KCreate
		o.Tok = "u.5.s"
	case 1:
		o.Kind = model.KCreate // replaces
	case 2:
		o.Kind = model.KRefresh
	case 3:
		o.Kind = model.KDestroy
	case 4:
		o.Kind = model.KDestroyByToken
	case 5:
		o.Kind = model.KPut
	case 6:
		o.Kind = model.KDelete
	case 7:
		o.Kind = model.KRefresh // onto a live one
		o.NTok = "u.1.s"
	}
	return o
}

const muts = 8

var stopToks = []string{"u.0.s", "u.1.s", "v.0.s", "u.5.s", "u.9.s", "x.0.s", "x.1.s"}

// B07Reopen: everything is the same after reopening.
func B07Reopen() {
	max := sym.Choice("max", 2) * 3
	k := kit("B07")
	v := k.Env(max)
	v.Create("u.0.s", "u.r.s", []sessionid.PairBytes{{Key: "k", Value: sym.Bytes("v", 2)}})
	k.Step(v)
	v.Create("u.1.s", "u.r.s", nil)
	v.Create("v.0.s", "v.r.s", []sessionid.PairBytes{{Key: "k2", Value: nil}})
	again := func() {
		sym.Assert(v.P.Close() == nil, "B07: closing fails")
		v.P = open(v.M.A, v.M.R, max)
	}
	n := sym.Bound("operations", 2, 3)
	for i := 0; i < n; i++ {
		if i == 0 || sym.Bool("reopen") {
			again()
		}
		do(v, mut(sym.Choice("op", muts)))
	}
	again()
	v.All(stopToks, []string{"k", "k2"})
	k.Step(v)
	v.All(stopToks, []string{"k", "k2"})
	v.Create("x.0.s", "x.r.s", nil)
	v.All(stopToks, []string{"k", "k2"})
	v.Create("x.1.s", "x.r.s", nil)
	v.Destroy("u")
	v.All(stopToks, []string{"k", "k2"})
	sym.Reach("end")
	v.P.Close()
}

// do performs an operation through the reference's checks.
func do(v *model.Env, o model.Op) {
	kv := []sessionid.PairBytes{{Key: o.Key, Value: []byte(o.Val)}}
	switch o.Kind {
	case model.KCreate:
		v.Create(o.Tok, o.Ref, kv)
	case model.KRefresh:
		v.Refresh(o.Tok, o.Ref, o.NTok, o.NRef)
	case model.KDestroy:
		id, _ := model.ID(o.Tok)
		v.Destroy(id)
	case model.KDestroyByToken:
		v.DestroyByToken(o.Tok)
	case model.KPut:
		v.Put(o.Tok, kv)
	case model.KDelete:
		v.Delete(o.Tok, []string{o.Key})
	}
}

// B07Stop: a commit fails, or the process stops, at any write transaction of
// an operation.
func B07Stop() {
	max := sym.Choice("max", 2) * 3
	k := kit("B07")
	v := k.Fix(max)
	a := model.Op{Kind: model.KCreate, Tok: "u.0.s", Ref: "u.r.s", Key: "k", Val: "0"}
	b := model.Op{Kind: model.KCreate, Tok: "u.1.s", Ref: "u.r.s", Key: "z", Val: "1"}
	c := model.Op{Kind: model.KCreate, Tok: "v.0.s", Ref: "v.r.s", Key: "k", Val: "2"}
	for _, o := range []model.Op{a, b, c} {
		model.Do(v.P, o)
		v.M.Apply(o)
	}
	dead := sym.Bool("dead")
	if dead {
		v.Advance(3 * time.Hour)
		v.M.Live()
	}
	before := v.M.Copy()
	after := v.M.Copy()
	op := sym.Choice("op", muts+1)
	o := model.Op{}
	wanted := ""
	if op < muts {
		o = mut(op)
		wanted = after.Apply(o)
	} else {
		after.S = nil
		wanted = "ok"
	}
	kind, at := sym.Choice("kind", 4), sym.Choice("at", 2)
	n := 0
	boltm.Fault = func() int {
		n++
		if n == at+1 {
			return kind
		}
		return 0
	}
	stopped := false
	got := ""
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(boltm.Stopped); !ok {
					panic(x)
				}
				stopped = true
			}
		}()
		if op < muts {
			got = model.Do(v.P, o)
		} else {
			got = model.Name(model.Class(v.P.(*bolt.Provider).Clear()))
		}
	}()
	boltm.Fault = nil
	failed := n > at && kind == 1
	if failed {
		sym.Assert(got != "ok", "B07: an operation whose commit failed reports success")
	} else if !stopped {
		sym.Assert(got == wanted, "B07: an operation reports "+got+" where the history requires "+wanted)
	}
	if !stopped {
		// the provider goes on
		s := model.State(v.P, stopToks, "k")
		if failed {
			sym.Assert(s == before.State(stopToks, "k") || s == after.State(stopToks, "k"), "B07: a failed commit leaves a mixture")
		} else {
			sym.Assert(s == after.State(stopToks, "k"), "B07: an operation that reports success has not taken effect")
		}
	}
	// what is on the disk now
	boltm.Snapshot("s.db", "s2.db")
	p, e := bolt.New(bolt.WithFilename("s2.db"), bolt.WithAccess(time.Hour), bolt.WithRefresh(2*time.Hour), bolt.WithMaxSize(max), bolt.WithClear(0))
	sym.Assert(e == nil, "B07: the database cannot be opened again")
	if e != nil {
		return
	}
	s := model.State(p, stopToks, "k")
	isB, isA := s == before.State(stopToks, "k"), s == after.State(stopToks, "k")
	if stopped {
		sym.Assert(isB || isA, "B07: stopping in an operation leaves a mixture")
	} else if failed {
		sym.Assert(isB || isA, "B07: a failed commit leaves a mixture on the disk")
	} else {
		sym.Assert(isA, "B07: an operation that reports success is not durable")
	}
	if !isA && !isB {
		return
	}
	w := &model.Env{P: p, M: after, Tag: "B07"}
	if isB {
		w.M = before
	}
	// and the bookkeeping fits
	switch sym.Choice("then", 4) {
	case 0:
		w.Create("x.0.s", "x.r.s", nil)
		w.Create("x.1.s", "x.r.s", nil)
	case 1:
		w.Destroy("u")
		w.Create("x.0.s", "x.r.s", nil)
	case 2:
		w.DestroyByToken("u.0.s")
		w.DestroyByToken("u.9.s")
		w.Create("x.0.s", "x.r.s", nil)
	case 3:
		w.Refresh("u.1.s", "u.r.s", "u.9.s", "u.q.s")
		w.Create("x.0.s", "x.r.s", nil)
		w.Destroy("u")
	}
	w.All(stopToks, []string{"k", "z"})
	sym.Reach("end")
	p.Close()
}

// B07Gone: the database was closed by its owner.
func B07Gone() {
	db := file("s.db")
	p := on(db, bolt.WithAccess(sec), bolt.WithRefresh(2*sec), bolt.WithClear(time.Duration(sym.Choice("period", 2))*sec), bolt.WithCheckBatch(sym.Choice("batch", 3)))
	p.Create(model.BG, "u.0.s", "u.r.s", nil)
	if sym.Bool("dead") {
		sym.Advance(3 * sec)
		if sym.Bool("touch") {
			p.Check(model.BG, "u.0.s")
		}
	}
	sym.Assert(db.Close() == nil, "B07: closing the database fails")
	k := sym.Choice("op", store.ClosedOps)
	var e error
	if k == store.ClosedOps-1 {
		e = p.(*bolt.Provider).Clear()
	} else {
		e = store.ClosedOp(p, k, "u.0.s")
	}
	sym.Assert(e != nil, "B07: an operation on a closed database reports success")
	sym.Advance(5 * sec)
	sym.Quiesce()
	sym.Assert(p.Close() == nil, "B07: closing fails")
	// the sessions are where they were
	p = open(time.Hour, time.Hour, 0)
	e = p.Create(model.BG, "u.1.s", "u.r.s", nil)
	sym.Assert(e == nil, "B07: the database cannot be used again")
	sym.Reach("end")
	p.Close()
}

// B07New: opening fails cleanly.
func B07New() {
	own := sym.Bool("own")
	opt := []bolt.Option{bolt.WithFilename("s.db")}
	var db *lib.DB
	if !own {
		db = file("s.db")
		opt = append(opt, bolt.WithDB(db))
	}
	shut := !own && sym.Bool("shut")
	if shut {
		db.Close()
	} else {
		boltm.Fault = func() int { return 1 }
	}
	p, e := bolt.New(opt...)
	boltm.Fault = nil
	sym.Assert(e != nil && p == nil, "B07: opening succeeds although the database fails")
	sym.Quiesce()
	sym.Assert(sym.Goroutines() == 0, "B07: a failed opening leaves a goroutine")
	if !own && !shut {
		p, e = bolt.New(opt...) // the shared database is still open
		sym.Assert(e == nil, "B07: a failed opening closes a shared database")
		if e == nil {
			p.Close()
		}
		db.Close()
	}
	p2, e := bolt.New(bolt.WithFilename("s.db"), bolt.WithTimeout(sec))
	sym.Assert(e == nil, "B07: a failed opening keeps the database locked")
	if e == nil {
		sym.Assert(p2.Create(model.BG, "u.0.s", "u.r.s", nil) == nil, "B07: the database cannot be used after a failed opening")
		p2.Close()
	}
	sym.Reach("end")
}

// ---- B08

// B08 concurrent operations are atomic.
func B08() {
	k := kit("B08")
	k.Hours = 3
	k.Lin(k.Base(0), 2, sym.Bound("preemptions", 2, 3), store.Kinds)
}

// B08Two: one thread does two operations.
func B08Two() {
	k := kit("B08")
	v := k.Base(0)
	a, b, c := store.Op("op", 0, store.Kinds), store.Op("op", 1, store.Kinds), store.Op("op", 2, store.Kinds)
	if a.Kind == model.KRefresh && sym.Bool("follow") {
		c.Tok, c.Ref = a.NTok, a.NRef
	}
	k.RunLin(v, [][]model.Op{{a, c}, {b}}, sym.Bound("preemptions", 1, 2), []string{"u.0.s", "u.a.s", "u.b.s", "u.c.s"})
}

// B08Race: capacity and three threads.
func B08Race() {
	k := kit("B08")
	k.Hours = 3
	if sym.Bool("three") {
		k.Lin(k.Base(0), 3, sym.Bound("preemptions", 1, 2), []int{model.KRefresh, model.KDestroy, model.KPut, model.KGet, model.KCreate})
		return
	}
	ops := [][]model.Op{
		{{Kind: model.KCreate, Tok: "u.1.s", Ref: "u.r.s", Key: "k", Val: "1"}},
		{store.Op("op", 1, []int{model.KCreate, model.KRefresh, model.KDestroy, model.KPut})},
	}
	k.RunLin(k.Base(1), ops, 2, []string{"u.0.s", "u.1.s", "u.b.s"})
}

// ops is closed operations with Clear.
func closedOp(p sessionid.Provider, k int, t string) error {
	if k == store.ClosedOps {
		return p.(*bolt.Provider).Clear()
	}
	return store.ClosedOp(p, k, t)
}

// B08Close closing is final.
func B08Close() {
	o := []bolt.Option{bolt.WithFilename("s.db"), bolt.WithAccess(sec), bolt.WithRefresh(2 * sec),
		bolt.WithClear(time.Duration(sym.Choice("period", 2)) * sec), bolt.WithCheckBatch(sym.Choice("batch", 3))}
	if sym.Bool("shared") {
		o = append(o, bolt.WithDB(file("s.db")))
	}
	p, e := bolt.New(o...)
	sym.Assert(e == nil, "B08: opening fails")
	p.Create(model.BG, "u.0.s", "u.r.s", nil)
	if sym.Bool("dead") {
		sym.Advance(3 * sec)
		if sym.Bool("touch") {
			p.Check(model.BG, "u.0.s")
		}
	}
	sym.Assert(p.Close() == nil, "B08: closing fails")
	n := sym.Bound("operations", 2, 3)
	for i := 0; i < n; i++ {
		e := closedOp(p, sym.Choice("op", store.ClosedOps+1), []string{"u.0.s", "v.0.s"}[sym.Choice("tok", 2)])
		sym.Assert(e == sessionid.ErrProviderClosed, "B08: an operation after closing does not report the closed error")
		if i == 0 && sym.Bool("later") {
			sym.Advance(5 * sec)
		}
	}
	sym.Quiesce()
	sym.Assert(sym.Goroutines() == 0, "B08: a background goroutine is left after closing")
	sym.Reach("end")
}

// B08CloseRace: closing while operations are under way.
func B08CloseRace() {
	p, e := bolt.New(bolt.WithFilename("s.db"), bolt.WithAccess(sec), bolt.WithRefresh(sec), bolt.WithClear(0), bolt.WithCheckBatch(sym.Choice("batch", 2)))
	sym.Assert(e == nil, "B08: opening fails")
	p.Create(model.BG, "u.0.s", "u.r.s", nil)
	p.Create(model.BG, "u.1.s", "u.r.s", nil)
	if sym.Choice("dead", 2) == 1 {
		sym.Advance(sec)
	}
	sym.Quiesce()
	sym.Explore(sym.Bound("preemptions", 1, 2))
	k, l := sym.Choice("op", store.ClosedOps+1), sym.Choice("op", store.ClosedOps)
	if l > 6 {
		l = 9
	}
	var e1, e2 error
	sym.Go(func() { e1 = closedOp(p, k, "u.0.s") })
	sym.Go(func() { e2 = closedOp(p, l, "u.1.s") })
	ec := p.Close()
	sym.Join()
	sym.NoExplore()
	c := 0
	if ec == nil {
		c++
	}
	if k == 9 && e1 == nil {
		c++
	}
	if l == 9 && e2 == nil {
		c++
	}
	sym.Assert(c == 1, "B08: not exactly one close succeeds")
	if k != 9 {
		sym.Assert(store.CloseOK(e1), "B08: an operation concurrent with closing reports an error it should not")
	}
	sym.Quiesce()
	sym.Assert(closedOp(p, k, "u.0.s") == sessionid.ErrProviderClosed, "B08: an operation after closing does not report the closed error")
	sym.Assert(sym.Goroutines() == 0, "B08: a background goroutine is left after closing")
	// the file is free again
	p2, e := bolt.New(bolt.WithFilename("s.db"), bolt.WithTimeout(sec))
	sym.Assert(e == nil, "B08: the database file is still locked after closing")
	if e == nil {
		p2.Close()
	}
	sym.Reach("end")
}

// O01Bolt: the lifetimes a store works with follow from its options.
func O01Bolt() {
	ds, a, r := model.Durations(sym.Bound("options", 3, 4))
	opts := []bolt.Option{bolt.WithFilename("s.db"), bolt.WithClear(0)}
	extra := sym.Choice("extra", 4)
	for _, d := range ds {
		if d.Access {
			opts = append(opts, bolt.WithAccess(d.D))
		} else {
			opts = append(opts, bolt.WithRefresh(d.D))
		}
		switch extra {
		case 1:
			opts = append(opts, bolt.WithMaxSize(2))
		case 2:
			opts = append(opts, bolt.WithCheckBatch(2))
		}
	}
	if extra == 3 { // a store without options, after one with
		p, e := bolt.New(opts...)
		sym.Assert(e == nil, "O01: opening fails")
		p.Close()
		_, a, r = model.Durations(0)
		opts = opts[:2]
	}
	p, e := bolt.New(opts...)
	sym.Assert(e == nil, "O01: opening fails")
	v := &model.Env{P: p, M: &model.Store{A: a, R: r}, Tag: "O01"}
	v.Lifetimes("u.0.s", "u.r.s")
	sym.Reach("end")
	p.Close()
}

// P01Bolt: two stores in one database, next to somebody else's bucket.
func P01Bolt() {
	n := sym.Bound("length", 1, 2)
	name := func(tag string) []byte { return sym.Bytes(tag, 1+sym.Choice(tag+".len", n)) }
	ba, bb, bx := name("bucketa"), name("bucketb"), name("foreign")
	sym.Assume(string(ba) != string(bb) && string(ba) != string(bx) && string(bb) != string(bx))
	db := file("s.db")
	e := db.Update(func(t *lib.Tx) error {
		b, e := t.CreateBucket(bx)
		if e == nil {
			e = b.Put([]byte("u.0.s"), []byte("v"))
		}
		return e
	})
	if e != nil {
		panic(e)
	}
	open := func(n time.Duration, max int, bucket []byte) *model.Env {
		p := on(db, bolt.WithBucket(bucket), bolt.WithAccess(n*time.Hour), bolt.WithRefresh(2*n*time.Hour), bolt.WithMaxSize(max), bolt.WithClear(0))
		return &model.Env{P: p, M: &model.Store{A: n * time.Hour, R: 2 * n * time.Hour, Max: max}, Tag: "P01"}
	}
	a := open(1, 2, ba)
	store.Apart(a, open(2, 2, bb), 2, 3, func() {
		e := db.View(func(t *lib.Tx) error {
			b := t.Bucket(bx)
			n := 0
			if b != nil {
				b.ForEach(func(k, v []byte) error {
					n++
					return nil
				})
			}
			sym.Assert(b != nil && n == 1 && string(b.Get([]byte("u.0.s"))) == "v", "P01: a bucket that is not the store's changes")
			n = 0
			t.ForEach(func(name []byte, b *lib.Bucket) error {
				n++
				sym.Assert(string(name) == string(ba) || string(name) == string(bb) || string(name) == string(bx), "P01: something is stored outside the configured buckets")
				return nil
			})
			return nil
		})
		sym.Assert(e == nil, "P01: closing a store closes a database it was given")
	})
}

// E01Bolt the life of sessions made by a manager.
func E01Bolt() { kit("E01").Life(1, 2) }

// C01Bolt contexts end.
func C01Bolt() { kit("C01").Ended() }

// B06Fail: the database refuses a commit of the cleanup; a later one does what
// that one could not, and nobody notices in between.
func B06Fail() {
	r := time.Hour
	a := time.Duration(sym.Int("access", 1, int64(time.Hour)))
	db := file("s.db")
	var period time.Duration
	periodic := sym.Bool("periodic")
	if periodic {
		period = time.Duration(sym.Int("period", int64(30*time.Minute), int64(time.Hour)))
	}
	p := on(db, bolt.WithAccess(a), bolt.WithRefresh(r), bolt.WithClear(period), bolt.WithCheckBatch(sym.Choice("batch", 2)*2))
	v := &model.Env{P: p, M: &model.Store{A: a, R: r}, Tag: "B06"}
	kv := []sessionid.PairBytes{{Key: "k", Value: []byte("v")}}
	v.Create(cA[3], cR[3], kv)
	v.DestroyByToken(cA[3])
	clean := left(db)
	v.Create(cA[0], cR[0], kv)
	v.Create(cA[1], cR[1], kv)
	d := time.Duration(sym.Int("dt", 0, int64(time.Hour)))
	v.Advance(d)
	v.Create(cA[2], cR[2], kv)
	v.All(cA, []string{"k"})
	v.Advance(time.Hour - d) // two are dead
	if periodic {
		sym.Quiesce()
	}
	bad, at, n := sym.Choice("bad", 2)+1, sym.Choice("at", 2), 0
	boltm.Fault = func() int {
		n++
		if n > at && n <= at+bad {
			return 1
		}
		return 0
	}
	for i := 0; i < 2; i++ {
		if periodic {
			v.Advance(period)
		}
		v.Check(cA[0])
		v.Get(cA[1], []string{"k"})
		v.Check(cA[2])
		sym.Quiesce()
	}
	boltm.Fault = nil
	v.All(cA, []string{"k"})
	v.Create(cA[0], cR[1], kv)
	v.All(cA, []string{"k"})
	v.Advance(r)
	if periodic {
		v.Advance(period)
	}
	v.All(cA, nil) // notices the dead
	sym.Quiesce()
	sym.Assert(left(db) == clean, "B06: something about a session is still stored after a cleanup that could not be committed was repeated")
	v.Create(cA[0], cR[0], kv)
	v.All(cA, []string{"k"})
	sym.Reach("end")
	v.P.Close()
}
