// Package store holds the histories every kind of session store is checked
// with; each store's own package says how to make one.
package store

import (
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"verif/harness/model"
	"verif/harness/sym"
)

// Lifetimes and time steps are arbitrary below Far (about 18 minutes).
const (
	Far  = int64(1) << 40
	FarD = time.Duration(Far)
	Sec  = time.Second
)

// Kit makes stores of one kind.
type Kit struct {
	Tag string
	// Unit is the granularity of the store's deadlines.
	Unit time.Duration
	// Hours is how long after its creation the session is used concurrently, at
	// most, in a quick exploration: 1 alive, 2 expired, 3 dead.
	Hours int
	// Make opens an empty store.
	Make func(a, r time.Duration, max int) sessionid.Provider
}

// Env opens a store with arbitrary lifetimes access<=refresh.
func (k Kit) Env(max int) *model.Env {
	a := k.Dur("access", 1, Far)
	r := k.Dur("refresh", 1, Far)
	sym.Assume(a <= r)
	return &model.Env{P: k.Make(a, r, max), M: &model.Store{A: a, R: r, Max: max}, Tag: k.Tag}
}

// Dur is an arbitrary duration in the store's units.
func (k Kit) Dur(name string, lo, hi int64) time.Duration {
	u := int64(k.Unit)
	if u <= 1 {
		return time.Duration(sym.Int(name, lo, hi))
	}
	l := lo / u
	if lo > 0 && l == 0 {
		l = 1
	}
	return time.Duration(sym.Int(name, l, hi/u)) * k.Unit
}

// Fix opens a store with long lifetimes.
func (k Kit) Fix(max int) *model.Env {
	return &model.Env{P: k.Make(time.Hour, 2*time.Hour, max), M: &model.Store{A: time.Hour, R: 2 * time.Hour, Max: max}, Tag: k.Tag}
}

// Step lets an arbitrary time pass.
func (k Kit) Step(v *model.Env) { v.Advance(k.Dur("dt", 0, Far)) }

var (
	tokA = []string{"u.0.s", "u.1.s", "uv.0.s"}
	tokR = []string{"u.r.s", "u.q.s", "uv.r.s"}
)

// Key is an arbitrary key of one byte.
func Key(name string) string { return string(sym.Bytes(name, 1)) }

// Status: a token's status follows its deadlines and history.
func (k Kit) Status(quick, thorough int) {
	v := k.Env(0)
	n := sym.Bound("operations", quick, thorough)
	v.Create(tokA[0], tokR[0], nil)
	for i := 0; i < n; i++ {
		k.Step(v)
		switch sym.Choice("op", 5) {
		case 0:
			t := sym.Choice("tok", 3)
			v.Create(tokA[t], tokR[t], nil)
		case 1:
			v.Refresh(tokA[0], tokR[0], tokA[sym.Choice("to", 2)], tokR[sym.Choice("ro", 2)])
		case 2:
			v.DestroyByToken(tokA[sym.Choice("tok", 3)])
		case 3:
			v.Destroy("u")
		case 4:
			v.Probe(sym.Choice("probe", model.Probes), tokA[0], []string{"k"})
		}
	}
	k.Step(v)
	p := sym.Choice("probe", model.Probes)
	for _, t := range tokA {
		v.Probe(p, t, []string{"k", "p"})
	}
	v.All(tokA, []string{"k", "p"})
	v.Check("never.created.x")
	v.Probe(p, "notoken.x", nil)
	sym.Reach("end")
	v.P.Close()
}

// Replace: creating under an existing access token replaces it completely.
func (k Kit) Replace() {
	v := k.Env(0)
	k1, k2 := Key("k1"), Key("k2")
	v.Create("u.0.s", "u.r.s", []sessionid.PairBytes{{Key: k1, Value: sym.Bytes("v1", 1)}})
	k.Step(v)
	v.Create("u.0.s", "u.q.s", []sessionid.PairBytes{{Key: k2, Value: sym.Bytes("v2", 1)}})
	k.Step(v)
	v.All([]string{"u.0.s"}, []string{k1, k2})
	v.Refresh("u.0.s", "u.r.s", "u.1.s", "u.x.s")
	v.Refresh("u.0.s", "u.q.s", "u.1.s", "u.x.s")
	v.All([]string{"u.0.s", "u.1.s"}, []string{k1, k2})
	v.Destroy("u")
	v.All([]string{"u.0.s", "u.1.s"}, []string{k1, k2})
	sym.Reach("end")
	v.P.Close()
}

// Val is an arbitrary value: nil, empty or two bytes.
func Val(name string) []byte {
	switch sym.Choice(name+".kind", 3) {
	case 0:
		return nil
	case 1:
		return []byte{}
	}
	return sym.Bytes(name, 2)
}

// Scramble changes a buffer up to its capacity.
func Scramble(b []byte) {
	for i := range b {
		b[i] ^= 0x5a
	}
	if cap(b) > len(b) {
		c := b[:cap(b)]
		for i := len(b); i < len(c); i++ {
			c[i] ^= 0x33
		}
	}
}

// Data reads back exactly and is never shared.
func (k Kit) Data(quick, thorough int, after func(v *model.Env)) {
	v := k.Fix(0)
	ks := []string{Key("ka"), Key("kb")}
	toks := []string{"u.0.s", "u.1.s"}
	v0 := Val("v0")
	v.Create(toks[0], "u.r.s", []sessionid.PairBytes{{Key: ks[0], Value: v0}})
	Scramble(v0)
	v.Create(toks[1], "u.r.s", nil)
	n := sym.Bound("operations", quick, thorough)
	var old []sessionid.Value
	var want []string
	for i := 0; i < n; i++ {
		t := toks[sym.Choice("tok", 2)]
		switch sym.Choice("op", 4) {
		case 0:
			b, c := Val("v"), []byte{7}
			j := sym.Choice("k", 2)
			v.Put(t, []sessionid.PairBytes{{Key: ks[j], Value: b}, {Key: ks[1-j], Value: c}})
			Scramble(b)
			Scramble(c)
		case 1:
			b := Val("v")
			v.Put(t, []sessionid.PairBytes{{Key: ks[sym.Choice("k", 2)], Value: b}})
			Scramble(b)
		case 2:
			v.Delete(t, ks[sym.Choice("from", 2):])
		case 3:
			got := v.Get(t, ks)
			more := v.Get(t, []string{ks[1], ks[0], ks[1]})
			for _, x := range got {
				Scramble(x.Bytes)
			}
			for _, x := range more {
				old = append(old, x)
				want = append(want, string(x.Bytes))
			}
		}
	}
	v.All(toks, ks)
	if after != nil {
		after(v)
	}
	for i := range old {
		sym.Assert(string(old[i].Bytes) == want[i], k.Tag+": a value read earlier changed later")
	}
	sym.Reach("end")
	v.P.Close()
}

// Rotate: refreshing with arbitrary choices of tokens.
func (k Kit) Rotate(quick, thorough int) {
	v := k.Env(0)
	acc := []string{"u.0.s", "u.1.s", "v.0.s", "u.2.s"}
	ref := []string{"u.r0.s", "u.r1.s", "v.r0.s", "u.r2.s"}
	for i := 0; i < 3; i++ {
		v.Create(acc[i], ref[i], []sessionid.PairBytes{{Key: "k", Value: []byte{byte(i)}}, {Key: string(rune('a' + i)), Value: []byte("own")}})
	}
	keys := []string{"k", "a", "b", "c"}
	k.Step(v)
	v.Refresh(acc[sym.Choice("a", 4)], ref[sym.Choice("r", 4)], acc[sym.Choice("na", 4)], ref[sym.Choice("nr", 4)])
	if sym.Bound("refreshes", quick, thorough) > 1 {
		k.Step(v)
		v.Refresh(acc[sym.Choice("a", 2)], ref[sym.Choice("r", 4)], acc[sym.Choice("na", 4)], "u.r9.s")
	}
	v.All(acc, keys)
	switch sym.Choice("after", 3) {
	case 0:
		v.Destroy("u")
	case 1:
		v.DestroyByToken(acc[sym.Choice("d", 4)])
	case 2:
		v.Advance(FarD)
		for _, t := range acc {
			v.Put(t, nil)
		}
	}
	v.All(acc, keys)
	sym.Reach("end")
	v.P.Close()
}

// Again: the tokens a refresh used up stay used up.
func (k Kit) Again() {
	v := k.Env(0)
	acc := []string{"u.0.s", "u.1.s", "u.2.s"}
	ref := []string{"u.r0.s", "u.r1.s", "u.r2.s"}
	key, b := Key("k"), sym.Bytes("v", 1)
	v.Create(acc[0], ref[0], []sessionid.PairBytes{{Key: key, Value: b}})
	k.Step(v)
	if !v.Refresh(acc[0], ref[0], acc[1], ref[1]) {
		return
	}
	v.All(acc, []string{key})
	k.Step(v)
	v.Refresh(acc[sym.Choice("a", 2)], ref[sym.Choice("r", 2)], acc[2], ref[2])
	v.All(acc, []string{key})
	k.Step(v)
	v.All(acc, []string{key})
	sym.Reach("end")
	v.P.Close()
}

// Destroy: destruction is complete, precise and permanent.
func (k Kit) Destroy(quick, thorough int, ids []string, clear func()) {
	v := k.Env(0)
	acc := []string{"u.0.s", "u.1.s", "uv.0.s", "u.2.s"}
	ref := []string{"u.r.s", "u.r.s", "uv.r.s", "u.r.s"}
	for i := 0; i < 3; i++ {
		if sym.Bool("held") {
			v.Create(acc[i], ref[i], nil)
		}
	}
	n := sym.Bound("operations", quick, thorough)
	kinds := 4
	if c, ok := v.P.(interface{ Clear() error }); ok {
		kinds = 5
		clear = func() {
			e := c.Clear()
			sym.Assert(e == nil, k.Tag+": Clear fails")
			v.M.S = nil
		}
	}
	for i := 0; i < n; i++ {
		if i == 0 {
			k.Step(v)
		}
		switch sym.Choice("op", kinds) {
		case 0:
			v.Destroy(ids[sym.Choice("id", len(ids))])
		case 1:
			v.DestroyByToken(acc[sym.Choice("tok", 4)])
		case 2:
			v.Refresh(acc[0], ref[0], acc[3], ref[3])
		case 3:
			j := sym.Choice("new", 2) * 3
			v.Create(acc[j], ref[j], nil)
		case 4:
			clear()
		}
	}
	v.All(acc, nil)
	v.Destroy(ids[sym.Choice("last", len(ids))])
	v.All(acc, nil)
	sym.Reach("end")
	v.P.Close()
}

// Capacity is a hard limit and the oldest session goes first.
func (k Kit) Capacity(quick, thorough int, reopen func(v *model.Env)) {
	max := sym.Choice("max", 5) - 1
	v := k.Env(max)
	acc := []string{"u.0.s", "u.1.s", "v.0.s", "w.0.s"}
	n := sym.Bound("operations", quick, thorough)
	for i := 0; i < n; i++ {
		switch sym.Choice("op", 4) {
		case 0, 1:
			j := sym.Choice("tok", 4)
			if max < 0 {
				sym.Assume(j == i%4)
			}
			v.Create(acc[j], acc[j]+"r", nil)
		case 2:
			j := sym.Choice("from", 2)
			to := sym.Choice("to", 2)
			v.Refresh(acc[j], acc[j]+"r", acc[to], acc[to]+"r")
		case 3:
			v.DestroyByToken(acc[0])
		}
	}
	k.held(v, acc)
	v.All(acc, nil)
	if reopen != nil {
		reopen(v)
		v.Create("x.0.s", "x.r.s", nil)
		acc = append(acc, "x.0.s")
		k.held(v, acc)
		v.All(acc, nil)
	}
	sym.Reach("end")
	v.P.Close()
}

func (k Kit) held(v *model.Env, acc []string) {
	if v.M.Max <= 0 {
		return
	}
	held := 0
	for _, t := range acc {
		if v.P.Check(model.BG, t) == nil {
			held++
		}
	}
	sym.Assert(held <= v.M.Max, k.Tag+": more sessions held than the capacity")
}

// ClosedOps is the number of operations ClosedOp knows; the last is Close.
const ClosedOps = 10

// ClosedOp performs the k-th operation.
func ClosedOp(p sessionid.Provider, k int, t string) error {
	switch k {
	case 0:
		return p.Create(model.BG, t, "u.r.s", nil)
	case 1:
		return p.Destroy(model.BG, "u")
	case 2:
		return p.DestroyByToken(model.BG, t)
	case 3:
		return p.Check(model.BG, t)
	case 4:
		return p.Put(model.BG, t, []sessionid.PairBytes{{Key: "k"}})
	case 5:
		_, e := p.Get(model.BG, t, []string{"k"})
		return e
	case 6:
		_, e := p.Keys(model.BG, t)
		return e
	case 7:
		return p.Delete(model.BG, t, []string{"k"})
	case 8:
		id, _ := model.ID(t)
		return p.Refresh(model.BG, t, id+".r.s", id+".9.s", id+".q.s")
	}
	return p.Close()
}

// CloseOK tells whether an operation concurrent with closing may report e.
func CloseOK(e error) bool {
	switch model.Class(e) {
	case model.OK, model.Closed, model.NotExists:
		return true
	}
	return false
}

// Kinds lists all operations.
var Kinds = []int{model.KCreate, model.KRefresh, model.KDestroy, model.KDestroyByToken, model.KCheck, model.KPut, model.KGet, model.KKeys, model.KDelete}

// Op makes the i-th concurrent operation.
func Op(name string, i int, kinds []int) model.Op {
	n := string(rune('a' + i))
	return model.Op{Kind: kinds[sym.Choice(name, len(kinds))], Tok: "u.0.s", Ref: "u.r.s", NTok: "u." + n + ".s", NRef: "u.q" + n + ".s", Key: "k", Val: string(sym.Bytes("val", 1))}
}

// Base creates the session the concurrent operations work on.
func (k Kit) Base(size int) *model.Env {
	v := k.Fix(size)
	base := model.Op{Kind: model.KCreate, Tok: "u.0.s", Ref: "u.r.s", Key: "k", Val: string(sym.Bytes("base", 1))}
	model.Do(v.P, base)
	v.M.Apply(base)
	// alive, and in a deeper exploration also expired or dead
	v.Advance(k.Dur("age", 1, int64(sym.Bound("hours", max(k.Hours, 1), 3))*int64(time.Hour)-1))
	return v
}

// Lin checks that threads operations are atomic.
func (k Kit) Lin(v *model.Env, threads, preempt int, kinds []int) {
	var ops [][]model.Op
	for i := 0; i < threads; i++ {
		ops = append(ops, []model.Op{Op("op", i, kinds)})
		if i > 0 {
			sym.Assume(ops[i][0].Kind >= ops[i-1][0].Kind)
		}
	}
	k.RunLin(v, ops, preempt, []string{"u.0.s", "u.a.s", "u.b.s", "u.c.s"})
}

// RunLin runs the threads and compares with every sequential order.
func (k Kit) RunLin(v *model.Env, ops [][]model.Op, preempt int, toks []string) {
	res := make([][]string, len(ops))
	sym.Quiesce()
	sym.Explore(preempt)
	for i := range ops {
		sym.Go(func() {
			var out []string
			for _, o := range ops[i] {
				out = append(out, model.Do(v.P, o))
			}
			res[i] = out
		})
	}
	sym.Join()
	sym.NoExplore()
	sym.Quiesce()
	final := model.State(v.P, toks, "k")
	sym.Assert(model.Linear(v.M, ops, res, final, toks, "k"), v.Tag+": no one-after-the-other order of the operations gives these results")
	sym.Reach("end")
	v.P.Close()
}

// Refuses: what is no token is refused and changes nothing.
func (k Kit) Refuses() {
	v := k.Fix(0)
	v.Create("u.0.s", "u.r.s", []sessionid.PairBytes{{Key: "k", Value: []byte("v")}})
	t := sym.Str("t", 3)
	n := 0
	for i := 0; i < len(t); i++ {
		if t[i] == '.' {
			n++
		}
	}
	sym.Assume(n < 2)
	p, kv := v.P, []sessionid.PairBytes{{Key: "k", Value: []byte("w")}}
	var e error
	switch sym.Choice("op", 12) {
	case 0:
		e = p.Create(model.BG, t, "u.q.s", kv)
	case 1:
		e = p.Create(model.BG, "u.1.s", t, kv)
	case 2:
		e = p.Check(model.BG, t)
	case 3:
		e = p.Put(model.BG, t, kv)
	case 4:
		var vs []sessionid.Value
		vs, e = p.Get(model.BG, t, []string{"k"})
		sym.Assert(len(vs) == 0, "S02 a refused read gives nothing")
	case 5:
		var ks []string
		ks, e = p.Keys(model.BG, t)
		sym.Assert(len(ks) == 0, "S02 a refused listing gives nothing")
	case 6:
		e = p.Delete(model.BG, t, []string{"k"})
	case 7:
		e = p.DestroyByToken(model.BG, t)
	case 8:
		e = p.Refresh(model.BG, t, "u.r.s", "u.1.s", "u.q.s")
	case 9:
		e = p.Refresh(model.BG, "u.0.s", t, "u.1.s", "u.q.s")
	case 10:
		e = p.Refresh(model.BG, "u.0.s", "u.r.s", t, "u.q.s")
	case 11:
		e = p.Refresh(model.BG, "u.0.s", "u.r.s", "u.1.s", t)
	}
	sym.Assert(model.Class(e) == model.Invalid, "S02 an operation refuses what is no token")
	v.All([]string{"u.0.s", "u.1.s"}, []string{"k"})
	v.Refresh("u.0.s", "u.r.s", "u.1.s", "u.q.s")
	v.All([]string{"u.0.s", "u.1.s"}, []string{"k"})
	v.Destroy("u")
	v.All([]string{"u.0.s", "u.1.s"}, []string{"k"})
	sym.Reach("end")
	v.P.Close()
}

// Wide: several users with several sessions holding many entries, written,
// read and removed many at a time, with repetitions.
func (k Kit) Wide() {
	v := k.Fix(0)
	toks := []string{"u.0.s", "uv.0.s", "u.1.s", "v.0.s", "u.2.s"}
	names := []string{"a", "b", "ab", "c", "k.1", "*", "zz", "b\x00", "\xff"}
	pairs := func(tag string, from, step, n int) (out []sessionid.PairBytes) {
		for i := 0; i < n; i++ {
			b := append(make([]byte, 0, 4), sym.Bytes(tag, 1)...)
			out = append(out, sessionid.PairBytes{Key: names[(from+i*step)%len(names)], Value: b[:1-i%4/3]})
		}
		return
	}
	for i, t := range toks {
		v.Create(t, t+"r", pairs("init", i, 1, 2*i))
	}
	all := append(append([]string{}, names...), "none", "b", "a")
	n := sym.Bound("operations", 2, 3)
	for i := 0; i < n; i++ {
		j := sym.Choice("tok", len(toks))
		t := toks[j]
		switch sym.Choice("op", 5) {
		case 0:
			v.Put(t, pairs("put", 1, 2, 5))
		case 1: // the same keys twice
			v.Put(t, pairs("put", 3, 3, 7))
		case 2:
			v.Delete(t, []string{"zz", "a", "none", "a", "k.1", "\xff"})
		case 3:
			v.Refresh(t, t+"r", t+"n", t+"nr")
			toks = append(append([]string{}, toks...), t+"n")
		case 4:
			v.DestroyByToken(t)
		}
	}
	v.All(toks, all)
	switch sym.Choice("after", 3) {
	case 0:
		v.Destroy("u")
	case 1:
		v.Create(toks[0], "u.x.s", pairs("again", 0, 1, 9))
	case 2:
		v.Refresh(toks[4], toks[4]+"r", toks[0], "u.x.s")
	}
	v.All(toks, all)
	sym.Reach("end")
	v.P.Close()
}
