package main

import (
	"fmt"
	"go/types"
	"strings"
)

// The functions of package sym.

const symPkg = harnessPath + "/sym."

func init() {
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		if r.explore {
			r.pass(g)
		}
		return nil
	}, harnessPath+"/boltm.point")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		p := poison{r.str(a[1])}
		s := a[0].(Slice)
		for i := range s.a {
			s.a[i] = p
		}
		return nil
	}, harnessPath+"/boltm.poison")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		lo, hi := a[1].(*Expr), a[2].(*Expr)
		if !lo.isConst() || !hi.isConst() {
			panic(unsupported{"symbolic range"})
		}
		return r.freshRange(r.str(a[0]), int64(lo.val), int64(hi.val))
	}, symPkg+"Int")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		n := a[1].(*Expr)
		return r.choice(r.str(a[0]), int(n.val))
	}, symPkg+"Choice")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return r.freshInput(r.str(a[0]), 0)
	}, symPkg+"Bool")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return r.freshInput(r.str(a[0]), 8)
	}, symPkg+"Byte")
	bytes := func(r *Run, n string, k int) []*Expr {
		out := make([]*Expr, k)
		for i := range out {
			out[i] = r.freshInput(fmt.Sprintf("%s.%d", n, i), 8)
		}
		return out
	}
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return r.mkBytes(bytes(r, r.str(a[0]), int(a[1].(*Expr).val)))
	}, symPkg+"Bytes")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		n := r.str(a[0])
		k := r.choice(n+".len", int(a[1].(*Expr).val)+1)
		return mkStr(bytes(r, n, int(k.val)))
	}, symPkg+"Str")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		r.assume(a[0].(*Expr))
		return nil
	}, symPkg+"Assume")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		r.assert(a[0].(*Expr), r.str(a[1]))
		return nil
	}, symPkg+"Assert")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return r.c.And(a[0].(*Expr), a[1].(*Expr))
	}, symPkg+"And")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return r.c.Or(a[0].(*Expr), a[1].(*Expr))
	}, symPkg+"Or")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return r.c.Bool(a[0].(*Expr) == r.c.tTrue)
	}, symPkg+"Sure")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		r.reach[r.str(a[0])] = true
		return nil
	}, symPkg+"Reach")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		o := obsEnt{label: r.str(a[0])}
		for _, v := range sl(a[1]) {
			o.vals = append(o.vals, r.freeze(v))
		}
		r.obs = append(r.obs, o)
		return nil
	}, symPkg+"Observe")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		r.yieldAll(g)
		return nil
	}, symPkg+"Quiesce")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		r.sleep(g, a[0].(*Expr))
		return nil
	}, symPkg+"Advance")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		fn := a[0]
		r.number(r.spawn("harness", func(g *G) { r.callValue(g, fn, nil) }), true)
		return nil
	}, symPkg+"spawn")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		r.explore, r.raceOn, r.everExplored = true, true, true
		r.preempt = int(a[0].(*Expr).val)
		return nil
	}, symPkg+"Explore")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		n := 0
		for _, x := range r.gs {
			if x.state != gDone && !x.bg && x.id != 0 {
				n++
			}
		}
		return r.i64(int64(n))
	}, symPkg+"Goroutines")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		r.explore, r.raceOn = false, false
		return nil
	}, symPkg+"NoExplore")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		n := r.str(a[0])
		v := int(a[1].(*Expr).val)
		if r.X.thorough {
			v = int(a[2].(*Expr).val)
		}
		if o, ok := r.X.boundOverride[n]; ok {
			v = o
		}
		r.X.setBound(n, v)
		return r.i64(int64(v))
	}, symPkg+"Bound")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		i := a[0].(Iface)
		h := &holder{r: r, s: a[1].(Str), seen: map[*Value]bool{}, seenM: map[*MapObj]bool{}}
		return r.c.Bool(i.t != nil && h.val(i.t, i.v, 0))
	}, symPkg+"Holds")
}

func (r *Run) choice(name string, n int) *Expr {
	if n <= 1 {
		r.freshRange(name, 0, 0)
		return r.i64(0)
	}
	e := r.freshRange(name, 0, int64(n-1))
	return r.i64(int64(r.concretize(e, n+1, "choice")))
}

// freeze snapshots a value so that later mutation does not change the record.
func (r *Run) freeze(v Value) Value {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return x
		}
		if isErrorType(x.t) || x.t == r.P.hostErr || x.t == r.P.rtErr {
			return Iface{t: x.t, v: Str{s: "error"}}
		}
		return Iface{t: x.t, v: r.freeze(x.v)}
	case Slice:
		out := make([]Value, len(x.a))
		for i := range x.a {
			out[i] = r.freeze(x.a[i])
		}
		return Slice{out}
	case Agg:
		out := make(Agg, len(x))
		for i := range x {
			out[i] = r.freeze(x[i])
		}
		return out
	case poison:
		r.poisonUse(x)
	}
	return v
}

// holder looks for a string in the memory reachable from a value.
type holder struct {
	r     *Run
	s     Str
	seen  map[*Value]bool
	seenM map[*MapObj]bool
}

func (h *holder) contains(bs []*Expr) bool {
	n := h.s.len()
	nd := h.r.strBytes(h.s)
	for i := 0; i+n <= len(bs); i++ {
		if h.r.branch(h.r.exprsEq(bs[i:i+n], nd)) {
			return true
		}
	}
	return false
}

func (h *holder) val(t types.Type, v Value, d int) bool {
	if d > 200 {
		return false
	}
	switch x := v.(type) {
	case Str:
		if x.b == nil && h.s.b == nil {
			return strings.Contains(x.s, h.s.s)
		}
		return h.contains(h.r.strBytes(x))
	case *Value:
		if x == nil || h.seen[x] {
			return false
		}
		h.seen[x] = true
		return h.val(nil, *x, d+1)
	case Iface:
		if x.t == nil {
			return false
		}
		return h.val(x.t, x.v, d+1)
	case Agg:
		for _, y := range x {
			if h.val(nil, y, d+1) {
				return true
			}
		}
	case Slice:
		if len(x.a) > 0 {
			if e, ok := x.a[0].(*Expr); ok {
				if e.w != 8 {
					return false
				}
				return h.contains(h.r.bytesOf(x))
			}
		}
		for _, y := range x.a {
			if h.val(nil, y, d+1) {
				return true
			}
		}
	case *MapObj:
		if x == nil || h.seenM[x] {
			return false
		}
		h.seenM[x] = true
		for _, e := range x.ents {
			if !e.dead && (h.val(nil, e.k, d+1) || h.val(nil, e.v, d+1)) {
				return true
			}
		}
	}
	return false
}
