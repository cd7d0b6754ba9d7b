package main

import (
	"strconv"
)

// What the redis client library and the stand-in for its server need.

// numRec remembers which number a run of decimal digits was made from.
type numRec struct {
	v      *Expr
	digits []*Expr
}

// decimal writes a number in base 10. The number of digits is decided by
// forking, the digits are expressions.
func (r *Run) decimal(v *Expr, signed bool) []*Expr {
	if v.isConst() {
		s := strconv.FormatUint(v.val, 10)
		if signed {
			s = strconv.FormatInt(int64(v.val), 10)
		}
		return r.strBytes(Str{s: s})
	}
	var out []*Expr
	orig := v
	if signed && r.branch(r.c.SLt(v, r.i64(0))) {
		out = append(out, r.c.BV('-', 8))
		v = r.c.Sub(r.i64(0), v)
	}
	n := r.i64(19)
	if !signed {
		n = r.i64(20)
	}
	pow := make([]uint64, 20)
	p := uint64(1)
	for i := range pow {
		pow[i] = p
		p *= 10
	}
	for i := int(n.val) - 1; i >= 1; i-- {
		n = r.c.Ite(r.c.ULt(v, r.c.BV(pow[i], 64)), r.i64(int64(i)), n)
	}
	k := int(r.concretize(n, 21, "digits"))
	for i := k - 1; i >= 0; i-- {
		d := r.c.divrem(OURem, r.c.divrem(OUDiv, v, r.c.BV(pow[i], 64)), r.i64(10))
		out = append(out, r.c.Add(r.c.Extract(d, 7, 0), r.c.BV('0', 8)))
	}
	if r.nums == nil {
		r.nums = map[*Expr]numRec{}
	}
	r.nums[out[len(out)-1]] = numRec{orig, out}
	return out
}

// number reads decimal digits back.
func (r *Run) parseNum(b []*Expr) (v *Expr, ok bool) {
	if len(b) == 0 {
		return nil, false
	}
	if s := mkStr(b); s.b == nil {
		n, err := strconv.ParseInt(s.s, 10, 64)
		if err != nil {
			return nil, false
		}
		return r.i64(n), true
	}
	rec, found := r.nums[b[len(b)-1]]
	if !found || len(rec.digits) != len(b) {
		panic(unsupported{"reading a symbolic number"})
	}
	for i := range b {
		if b[i] != rec.digits[i] {
			panic(unsupported{"reading a symbolic number"})
		}
	}
	return rec.v, true
}

func init() {
	base10 := func(v Value) {
		if e := v.(*Expr); !e.isConst() || e.val != 10 {
			panic(unsupported{"number base"})
		}
	}
	format := func(signed bool) intrinsic {
		return func(r *Run, g *G, fi *fnInfo, a []Value) Value {
			base10(a[1])
			return mkStr(r.decimal(a[0].(*Expr), signed))
		}
	}
	app := func(signed bool) intrinsic {
		return func(r *Run, g *G, fi *fnInfo, a []Value) Value {
			base10(a[2])
			d := r.decimal(a[1].(*Expr), signed)
			return Slice{append(sl(a[0]), r.mkBytes(d).a...)}
		}
	}
	reg(format(true), "strconv.FormatInt")
	reg(format(false), "strconv.FormatUint")
	reg(app(true), "strconv.AppendInt")
	reg(app(false), "strconv.AppendUint")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return mkStr(r.decimal(a[0].(*Expr), true)) }, "strconv.Itoa")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		v, ok := r.parseNum(r.strBytes(a[0].(Str)))
		if !ok {
			return Tuple{r.i64(0), r.c.tFalse}
		}
		return Tuple{v, r.c.tTrue}
	}, harnessPath+"/redism.number")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		if r.explore {
			r.yield(g)
		}
		if g.vid >= 0 {
			r.sched = append(r.sched, schedEnt{g.vid})
		}
		return nil
	}, harnessPath+"/redism.point")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		panic(unsupported{"redis command " + r.str(a[0])})
	}, harnessPath+"/redism.unknown")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		t := r.P.pkgs["go.opentelemetry.io/otel/trace"].Pkg.Scope().Lookup("noopSpan").Type()
		return Tuple{a[0], Iface{t: t, v: r.zero(t)}}
	}, "github.com/go-redis/redis/v8/internal.StartSpan")
	nop := func(r *Run, g *G, fi *fnInfo, a []Value) Value { return nil }
	reg(nop, "(*github.com/go-redis/redis/v8/internal.logger).Printf")
}
