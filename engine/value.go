package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a run-time value of the symbolic interpreter.
//
//	*Expr            booleans and integers
//	Str              strings (concrete length, possibly symbolic bytes)
//	*Value           pointers (nil pointer: (*Value)(nil))
//	Agg              structs and arrays
//	Slice            slices (concrete length and capacity)
//	Iface            interfaces
//	*MapObj, *ChanObj, *Closure, Tuple, Float, *Iter, RVal, HostObj
type Value any

type Agg []Value
type Tuple []Value
type Float float64

type Str struct {
	s string
	b []*Expr
}

type Slice struct{ a []Value }

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	hst func(r *Run, g *G, args []Value) Value
}

type mapEnt struct {
	k    Value
	v    Value
	dead bool
}

type MapObj struct {
	t    *types.Map
	ents []*mapEnt
	idx  map[any]*mapEnt // only when every key is concrete
	n    int
}

type ChanObj struct {
	id     int
	cap    int
	buf    []Value
	closed bool
	vc     []vclock // per buffered element
	cvc    vclock
	rvc    vclock
	elem   types.Type
	recvq  []*waiter
	sendq  []*waiter
	ext    bool // created before the harness began
}

type waiter struct {
	g    *G
	idx  int
	ch   *ChanObj
	val  Value // to send
	dead *bool
}

type Iter struct {
	m    []*mapEnt
	pos  int
	s    Str
	isS  bool
	mo   *MapObj
	perm bool
}

// RVal models reflect.Value.
type RVal struct {
	t    types.Type
	v    Value
	addr *Value
}

// HostObj is an opaque library object.
type HostObj struct {
	kind string
	x    any
}

// RType models reflect.Type (dynamic type *reflect.rtype).
type RType struct{ t types.Type }

// SlicePtr is unsafe.SliceData / StringData of something.
type SlicePtr struct {
	a []Value
	s Str
	k int
}

func (s Str) len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (r *Run) strBytes(s Str) []*Expr {
	if s.b != nil {
		return s.b
	}
	out := make([]*Expr, len(s.s))
	for i := 0; i < len(s.s); i++ {
		out[i] = r.c.BV(uint64(s.s[i]), 8)
	}
	return out
}

func mkStr(b []*Expr) Str {
	for _, e := range b {
		if !e.isConst() {
			if b == nil {
				return Str{}
			}
			return Str{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, e := range b {
		bs[i] = byte(e.val)
	}
	return Str{s: string(bs)}
}

func (s Str) sub(i, j int) Str {
	if s.b != nil {
		return mkStr(s.b[i:j])
	}
	return Str{s: s.s[i:j]}
}

func (r *Run) strCat(a, b Str) Str {
	if a.b == nil && b.b == nil {
		return Str{s: a.s + b.s}
	}
	x, y := r.strBytes(a), r.strBytes(b)
	out := make([]*Expr, 0, len(x)+len(y))
	out = append(append(out, x...), y...)
	return mkStr(out)
}

func (r *Run) strEq(a, b Str) *Expr {
	if a.b == nil && b.b == nil {
		return r.c.Bool(a.s == b.s)
	}
	if a.len() != b.len() {
		return r.c.tFalse
	}
	x, y := r.strBytes(a), r.strBytes(b)
	cs := make([]*Expr, 0, len(x))
	for i := range x {
		e := r.c.Eq(x[i], y[i])
		if e.isFalse() {
			return e
		}
		if !e.isTrue() {
			cs = append(cs, e)
		}
	}
	return r.c.AndN(cs...)
}

// strLt is a < b (bytewise), as one expression.
func (r *Run) strLt(a, b Str) *Expr {
	if a.b == nil && b.b == nil {
		return r.c.Bool(a.s < b.s)
	}
	x, y := r.strBytes(a), r.strBytes(b)
	n := min(len(x), len(y))
	res := r.c.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		res = r.c.Or(r.c.ULt(x[i], y[i]), r.c.And(r.c.Eq(x[i], y[i]), res))
	}
	return res
}

func width(t types.Type) (uint8, bool, bool) { // width, signed, ok
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Value" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect"
}

func (r *Run) zero(t types.Type) Value {
	if isReflectValue(t) {
		return RVal{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.UntypedString:
			return Str{}
		case types.Float32, types.Float64, types.UntypedFloat:
			return Float(0)
		case types.UnsafePointer:
			return (*Value)(nil)
		case types.UntypedNil:
			return Iface{}
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return HostObj{"complex", complex(0, 0)}
		}
		w, _, ok := width(t)
		if !ok {
			panic(unsupported{"zero of " + t.String()})
		}
		if w == 0 {
			return r.c.tFalse
		}
		return r.c.BV(0, w)
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		a := make(Agg, u.NumFields())
		for i := range a {
			a[i] = r.zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		a := make(Agg, u.Len())
		for i := range a {
			a[i] = r.zero(u.Elem())
		}
		return a
	case *types.Slice:
		return Slice{}
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Tuple:
		tu := make(Tuple, u.Len())
		for i := range tu {
			tu[i] = r.zero(u.At(i).Type())
		}
		return tu
	}
	panic(unsupported{"zero of " + t.String()})
}

func copyVal(v Value) Value {
	if a, ok := v.(Agg); ok {
		n := make(Agg, len(a))
		for i := range a {
			n[i] = copyVal(a[i])
		}
		return n
	}
	return v
}

// storeInto writes v through p keeping interior pointers of aggregates valid.
func storeInto(p *Value, v Value) {
	if a, ok := v.(Agg); ok {
		if d, ok := (*p).(Agg); ok && len(d) == len(a) {
			for i := range a {
				storeInto(&d[i], a[i])
			}
			return
		}
		*p = copyVal(v)
		return
	}
	*p = v
}

// valEq is a == b for values of static type t.
func (r *Run) valEq(t types.Type, a, b Value) *Expr {
	switch x := a.(type) {
	case *Expr:
		return r.c.Eq(x, b.(*Expr))
	case Str:
		return r.strEq(x, b.(Str))
	case *Value:
		if y, ok := b.(*Value); ok {
			return r.c.Bool(x == y)
		}
		return r.c.tFalse
	case Agg:
		y := b.(Agg)
		res := r.c.tTrue
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := range x {
				if u.Field(i).Name() == "_" {
					continue
				}
				res = r.c.And(res, r.valEq(u.Field(i).Type(), x[i], y[i]))
			}
		case *types.Array:
			for i := range x {
				res = r.c.And(res, r.valEq(u.Elem(), x[i], y[i]))
			}
		}
		return res
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return r.c.Bool(x.t == nil && y.t == nil)
		}
		if rx, ok := x.v.(RType); ok {
			ry, ok := y.v.(RType)
			return r.c.Bool(ok && types.Identical(rx.t, ry.t))
		}
		if !types.Identical(x.t, y.t) {
			return r.c.tFalse
		}
		if !types.Comparable(x.t) {
			r.goPanic("runtime error: comparing uncomparable type " + x.t.String())
		}
		return r.valEq(x.t, x.v, y.v)
	case *MapObj:
		y, _ := b.(*MapObj)
		return r.c.Bool(x == y)
	case *ChanObj:
		y, _ := b.(*ChanObj)
		return r.c.Bool(x == y)
	case *Closure:
		y, _ := b.(*Closure)
		return r.c.Bool(x == nil && y == nil || x == y)
	case Slice:
		y := b.(Slice)
		return r.c.Bool(x.a == nil && y.a == nil)
	case Float:
		return r.c.Bool(x == b.(Float))
	case RType:
		y, ok := b.(RType)
		return r.c.Bool(ok && types.Identical(x.t, y.t))
	case HostObj:
		y, ok := b.(HostObj)
		return r.c.Bool(ok && x.x == y.x)
	case nil:
		return r.c.Bool(b == nil)
	}
	panic(unsupported{fmt.Sprintf("comparison of %T", a)})
}

// ---- maps

// ckey returns a host-comparable key if the value is concrete.
func ckey(v Value) (any, bool) {
	switch x := v.(type) {
	case *Expr:
		if x.isConst() {
			return x.val, true
		}
	case Str:
		if x.b == nil {
			return x.s, true
		}
	case *Value:
		return x, true
	case Iface:
		if x.t == nil {
			return nil, true
		}
		if k, ok := ckey(x.v); ok {
			return [2]any{x.t.String(), k}, true
		}
	case *ChanObj:
		return x, true
	case Agg:
		var sb strings.Builder
		for _, e := range x {
			k, ok := ckey(e)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v;", k, k)
		}
		return sb.String(), true
	}
	return nil, false
}

func newMap(t *types.Map) *MapObj { return &MapObj{t: t, idx: map[any]*mapEnt{}} }

func (r *Run) mapFind(m *MapObj, k Value) *mapEnt {
	if m == nil {
		return nil
	}
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		r.goPanic("runtime error: hash of unhashable type " + i.t.String())
	}
	ck, conc := ckey(k)
	if conc && m.idx != nil {
		return m.idx[ck]
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if r.branch(r.valEq(m.t.Key(), k, e.k)) {
			return e
		}
	}
	return nil
}

func (r *Run) mapSet(m *MapObj, k, v Value) {
	if m == nil {
		r.goPanic("assignment to entry in nil map")
	}
	if e := r.mapFind(m, k); e != nil {
		e.v = copyVal(v)
		return
	}
	e := &mapEnt{k: copyVal(k), v: copyVal(v)}
	m.ents = append(m.ents, e)
	m.n++
	if m.idx != nil {
		if ck, ok := ckey(k); ok {
			m.idx[ck] = e
		} else {
			m.idx = nil
		}
	}
}

func (r *Run) mapDel(m *MapObj, k Value) {
	e := r.mapFind(m, k)
	if e == nil {
		return
	}
	r.mapDrop(m, e)
}

func (r *Run) mapDrop(m *MapObj, e *mapEnt) {
	e.dead = true
	m.n--
	if m.idx != nil {
		ck, _ := ckey(e.k)
		delete(m.idx, ck)
	}
	out := m.ents[:0:0]
	for _, x := range m.ents {
		if !x.dead {
			out = append(out, x)
		}
	}
	m.ents = out
}
