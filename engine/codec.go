package main

import (
	"fmt"
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// encoding/gob, encoding/json and encoding/xml are modelled as opaque codecs:
// Encode makes a 12-byte blob naming a deep snapshot of the value, Decode of
// that blob gives the snapshot back under the codec's assignment rules.
// Anything that is not a blob of the same codec fails to decode.

type blob struct {
	codec string
	t     types.Type
	v     Value
}

func (r *Run) newBlob(codec string, t types.Type, v Value) []*Expr {
	// equal concrete values encode to equal bytes
	if k, ok := r.snapKey(t, v, 0); ok {
		k = codec + "|" + k
		for id, b := range r.blobs {
			if b.codec+"|"+b.t.String() == "key|"+k {
				return r.bytesConst(id[:12])
			}
		}
		_ = k
	}
	r.nblob++
	id := fmt.Sprintf("\xb1\xfe%s%08d", codec[:1], r.nblob)
	id = (id + "............")[:12]
	r.blobs[id] = &blob{codec, t, v}
	return r.bytesConst(id)
}

func (r *Run) bytesConst(s string) []*Expr {
	out := make([]*Expr, len(s))
	for i := range out {
		out[i] = r.c.BV(uint64(s[i]), 8)
	}
	return out
}

func (r *Run) snapKey(t types.Type, v Value, d int) (string, bool) { return "", false }

func isTime(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

// snapshot deep-copies v as the codec would transmit it.
func (r *Run) snapshot(t types.Type, v Value, depth int) (types.Type, Value, error) {
	if depth > 20 {
		return nil, nil, fmt.Errorf("too deep")
	}
	if isTime(t) {
		return t, copyVal(v), nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p := v.(*Value)
		if p == nil {
			return nil, nil, fmt.Errorf("nil pointer")
		}
		return r.snapshot(u.Elem(), *p, depth+1)
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return nil, nil, fmt.Errorf("type not supported")
		}
		return t, v, nil
	case *types.Slice:
		s := v.(Slice)
		if s.a == nil {
			return t, Slice{}, nil
		}
		out := make([]Value, len(s.a))
		for i := range s.a {
			_, x, e := r.snapshot(u.Elem(), s.a[i], depth+1)
			if e != nil {
				return nil, nil, e
			}
			out[i] = x
		}
		return t, Slice{out}, nil
	case *types.Array:
		a := v.(Agg)
		out := make(Agg, len(a))
		for i := range a {
			_, x, e := r.snapshot(u.Elem(), a[i], depth+1)
			if e != nil {
				return nil, nil, e
			}
			out[i] = x
		}
		return t, out, nil
	case *types.Map:
		m := v.(*MapObj)
		if m == nil {
			return t, (*MapObj)(nil), nil
		}
		n := newMap(m.t)
		for _, e := range m.ents {
			_, x, er := r.snapshot(u.Elem(), e.v, depth+1)
			if er != nil {
				return nil, nil, er
			}
			ne := &mapEnt{k: copyVal(e.k), v: x}
			n.ents = append(n.ents, ne)
			n.n++
			if n.idx != nil {
				if ck, ok := ckey(e.k); ok {
					n.idx[ck] = ne
				} else {
					n.idx = nil
				}
			}
		}
		return t, n, nil
	case *types.Struct:
		a := v.(Agg)
		out := make(Agg, len(a))
		exported := 0
		for i := range a {
			f := u.Field(i)
			if !f.Exported() {
				out[i] = r.zero(f.Type())
				continue
			}
			exported++
			ft := f.Type()
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				if a[i].(*Value) == nil {
					out[i] = (*Value)(nil)
					continue
				}
				_, x, e := r.snapshot(p.Elem(), *a[i].(*Value), depth+1)
				if e != nil {
					return nil, nil, e
				}
				np := new(Value)
				*np = x
				out[i] = np
				continue
			}
			switch ft.Underlying().(type) {
			case *types.Signature, *types.Chan:
				out[i] = r.zero(ft)
				continue
			}
			_, x, e := r.snapshot(ft, a[i], depth+1)
			if e != nil {
				return nil, nil, e
			}
			out[i] = x
		}
		if exported == 0 {
			return nil, nil, fmt.Errorf("type has no exported fields")
		}
		return t, out, nil
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			return nil, nil, fmt.Errorf("nil interface")
		}
		return r.snapshot(i.t, i.v, depth+1)
	}
	return nil, nil, fmt.Errorf("type not supported: %s", t)
}

// decodeInto assigns src (of type st) to *dst (of type dt) under codec rules.
func (r *Run) decodeInto(codec string, st types.Type, src Value, dt types.Type, dst *Value) error {
	bad := fmt.Errorf("%s: type mismatch: %s into %s", codec, st, dt)
	if p, ok := dt.Underlying().(*types.Pointer); ok {
		cur := (*dst).(*Value)
		if cur == nil {
			cur = new(Value)
			*cur = r.zero(p.Elem())
			*dst = cur
		}
		return r.decodeInto(codec, st, src, p.Elem(), cur)
	}
	if isTime(dt) || isTime(st) {
		if !isTime(dt) || !isTime(st) {
			return bad
		}
		storeInto(dst, src)
		return nil
	}
	if it, ok := dt.Underlying().(*types.Interface); ok {
		if it.NumMethods() != 0 || codec == "gob" {
			return bad
		}
		// json: generic value
		storeInto(dst, Iface{t: st, v: r.deep(st, src)})
		return nil
	}
	switch su := st.Underlying().(type) {
	case *types.Basic:
		du, ok := dt.Underlying().(*types.Basic)
		if !ok {
			return bad
		}
		const num = types.IsInteger
		switch {
		case su.Info()&types.IsString != 0 && du.Info()&types.IsString != 0,
			su.Info()&types.IsBoolean != 0 && du.Info()&types.IsBoolean != 0,
			su.Info()&types.IsFloat != 0 && du.Info()&types.IsFloat != 0:
			storeInto(dst, src)
			return nil
		case su.Info()&num != 0 && du.Info()&num != 0:
			sw, ss, _ := width(su)
			dw, ds, _ := width(du)
			e := src.(*Expr)
			if codec == "gob" && ss != ds {
				return bad
			}
			var x, back *Expr
			if dw >= sw {
				if ss {
					x = r.c.SExt(e, dw)
				} else {
					x = r.c.ZExt(e, dw)
				}
				back = e
				if ss != ds && !r.branch(r.c.SLe(r.c.BV(0, sw), e)) {
					return bad
				}
			} else {
				x = r.c.Extract(e, dw-1, 0)
				if ds {
					back = r.c.SExt(x, sw)
				} else {
					back = r.c.ZExt(x, sw)
				}
			}
			if !r.branch(r.c.Eq(back, e)) {
				return fmt.Errorf("%s: value out of range", codec)
			}
			*dst = x
			return nil
		}
		return bad
	case *types.Slice:
		s := src.(Slice)
		switch du := dt.Underlying().(type) {
		case *types.Slice:
			if codec != "gob" && s.a == nil {
				*dst = Slice{}
				return nil
			}
			cur := (*dst).(Slice)
			n := len(s.a)
			var out []Value
			if n <= cap(cur.a) && cur.a != nil {
				out = cur.a[:n] // both codecs reuse the destination's memory
			} else {
				out = make([]Value, n)
				for i := range out {
					out[i] = r.zero(du.Elem())
				}
			}
			for i := range s.a {
				if codec == "gob" {
					// elements are decoded over what is there
					if _, ok := du.Elem().Underlying().(*types.Basic); ok {
						out[i] = r.zero(du.Elem())
					}
				} else {
					out[i] = r.zero(du.Elem())
				}
				if e := r.decodeInto(codec, su.Elem(), s.a[i], du.Elem(), &out[i]); e != nil {
					return e
				}
			}
			*dst = Slice{out}
			return nil
		case *types.Basic:
			if w, _, _ := width(su.Elem()); w == 8 && du.Info()&types.IsString != 0 && codec == "json" {
				return bad
			}
		}
		return bad
	case *types.Array:
		du, ok := dt.Underlying().(*types.Array)
		if !ok || du.Len() != su.Len() {
			return bad
		}
		s, d := src.(Agg), (*dst).(Agg)
		for i := range s {
			if e := r.decodeInto(codec, su.Elem(), s[i], du.Elem(), &d[i]); e != nil {
				return e
			}
		}
		return nil
	case *types.Map:
		du, ok := dt.Underlying().(*types.Map)
		if !ok {
			return bad
		}
		s := src.(*MapObj)
		cur := (*dst).(*MapObj)
		if s == nil {
			if codec == "gob" && cur == nil {
				*dst = newMap(du)
			}
			return nil
		}
		if cur == nil {
			cur = newMap(du)
			*dst = cur
		}
		for _, e := range s.ents {
			var kv, vv Value = r.zero(du.Key()), r.zero(du.Elem())
			if er := r.decodeInto(codec, su.Key(), e.k, du.Key(), &kv); er != nil {
				return er
			}
			if er := r.decodeInto(codec, su.Elem(), e.v, du.Elem(), &vv); er != nil {
				return er
			}
			r.mapSet(cur, kv, vv)
		}
		return nil
	case *types.Struct:
		du, ok := dt.Underlying().(*types.Struct)
		if !ok {
			return bad
		}
		s, d := src.(Agg), (*dst).(Agg)
		for i := 0; i < su.NumFields(); i++ {
			f := su.Field(i)
			if !f.Exported() {
				continue
			}
			for j := 0; j < du.NumFields(); j++ {
				if du.Field(j).Name() != f.Name() {
					continue
				}
				ft, fv := f.Type(), s[i]
				if p, ok := ft.Underlying().(*types.Pointer); ok {
					if fv.(*Value) == nil {
						continue
					}
					ft, fv = p.Elem(), *fv.(*Value)
				}
				if codec == "gob" && r.isZeroVal(ft, fv) {
					continue // gob does not transmit zero fields
				}
				if e := r.decodeInto(codec, ft, fv, du.Field(j).Type(), &d[j]); e != nil {
					return e
				}
			}
		}
		return nil
	}
	return bad
}

func (r *Run) deep(t types.Type, v Value) Value {
	_, x, e := r.snapshot(t, v, 0)
	if e != nil {
		return v
	}
	return x
}

// isZeroVal: forks if undetermined.
func (r *Run) isZeroVal(t types.Type, v Value) bool {
	if isTime(t) {
		return false
	}
	switch x := v.(type) {
	case *Expr:
		return r.branch(r.c.Eq(x, r.zero(t).(*Expr)))
	case Str:
		return x.len() == 0
	case Slice:
		return len(x.a) == 0
	case *MapObj:
		return x == nil || x.n == 0
	case Float:
		return x == 0
	case Agg:
		return false
	}
	return false
}

type codecObj struct {
	codec string
	w     Iface // io.Writer / io.Reader
}

func (r *Run) writeTo(g *G, w Iface, b []*Expr) Value {
	m := r.method(w, r.P.ioWrite)
	res := r.callValue(g, m, []Value{w.v, r.mkBytes(b)}).(Tuple)
	return res[1]
}

func (r *Run) encodeValue(codec string, v Value) ([]*Expr, Value) {
	i := v.(Iface)
	if i.t == nil {
		if codec == "gob" {
			return nil, r.mkErr("gob: cannot encode nil value")
		}
		return r.newBlob(codec, types.Typ[types.UntypedNil], nil), nil
	}
	if p, ok := i.v.(*Value); ok && p == nil {
		if _, isPtr := i.t.Underlying().(*types.Pointer); isPtr {
			if codec == "gob" {
				r.goPanic("gob: cannot encode nil pointer of type " + i.t.String())
			}
			return r.newBlob(codec, types.Typ[types.UntypedNil], nil), nil
		}
	}
	st, sv, e := r.snapshot(i.t, i.v, 0)
	if e != nil {
		return nil, r.mkErr(codec + ": " + e.Error())
	}
	return r.newBlob(codec, st, sv), nil
}

func (r *Run) decodeValue(codec string, data []*Expr, v Value) Value {
	i := v.(Iface)
	if i.t == nil {
		if codec == "gob" {
			return Iface{}
		}
		return r.mkErr(codec + ": Unmarshal(nil)")
	}
	pt, ok := i.t.Underlying().(*types.Pointer)
	if !ok {
		return r.mkErr(codec + ": attempt to decode into a non-pointer")
	}
	if i.v.(*Value) == nil {
		return r.mkErr(codec + ": nil pointer")
	}
	if len(data) < 12 {
		return r.mkErr(codec + ": EOF")
	}
	if len(data) > 12 && codec != "gob" {
		return r.mkErr(codec + ": invalid data")
	}
	s := mkStr(data[:12])
	if s.b != nil {
		// bytes that are not known constants: no blob spells them unless forced
		for id := range r.blobs {
			if r.branch(r.strEq(s, Str{s: id})) {
				s = Str{s: id}
				break
			}
		}
	}
	var b *blob
	if s.b == nil {
		b = r.blobs[s.s]
	}
	if b == nil || b.codec != codec {
		return r.mkErr(codec + ": invalid data")
	}
	if b.t == types.Typ[types.UntypedNil] {
		return Iface{}
	}
	if e := r.decodeInto(codec, b.t, b.v, pt.Elem(), i.v.(*Value)); e != nil {
		return r.mkErr(e.Error())
	}
	return Iface{}
}

func orNil(v Value) Value {
	if v == nil {
		return Iface{}
	}
	return v
}

func init() {
	for _, cd := range []struct{ codec, pkg string }{{"gob", "encoding/gob"}, {"json", "encoding/json"}, {"xml", "encoding/xml"}} {
		cd := cd
		mk := func(r *Run, g *G, fi *fnInfo, a []Value) Value {
			p := new(Value)
			pt := fi.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer)
			*p = r.zero(pt.Elem())
			r.host[p] = &codecObj{cd.codec, a[0].(Iface)}
			return p
		}
		reg(mk, cd.pkg+".NewEncoder", cd.pkg+".NewDecoder")
		reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
			o := r.host[ptrArg(r, a[0])].(*codecObj)
			b, e := r.encodeValue(cd.codec, a[1])
			if e != nil {
				return e
			}
			return orNil(r.writeTo(g, o.w, b))
		}, "(*"+cd.pkg+".Encoder).Encode")
		reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
			o := r.host[ptrArg(r, a[0])].(*codecObj)
			buf := r.mkBytes(r.bytesConst("............"))
			m := r.method(o.w, r.P.ioRead)
			res := r.callValue(g, m, []Value{o.w.v, buf}).(Tuple)
			n := int(r.concretize(res[0].(*Expr), 20, "decoder read"))
			return r.decodeValue(cd.codec, r.bytesOf(Slice{buf.a[:n]}), a[1])
		}, "(*"+cd.pkg+".Decoder).Decode")
		if cd.codec != "gob" {
			reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
				b, e := r.encodeValue(cd.codec, a[0])
				if e != nil {
					return Tuple{Slice{}, e}
				}
				return Tuple{r.mkBytes(b), Iface{}}
			}, cd.pkg+".Marshal")
			reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
				return r.decodeValue(cd.codec, r.bytesOf(a[0]), a[1])
			}, cd.pkg+".Unmarshal")
		}
	}
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return nil }, "encoding/gob.Register")

	// ---- reflect: the subset small libraries use
	rv := func(v Value) RVal {
		x, ok := v.(RVal)
		if !ok {
			panic(unsupported{fmt.Sprintf("reflect.Value %T", v)})
		}
		return x
	}
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return RVal{}
		}
		return RVal{t: i.t, v: i.v}
	}, "reflect.ValueOf", "internal/reflectlite.ValueOf")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return r.rtype(i.t)
	}, "reflect.TypeOf", "internal/reflectlite.TypeOf")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return r.c.BV(uint64(kindOf(rv(a[0]).t)), 64)
	}, "(reflect.Value).Kind")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		x := rv(a[0])
		switch u := x.t.Underlying().(type) {
		case *types.Pointer:
			p := x.v.(*Value)
			if p == nil {
				return RVal{}
			}
			return RVal{t: u.Elem(), addr: p}
		case *types.Interface:
			i := x.get().(Iface)
			if i.t == nil {
				return RVal{}
			}
			return RVal{t: i.t, v: i.v}
		}
		r.goPanic("reflect: call of reflect.Value.Elem on " + x.t.String() + " Value")
		return nil
	}, "(reflect.Value).Elem")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		x := rv(a[0])
		if x.t == nil {
			r.goPanic("reflect: call of reflect.Value.Type on zero Value")
		}
		return r.rtype(x.t)
	}, "(reflect.Value).Type")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return r.c.Bool(rv(a[0]).t != nil) }, "(reflect.Value).IsValid")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return r.c.Bool(rv(a[0]).addr != nil) }, "(reflect.Value).CanSet", "(reflect.Value).CanAddr")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		x := rv(a[0])
		switch v := x.get().(type) {
		case *Value:
			return r.c.Bool(v == nil)
		case *MapObj:
			return r.c.Bool(v == nil)
		case Slice:
			return r.c.Bool(v.a == nil)
		case Iface:
			return r.c.Bool(v.t == nil)
		case *Closure:
			return r.c.Bool(v == nil)
		case *ChanObj:
			return r.c.Bool(v == nil)
		}
		r.goPanic("reflect: call of reflect.Value.IsNil on " + x.t.String() + " Value")
		return nil
	}, "(reflect.Value).IsNil")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		x := rv(a[0])
		if x.t == nil {
			r.goPanic("reflect: call of reflect.Value.Interface on zero Value")
		}
		if _, ok := x.t.Underlying().(*types.Interface); ok {
			return x.get()
		}
		return Iface{t: x.t, v: copyVal(x.get())}
	}, "(reflect.Value).Interface")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		x, y := rv(a[0]), rv(a[1])
		if x.addr == nil {
			r.goPanic("reflect: reflect.Value.Set using unaddressable value")
		}
		if y.t == nil {
			r.goPanic("reflect: call of reflect.Value.Set on zero Value")
		}
		if !types.AssignableTo(y.t, x.t) {
			r.goPanic("reflect.Set: value of type " + y.t.String() + " is not assignable to type " + x.t.String())
		}
		v := copyVal(y.get())
		if _, ok := x.t.Underlying().(*types.Interface); ok {
			if _, already := y.t.Underlying().(*types.Interface); !already {
				v = Iface{t: y.t, v: v}
			}
		}
		storeInto(x.addr, v)
		return nil
	}, "(reflect.Value).Set")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		x := rv(a[0])
		return r.i64(int64(x.t.Underlying().(*types.Struct).NumFields()))
	}, "(reflect.Value).NumField")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		x := rv(a[0])
		switch v := x.get().(type) {
		case Slice:
			return r.i64(int64(len(v.a)))
		case Str:
			return r.i64(int64(v.len()))
		case *MapObj:
			if v == nil {
				return r.i64(0)
			}
			return r.i64(int64(v.n))
		case Agg:
			return r.i64(int64(len(v)))
		}
		panic(unsupported{"reflect Len"})
	}, "(reflect.Value).Len", "(internal/reflectlite.Value).Len")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		i := a[0].(Iface)
		s, ok := i.v.(Slice)
		if !ok {
			r.goPanic("reflect: call of Swapper on " + i.t.String() + " Value")
		}
		return &Closure{hst: func(r *Run, g *G, b []Value) Value {
			x, y := int(r.concretize(b[0].(*Expr), 64, "swap")), int(r.concretize(b[1].(*Expr), 64, "swap"))
			if x < 0 || y < 0 || x >= len(s.a) || y >= len(s.a) {
				r.goPanic("reflect: slice index out of range")
			}
			vx, vy := copyVal(s.a[x]), copyVal(s.a[y])
			storeInto(&s.a[x], vy)
			storeInto(&s.a[y], vx)
			return nil
		}}
	}, "internal/reflectlite.Swapper", "reflect.Swapper")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		t := a[0].(Iface).v.(RType).t
		p := new(Value)
		*p = r.zero(t)
		return RVal{t: types.NewPointer(t), v: p}
	}, "reflect.New")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		t := a[0].(Iface).v.(RType).t
		return RVal{t: t, v: r.zero(t)}
	}, "reflect.Zero")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		x := rv(a[0])
		if x.t.Underlying().(*types.Pointer) != nil && x.v.(*Value) == nil {
			return RVal{}
		}
		return RVal{t: x.t.Underlying().(*types.Pointer).Elem(), addr: x.v.(*Value)}
	}, "reflect.Indirect")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return RVal{t: types.NewPointer(rv(a[0]).t), v: rv(a[0]).addr}
	}, "(reflect.Value).Addr")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		x := rv(a[0])
		s, _ := x.get().(Str)
		return s
	}, "(reflect.Value).String")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		return r.deepEq(x, y, 0)
	}, "reflect.DeepEqual")
}

func (x RVal) get() Value {
	if x.addr != nil {
		return *x.addr
	}
	return x.v
}

func (r *Run) rtype(t types.Type) Value {
	return Iface{t: r.P.hostRType, v: RType{t}}
}

func kindOf(t types.Type) reflect.Kind {
	if t == nil {
		return reflect.Invalid
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Struct:
		return reflect.Struct
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	}
	return reflect.Invalid
}

func (r *Run) deepEq(x, y Iface, d int) *Expr {
	if x.t == nil || y.t == nil {
		return r.c.Bool(x.t == nil && y.t == nil)
	}
	if !types.Identical(x.t, y.t) {
		return r.c.tFalse
	}
	return r.deepEqV(x.t, x.v, y.v, d)
}

func (r *Run) deepEqV(t types.Type, a, b Value, d int) *Expr {
	if d > 30 {
		panic(unsupported{"DeepEqual depth"})
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		x, y := a.(Slice), b.(Slice)
		if (x.a == nil) != (y.a == nil) || len(x.a) != len(y.a) {
			return r.c.tFalse
		}
		res := r.c.tTrue
		for i := range x.a {
			res = r.c.And(res, r.deepEqV(u.Elem(), x.a[i], y.a[i], d+1))
		}
		return res
	case *types.Struct:
		x, y := a.(Agg), b.(Agg)
		res := r.c.tTrue
		for i := range x {
			res = r.c.And(res, r.deepEqV(u.Field(i).Type(), x[i], y[i], d+1))
		}
		return res
	case *types.Array:
		x, y := a.(Agg), b.(Agg)
		res := r.c.tTrue
		for i := range x {
			res = r.c.And(res, r.deepEqV(u.Elem(), x[i], y[i], d+1))
		}
		return res
	case *types.Map:
		x, y := a.(*MapObj), b.(*MapObj)
		if (x == nil) != (y == nil) {
			return r.c.tFalse
		}
		if x == nil {
			return r.c.tTrue
		}
		if x.n != y.n {
			return r.c.tFalse
		}
		res := r.c.tTrue
		for _, e := range x.ents {
			o := r.mapFind(y, e.k)
			if o == nil {
				return r.c.tFalse
			}
			res = r.c.And(res, r.deepEqV(u.Elem(), e.v, o.v, d+1))
		}
		return res
	case *types.Pointer:
		x, y := a.(*Value), b.(*Value)
		if x == y {
			return r.c.tTrue
		}
		if x == nil || y == nil {
			return r.c.tFalse
		}
		return r.deepEqV(u.Elem(), *x, *y, d+1)
	case *types.Interface:
		return r.deepEq(a.(Iface), b.(Iface), d+1)
	case *types.Signature:
		return r.c.Bool(a.(*Closure) == nil && b.(*Closure) == nil)
	}
	return r.valEq(t, a, b)
}

var _ = ssa.BuilderMode(0)
