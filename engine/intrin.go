package main

import (
	"fmt"
	"go/types"
	"strings"
)

type intrinsic func(r *Run, g *G, fi *fnInfo, a []Value) Value

var intrinsics = map[string]intrinsic{}

func reg(f intrinsic, names ...string) {
	for _, n := range names {
		if _, dup := intrinsics[n]; dup {
			panic("duplicate intrinsic " + n)
		}
		intrinsics[n] = f
	}
}

func (r *Run) i64(v int64) *Expr { return r.c.BV(uint64(v), 64) }

func (r *Run) str(v Value) string {
	s := v.(Str)
	if s.b != nil {
		panic(unsupported{"symbolic string where a concrete one is needed"})
	}
	return s.s
}

// time.Time is {wall, ext, loc}; here wall is 0 and ext is Unix nanoseconds.
func (r *Run) timeVal(ns *Expr) Value {
	return Agg{r.c.BV(0, 64), ns, (*Value)(nil)}
}

func tns(v Value) *Expr {
	switch a := v.(type) {
	case Agg:
		return a[1].(*Expr)
	case *Value:
		return (*a).(Agg)[1].(*Expr)
	}
	panic(unsupported{fmt.Sprintf("time value %T", v)})
}

func (r *Run) mkErr(msg string) Value {
	return Iface{t: r.P.hostErr, v: HostObj{"error", &hostError{msg: msg}}}
}

type hostError struct {
	msg  string
	text []*Expr // where it is not constant
	wrap []Value
}

type hmacObj struct {
	hash string
	key  []*Expr
	data []*Expr
	loc  Value // stands for its memory in race detection
}

type macApp struct {
	hash     string
	key, msg []*Expr
	tag      []*Expr
}

var hashSizes = map[string]int{"MD4": 16, "MD5": 16, "SHA1": 20, "SHA224": 28, "SHA256": 32, "SHA384": 48, "SHA512": 64, "SHA512/224": 28, "SHA512/256": 32}
var hashBlock = map[string]int{"MD4": 64, "MD5": 64, "SHA1": 64, "SHA224": 64, "SHA256": 64, "SHA384": 128, "SHA512": 128, "SHA512/224": 128, "SHA512/256": 128}
var hashByNum = map[uint64]string{1: "MD4", 2: "MD5", 3: "SHA1", 4: "SHA224", 5: "SHA256", 6: "SHA384", 7: "SHA512", 14: "SHA512/224", 15: "SHA512/256"}
var hashPkg = map[string]string{"MD4": "golang.org/x/crypto/md4", "MD5": "crypto/md5", "SHA1": "crypto/sha1", "SHA224": "crypto/sha256", "SHA256": "crypto/sha256", "SHA384": "crypto/sha512", "SHA512": "crypto/sha512", "SHA512/224": "crypto/sha512", "SHA512/256": "crypto/sha512"}

func (r *Run) bytesOf(v Value) []*Expr {
	s := v.(Slice)
	out := make([]*Expr, len(s.a))
	for i := range s.a {
		if r.raceOn {
			r.raceAccess(&s.a[i], false)
		}
		e, ok := s.a[i].(*Expr)
		if !ok {
			r.poisonUse(s.a[i])
		}
		out[i] = e
	}
	return out
}

func (r *Run) mkBytes(b []*Expr) Slice {
	a := make([]Value, len(b))
	for i := range b {
		a[i] = b[i]
	}
	return Slice{a}
}

func (r *Run) constBytes(s string) Slice {
	a := make([]Value, len(s))
	for i := range a {
		a[i] = r.c.BV(uint64(s[i]), 8)
	}
	return Slice{a}
}

func (r *Run) exprsEq(x, y []*Expr) *Expr {
	if len(x) != len(y) {
		return r.c.tFalse
	}
	cs := make([]*Expr, 0, len(x))
	for i := range x {
		cs = append(cs, r.c.Eq(x[i], y[i]))
	}
	return r.c.AndN(cs...)
}

// mac is an uninterpreted, collision-free function of (hash, key, message).
// Keys that differ only in trailing zero bytes are the same HMAC key.
func (r *Run) mac(hash string, key, msg []*Expr) []*Expr {
	z := r.c.BV(0, 8)
	pad := func(k []*Expr, n int) []*Expr {
		o := append([]*Expr(nil), k...)
		for len(o) < n {
			o = append(o, z)
		}
		return o
	}
	var diff []*macApp
	for _, m := range r.macs {
		if m.hash != hash {
			continue
		}
		eq := r.c.tFalse
		if len(m.msg) == len(msg) {
			n := max(len(m.key), len(key))
			if n <= hashBlock[strings.TrimPrefix(hash, "h:")] {
				eq = r.c.And(r.exprsEq(pad(m.key, n), pad(key, n)), r.exprsEq(m.msg, msg))
			} else {
				eq = r.c.And(r.exprsEq(m.key, key), r.exprsEq(m.msg, msg))
			}
		}
		if r.branch(eq) {
			return m.tag
		}
		diff = append(diff, m)
	}
	n := hashSizes[strings.TrimPrefix(hash, "h:")]
	if n == 0 {
		panic(unsupported{"hash " + hash})
	}
	tag := make([]*Expr, n)
	for i := range tag {
		tag[i] = r.c.Var(fmt.Sprintf("mac%d!%d", len(r.macs), i), 8)
	}
	for _, m := range diff {
		r.assume(r.c.Not(r.exprsEq(m.tag, tag)))
	}
	r.macs = append(r.macs, &macApp{hash, key, msg, tag})
	return tag
}

func (r *Run) freshUnique(kind string, n int) []*Expr {
	out := make([]*Expr, n)
	for i := range out {
		out[i] = r.freshInput(fmt.Sprintf("%s.%d", kind, i), 8)
	}
	for _, u := range r.uniq {
		// fewer random bytes may well come twice
		if len(u) == n && n >= 12 {
			r.assume(r.c.Not(r.exprsEq(u, out)))
		}
	}
	r.uniq = append(r.uniq, out)
	return out
}

func hostImplements(h HostObj, it *types.Interface) bool {
	for i := 0; i < it.NumMethods(); i++ {
		n := it.Method(i).Name()
		ok := false
		switch h.kind {
		case "error":
			ok = n == "Error" || (n == "Unwrap" && len(h.x.(*hostError).wrap) > 0)
		case "hmac", "hash":
			ok = n == "Write" || n == "Sum" || n == "Reset" || n == "Size" || n == "BlockSize"
		}
		if !ok {
			return false
		}
	}
	return true
}

func (r *Run) hostInvoke(g *G, recv Value, name string, a []Value) Value {
	switch h := recv.(type) {
	case RType:
		switch name {
		case "Kind":
			return r.c.BV(uint64(kindOf(h.t)), 64)
		case "Elem":
			switch u := h.t.Underlying().(type) {
			case *types.Pointer:
				return r.rtype(u.Elem())
			case *types.Slice:
				return r.rtype(u.Elem())
			case *types.Map:
				return r.rtype(u.Elem())
			case *types.Array:
				return r.rtype(u.Elem())
			}
		case "Key":
			return r.rtype(h.t.Underlying().(*types.Map).Key())
		case "String", "Name":
			return Str{s: h.t.String()}
		case "PkgPath":
			if n, ok := h.t.(*types.Named); ok && n.Obj().Pkg() != nil {
				return Str{s: n.Obj().Pkg().Path()}
			}
			return Str{}
		case "NumField":
			return r.i64(int64(h.t.Underlying().(*types.Struct).NumFields()))
		case "Comparable":
			return r.c.Bool(types.Comparable(h.t))
		case "AssignableTo":
			o := a[0].(Iface).v.(RType)
			return r.c.Bool(types.AssignableTo(h.t, o.t))
		case "ConvertibleTo":
			o := a[0].(Iface).v.(RType)
			return r.c.Bool(types.ConvertibleTo(h.t, o.t))
		case "Implements":
			o := a[0].(Iface).v.(RType)
			return r.c.Bool(types.Implements(h.t, o.t.Underlying().(*types.Interface)))
		}
	case HostObj:
		switch h.kind {
		case "error":
			e := h.x.(*hostError)
			switch name {
			case "Error":
				if e.text != nil {
					return mkStr(e.text)
				}
				return Str{s: e.msg}
			case "Unwrap":
				return e.wrap[0]
			}
		case "hmac":
			m := h.x.(*hmacObj)
			if r.raceOn && (name == "Write" || name == "WriteString" || name == "Sum" || name == "Reset") {
				r.raceAccess(&m.loc, true)
			}
			switch name {
			case "Write":
				b := r.bytesOf(a[0])
				m.data = append(m.data, b...)
				return Tuple{r.i64(int64(len(b))), Iface{}}
			case "WriteString":
				b := r.strBytes(a[0].(Str))
				m.data = append(m.data, b...)
				return Tuple{r.i64(int64(len(b))), Iface{}}
			case "Sum":
				data := append([]*Expr(nil), m.data...)
				tag := r.mac(m.hash, m.key, data)
				if dst := a[0].(Slice); len(dst.a)+len(tag) <= cap(dst.a) { // in place, like append
					n := len(dst.a)
					out := dst.a[:n+len(tag)]
					for i := range tag {
						if r.raceOn {
							r.raceAccess(&out[n+i], true)
						}
						out[n+i] = tag[i]
					}
					return Slice{out}
				}
				pre := r.bytesOf(a[0])
				return r.mkBytes(append(append([]*Expr(nil), pre...), tag...))
			case "Reset":
				m.data = nil
				return nil
			case "Size":
				return r.i64(int64(hashSizes[strings.TrimPrefix(m.hash, "h:")]))
			case "BlockSize":
				return r.i64(int64(hashBlock[strings.TrimPrefix(m.hash, "h:")]))
			}
		}
	}
	panic(unsupported{fmt.Sprintf("host method %s on %T %v", name, recv, recv)})
}

func (r *Run) newHash(name string) Value {
	return Iface{t: r.P.hostHash, v: HostObj{"hmac", &hmacObj{hash: "h:" + name}}}
}

// ---- errors

func (r *Run) errMethod(e Iface, name string) Value {
	if h, ok := e.v.(HostObj); ok {
		if h.kind == "error" && name == "Unwrap" && len(h.x.(*hostError).wrap) == 0 {
			return nil
		}
		if h.kind != "error" || (name != "Unwrap" && name != "Error") {
			return nil
		}
		return &Closure{hst: func(r *Run, g *G, args []Value) Value { return r.hostInvoke(g, h, name, args[1:]) }}
	}
	if e.t == r.P.rtErr {
		return nil
	}
	fn := r.P.lookup(e.t, nil, name)
	if fn == nil {
		return nil
	}
	return &Closure{fn: fn}
}

func (r *Run) errorsIs(g *G, err, target Iface) bool {
	if err.t == nil || target.t == nil {
		return err.t == nil && target.t == nil
	}
	for {
		if types.Comparable(target.t) || isHost(target.v) {
			if r.branch(r.valEq(r.P.anyT, err, target)) {
				return true
			}
		}
		if h, ok := err.v.(HostObj); ok && h.kind == "error" {
			for _, w := range h.x.(*hostError).wrap {
				if r.errorsIs(g, w.(Iface), target) {
					return true
				}
			}
			return false
		}
		if m := r.errMethod(err, "Is"); m != nil {
			if r.branch(r.callValue(g, m, []Value{err.v, target}).(*Expr)) {
				return true
			}
		}
		m := r.errMethod(err, "Unwrap")
		if m == nil {
			return false
		}
		switch n := r.callValue(g, m, []Value{err.v}).(type) {
		case Iface:
			if n.t == nil {
				return false
			}
			err = n
		case Slice:
			for _, w := range n.a {
				if r.errorsIs(g, w.(Iface), target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func isHost(v Value) bool { _, ok := v.(HostObj); return ok }

// text renders a value for fmt, when it is concrete.
// fmtArg writes one operand of a formatting function. What fmt would print
// of strings, bytes, numbers, booleans, errors and Stringers is exact; exact is
// false where the text is only a stand-in.
func (r *Run) fmtArg(g *G, flags string, verb byte, v Value) (out []*Expr, exact bool) {
	lit := func(s string) []*Expr { return r.strBytes(Str{s: s}) }
	plain := flags == "" || flags == "+" && verb == 'v'
	text := func(b []*Expr) ([]*Expr, bool) {
		if c := mkStr(b); c.b == nil {
			return lit(fmt.Sprintf("%"+flags+string(verb), c.s)), true
		}
		switch {
		case plain && (verb == 's' || verb == 'v'):
			return b, true
		case flags == "" && (verb == 'x' || verb == 'X'):
			dig := func(e *Expr) *Expr {
				return r.c.Ite(r.c.ULt(e, r.c.BV(10, 8)), r.c.Add(e, r.c.BV('0', 8)), r.c.Add(e, r.c.BV(uint64(verb-'x'+'a'-10)&0xff, 8)))
			}
			for _, e := range b {
				out = append(out, dig(r.c.LShr(e, r.c.BV(4, 8))), dig(r.c.BAnd(e, r.c.BV(15, 8))))
			}
			return out, true
		}
		return lit("<sym>"), false
	}
	i, ok := v.(Iface)
	if !ok {
		return lit("?"), false
	}
	if i.t == nil {
		return lit(fmt.Sprintf("%"+flags+string(verb), nil)), true
	}
	if verb == 'T' {
		return lit(types.TypeString(i.t, func(p *types.Package) string { return p.Name() })), true
	}
	if verb == 'p' {
		return lit("<pointer>"), false
	}
	if !strings.Contains(flags, "#") && strings.IndexByte("vsxXqw", verb) >= 0 {
		for _, name := range []string{"Error", "String"} {
			if name == "Error" && !isHost(i.v) && !isErrorType(i.t) {
				continue
			}
			m := r.errMethod(i, name)
			if m == nil {
				continue
			}
			if c, isC := m.(*Closure); isC && c.fn != nil {
				sg := c.fn.Signature
				if sg.Params().Len() != 0 || sg.Results().Len() != 1 || !types.Identical(sg.Results().At(0).Type(), types.Typ[types.String]) {
					continue
				}
			}
			if verb == 'w' {
				verb = 'v'
			}
			if s, ok := r.callValue(g, m, []Value{i.v}).(Str); ok {
				return text(r.strBytes(s))
			}
			return lit("<" + i.t.String() + ">"), false
		}
	}
	switch x := i.v.(type) {
	case Str:
		return text(r.strBytes(x))
	case Slice:
		if st, ok := i.t.Underlying().(*types.Slice); ok && types.Identical(st.Elem(), types.Typ[types.Uint8]) && strings.IndexByte("sxXq", verb) >= 0 {
			return text(r.bytesOf(x))
		}
	case *Expr:
		if x.w == 0 {
			if !x.isConst() {
				return lit(fmt.Sprintf("%"+flags+string(verb), r.branch(x))), true
			}
			return lit(fmt.Sprintf("%"+flags+string(verb), x.val == 1)), true
		}
		w, sg, isInt := width(i.t)
		if !isInt {
			break
		}
		if x.isConst() {
			f := "%" + flags + string(verb)
			if strings.Contains(flags, "#") && verb == 'v' && !sg {
				break
			}
			if sg {
				return lit(fmt.Sprintf(f, sext(x.val, w))), true
			}
			return lit(fmt.Sprintf(f, x.val)), true
		}
		if plain && (verb == 'd' || verb == 'v') {
			if sg {
				x = r.c.SExt(x, 64)
			} else {
				x = r.c.ZExt(x, 64)
			}
			return r.decimal(x, sg), true
		}
	}
	return lit("<" + i.t.String() + ">"), false
}

func (r *Run) sprintf(g *G, f string, args []Value) (out []*Expr, exact bool) {
	exact = true
	lit := func(s string) { out = append(out, r.strBytes(Str{s: s})...) }
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit(f[i : i+1])
			continue
		}
		i++
		j := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.[]*", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			lit("%!(NOVERB)")
			break
		}
		if f[i] == '%' {
			lit("%")
			continue
		}
		if strings.ContainsAny(f[j:i], "[]*") || f[i] >= 0x80 {
			exact = false
		}
		if k >= len(args) {
			lit("%!" + f[i:i+1] + "(MISSING)")
			continue
		}
		b, ok := r.fmtArg(g, f[j:i], f[i], args[k])
		out = append(out, b...)
		exact = exact && ok
		k++
	}
	if k < len(args) {
		lit("%!(EXTRA)")
		exact = false
	}
	return
}

// sprint is fmt.Sprint (spaces between operands neither of which is a string)
// or, with ln, fmt.Sprintln.
func (r *Run) sprint(g *G, args []Value, ln bool) (out []*Expr, exact bool) {
	exact = true
	prev := true
	for k, x := range args {
		i, _ := x.(Iface)
		isStr := false
		if i.t != nil {
			b, ok := i.t.Underlying().(*types.Basic)
			isStr = ok && b.Info()&types.IsString != 0
		}
		if k > 0 && (ln || !prev && !isStr) {
			out = append(out, r.c.BV(' ', 8))
		}
		prev = isStr
		b, ok := r.fmtArg(g, "", 'v', x)
		out = append(out, b...)
		exact = exact && ok
	}
	if ln {
		out = append(out, r.c.BV('\n', 8))
	}
	return
}

func sl(v Value) []Value {
	s, _ := v.(Slice)
	return s.a
}

func init() {
	// ---- time
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return r.timeVal(r.now) }, "time.Now")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return r.c.Sub(r.now, tns(a[0])) }, "time.Since")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return r.c.Sub(tns(a[0]), r.now) }, "time.Until")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return r.timeVal(r.c.Add(tns(a[0]), a[1].(*Expr))) }, "(time.Time).Add")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return r.c.Sub(tns(a[0]), tns(a[1])) }, "(time.Time).Sub")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return r.c.SLt(tns(a[1]), tns(a[0])) }, "(time.Time).After")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return r.c.SLt(tns(a[0]), tns(a[1])) }, "(time.Time).Before")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return r.c.Eq(tns(a[0]), tns(a[1])) }, "(time.Time).Equal")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		x, y := tns(a[0]), tns(a[1])
		return r.c.Ite(r.c.SLt(x, y), r.i64(-1), r.c.Ite(r.c.SLt(y, x), r.i64(1), r.i64(0)))
	}, "(time.Time).Compare")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return r.c.Eq(tns(a[0]), r.i64(0)) }, "(time.Time).IsZero")
	div := func(k int64) intrinsic {
		return func(r *Run, g *G, fi *fnInfo, a []Value) Value {
			return r.c.divrem(OUDiv, tns(a[0]), r.i64(k))
		}
	}
	reg(div(1e9), "(time.Time).Unix")
	reg(div(1e6), "(time.Time).UnixMilli")
	reg(div(1e3), "(time.Time).UnixMicro")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return tns(a[0]) }, "(time.Time).UnixNano")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return r.c.divrem(OURem, tns(a[0]), r.i64(1e9))
	}, "(time.Time).Nanosecond")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return r.timeVal(r.c.Add(r.c.Mul(a[0].(*Expr), r.i64(1e9)), a[1].(*Expr)))
	}, "time.Unix")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return r.timeVal(r.c.Mul(a[0].(*Expr), r.i64(1e6)))
	}, "time.UnixMilli")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		d := a[1].(*Expr)
		if !d.isConst() {
			panic(unsupported{"Truncate by symbolic duration"})
		}
		if int64(d.val) <= 0 {
			return a[0]
		}
		return r.timeVal(r.c.Sub(tns(a[0]), r.c.divrem(OURem, tns(a[0]), d)))
	}, "(time.Time).Truncate")
	ident := func(r *Run, g *G, fi *fnInfo, a []Value) Value { return a[0] }
	reg(ident, "(time.Time).UTC", "(time.Time).Local", "(time.Time).In", "(time.Time).Round")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return Str{s: "<time>"} }, "(time.Time).String", "(time.Time).Format", "(time.Duration).String")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		r.point(g)
		r.sleep(g, a[0].(*Expr))
		return nil
	}, "time.Sleep")
	newTicker := func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		d := a[0].(*Expr)
		if !r.branch(r.c.SLt(r.i64(0), d)) {
			r.goPanic("non-positive interval for NewTicker")
		}
		return r.mkTimer(fi, "Ticker", d, d, nil)
	}
	reg(newTicker, "time.NewTicker")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		d := a[0].(*Expr)
		p := r.mkTimer(fi, "Ticker", d, d, nil).(*Value)
		return (*p).(Agg)[0]
	}, "time.Tick")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return r.mkTimer(fi, "Timer", a[0].(*Expr), nil, nil) }, "time.NewTimer")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		p := r.mkTimer(fi, "Timer", a[0].(*Expr), nil, nil).(*Value)
		return (*p).(Agg)[0]
	}, "time.After")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return r.mkTimer(fi, "Timer", a[0].(*Expr), nil, a[1])
	}, "time.AfterFunc")
	stop := func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		r.point(g)
		t := r.host[ptrArg(r, a[0])].(*timer)
		was := t.active
		t.active = false
		if t.ch != nil {
			// Go 1.23: no stale values after Stop
			t.ch.buf, t.ch.vc = nil, nil
		}
		r.dropTimers()
		return r.c.Bool(was)
	}
	reg(stop, "(*time.Timer).Stop", "(*time.Ticker).Stop")
	reset := func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		r.point(g)
		t := r.host[ptrArg(r, a[0])].(*timer)
		was := t.active
		d := a[1].(*Expr)
		if t.ch != nil {
			t.ch.buf, t.ch.vc = nil, nil
		}
		t.at = r.c.Add(r.now, d)
		if t.period != nil {
			t.period = d
		}
		t.active = false
		r.dropTimers()
		t.active = r.inHarness
		if t.active {
			r.timers = append(r.timers, t)
		}
		return r.c.Bool(was)
	}
	reg(reset, "(*time.Timer).Reset", "(*time.Ticker).Reset")
	reg(ident, "time.now")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return r.c.Ite(r.c.SLt(a[0].(*Expr), r.i64(0)), r.c.Sub(r.i64(0), a[0].(*Expr)), a[0].(*Expr))
	}, "(time.Duration).Abs")

	// ---- sync
	lk := func(f func(r *Run, g *G, p *Value)) intrinsic {
		return func(r *Run, g *G, fi *fnInfo, a []Value) Value {
			f(r, g, ptrArg(r, a[0]))
			return nil
		}
	}
	reg(lk((*Run).lock), "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*internal/sync.Mutex).Lock")
	reg(lk((*Run).unlock), "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*internal/sync.Mutex).Unlock")
	reg(lk((*Run).rlock), "(*sync.RWMutex).RLock")
	reg(lk((*Run).runlock), "(*sync.RWMutex).RUnlock")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return r.c.Bool(r.tryLock(g, ptrArg(r, a[0]))) }, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*internal/sync.Mutex).TryLock")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		r.wgAdd(g, ptrArg(r, a[0]), a[1].(*Expr))
		return nil
	}, "(*sync.WaitGroup).Add")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		r.wgAdd(g, ptrArg(r, a[0]), r.i64(-1))
		return nil
	}, "(*sync.WaitGroup).Done")
	reg(lk((*Run).wgWait), "(*sync.WaitGroup).Wait")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		p := ptrArg(r, a[0])
		r.wgAdd(g, p, r.i64(1))
		f := a[1]
		r.spawn("wg.Go", func(g *G) {
			r.callValue(g, f, nil)
			r.wgAdd(g, p, r.i64(-1))
		})
		return nil
	}, "(*sync.WaitGroup).Go")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		p := ptrArg(r, a[0])
		r.lock(g, p)
		if r.host[p] == nil {
			defer func() { r.host[p] = true; r.unlock(g, p) }()
			r.callValue(g, a[1], nil)
			return nil
		}
		r.unlock(g, p)
		return nil
	}, "(*sync.Once).Do")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		p := ptrArg(r, a[0])
		nf := (*p).(Agg)
		f := nf[len(nf)-1]
		if st := r.cur.stack; len(st) > 0 && st[len(st)-1].fi.repo {
			// what the code under test puts back comes again
			if held, _ := r.host[p].([]Value); len(held) > 0 {
				m := r.mu(p)
				join(&g.vc, m.vc)
				x := held[len(held)-1]
				r.host[p] = held[: len(held)-1 : len(held)-1]
				return x
			}
		}
		if c, ok := f.(*Closure); ok && c != nil {
			return r.callValue(g, c, nil)
		}
		return Iface{}
	}, "(*sync.Pool).Get")
	nop := func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		if rs := fi.fn.Signature.Results(); rs.Len() == 1 {
			return r.zero(rs.At(0).Type())
		} else if rs.Len() > 1 {
			return r.zero(rs)
		}
		return nil
	}
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		if st := r.cur.stack; len(st) == 0 || !st[len(st)-1].fi.repo {
			return nil
		}
		p := ptrArg(r, a[0])
		m := r.mu(p)
		join(&m.vc, g.vc)
		g.vc[g.id]++
		held, _ := r.host[p].([]Value)
		r.host[p] = append(held[:len(held):len(held)], a[1])
		return nil
	}, "(*sync.Pool).Put")
	reg(nop, "(*strings.Builder).copyCheck", "runtime.SetFinalizer", "runtime.KeepAlive", "runtime.GC", "runtime.AddCleanup", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "runtime/debug.SetGCPercent",
		"(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).Value", "log.Printf", "log.Println", "log.Print", "fmt.Println", "fmt.Printf", "fmt.Print", "crypto/internal/fips140only.Enforced", "sync.runtime_registerPoolCleanup")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		r.point(g)
		return nil
	}, "runtime.Gosched")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		panic(&goPanicV{val: Iface{}, msg: "Goexit", exit: true})
	}, "runtime.Goexit")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return r.i64(8) }, "runtime.GOMAXPROCS", "runtime.NumCPU")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return r.i64(4096) }, "syscall.Getpagesize", "os.Getpagesize")

	// ---- sync/atomic
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg(atLoad, "sync/atomic.Load"+ty)
		reg(atStore, "sync/atomic.Store"+ty)
		reg(atSwap, "sync/atomic.Swap"+ty)
		reg(atCAS, "sync/atomic.CompareAndSwap"+ty)
		if ty != "Pointer" {
			reg(atAdd, "sync/atomic.Add"+ty)
			reg(atBit, "sync/atomic.And"+ty, "sync/atomic.Or"+ty)
		}
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Bool", "Pointer[T]"} {
		f := func(in intrinsic) intrinsic {
			return func(r *Run, g *G, fi *fnInfo, a []Value) Value {
				p := ptrArg(r, a[0])
				ag := (*p).(Agg)
				b := append([]Value(nil), a...)
				b[0] = &ag[len(ag)-1]
				return in(r, g, fi, b)
			}
		}
		fb := func(in intrinsic) intrinsic { // Bool is stored as uint32
			if ty != "Bool" {
				return f(in)
			}
			return f(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
				for i := 1; i < len(a); i++ {
					a[i] = r.c.Ite(a[i].(*Expr), r.c.BV(1, 32), r.c.BV(0, 32))
				}
				v := in(r, g, fi, a)
				if e, ok := v.(*Expr); ok && e.w == 32 {
					return r.c.Not(r.c.Eq(e, r.c.BV(0, 32)))
				}
				return v
			})
		}
		n := "(*sync/atomic." + ty + ")."
		reg(fb(atLoad), n+"Load")
		reg(fb(atStore), n+"Store")
		reg(fb(atSwap), n+"Swap")
		reg(fb(atCAS), n+"CompareAndSwap")
		if ty != "Bool" && ty != "Pointer[T]" {
			reg(f(atAdd), n+"Add")
		}
	}
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		p := ptrArg(r, a[0])
		r.atomicSync(g, p)
		return (*p).(Agg)[0]
	}, "(*sync/atomic.Value).Load")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		p := ptrArg(r, a[0])
		r.atomicSync(g, p)
		(*p).(Agg)[0] = a[1]
		return nil
	}, "(*sync/atomic.Value).Store")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		p := ptrArg(r, a[0])
		r.atomicSync(g, p)
		o := (*p).(Agg)[0]
		(*p).(Agg)[0] = a[1]
		return o
	}, "(*sync/atomic.Value).Swap")

	// ---- crypto
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		hv := r.callValue(g, a[0], nil).(Iface)
		h, ok := hv.v.(HostObj)
		if !ok {
			panic(unsupported{"hmac over a custom hash"})
		}
		return Iface{t: r.P.hostHash, v: HostObj{"hmac", &hmacObj{hash: strings.TrimPrefix(h.x.(*hmacObj).hash, "h:"), key: r.bytesOf(a[1])}}}
	}, "crypto/hmac.New")
	eqb := func(r *Run, x, y Value) *Expr {
		if len(sl(x)) != len(sl(y)) {
			return r.c.tFalse
		}
		return r.exprsEq(r.bytesOf(x), r.bytesOf(y))
	}
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return eqb(r, a[0], a[1]) }, "crypto/hmac.Equal", "bytes.Equal", "internal/bytealg.Equal")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return r.c.Ite(eqb(r, a[0], a[1]), r.i64(1), r.i64(0))
	}, "crypto/subtle.ConstantTimeCompare", "crypto/internal/fips140/subtle.ConstantTimeCompare")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		n := hashByNum[r.concretize(a[0].(*Expr), 20, "hash")]
		return r.c.Bool(n != "" && r.P.closure[hashPkg[n]])
	}, "(crypto.Hash).Available")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		n := hashByNum[r.concretize(a[0].(*Expr), 20, "hash")]
		if n == "" || !r.P.closure[hashPkg[n]] {
			r.goPanic("crypto: requested hash function #" + n + " is unavailable")
		}
		return r.newHash(n)
	}, "(crypto.Hash).New")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		n := hashByNum[r.concretize(a[0].(*Expr), 20, "hash")]
		return r.i64(int64(hashSizes[n]))
	}, "(crypto.Hash).Size")
	for n, fs := range map[string][]string{"MD5": {"crypto/md5.New"}, "SHA1": {"crypto/sha1.New"}, "SHA224": {"crypto/sha256.New224"}, "SHA256": {"crypto/sha256.New"}, "SHA384": {"crypto/sha512.New384"}, "SHA512": {"crypto/sha512.New"}} {
		n := n
		reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return r.newHash(n) }, fs...)
	}
	for n, f := range map[string]string{"MD5": "crypto/md5.Sum", "SHA1": "crypto/sha1.Sum", "SHA256": "crypto/sha256.Sum256", "SHA512": "crypto/sha512.Sum512"} {
		n := n
		reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
			t := r.mac("h:"+n, nil, r.bytesOf(a[0]))
			ag := make(Agg, len(t))
			for i := range t {
				ag[i] = t[i]
			}
			return ag
		}, f)
	}
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		s := a[0].(Slice)
		u := r.freshUnique("rand", len(s.a))
		for i := range s.a {
			s.a[i] = u[i]
		}
		return Tuple{r.i64(int64(len(s.a))), Iface{}}
	}, "crypto/rand.Read", "math/rand.Read")
	uu := func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		b := r.freshUnique("uuid", 16)
		ag := make(Agg, 16)
		for i := range ag {
			ag[i] = b[i]
		}
		if fi.fn.Signature.Results().Len() == 1 {
			return ag
		}
		return Tuple{ag, Iface{}}
	}
	reg(uu, "github.com/google/uuid.NewUUID", "github.com/google/uuid.NewRandom", "github.com/google/uuid.New")

	// ---- errors
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return r.c.Bool(r.errorsIs(g, a[0].(Iface), a[1].(Iface)))
	}, "errors.Is")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		e := a[0].(Iface)
		if e.t == nil {
			return Iface{}
		}
		m := r.errMethod(e, "Unwrap")
		if m == nil {
			return Iface{}
		}
		v, ok := r.callValue(g, m, []Value{e.v}).(Iface)
		if !ok {
			return Iface{}
		}
		return v
	}, "errors.Unwrap")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		err := a[0].(Iface)
		tp := a[1].(Iface)
		tt := tp.t.Underlying().(*types.Pointer).Elem()
		for err.t != nil {
			ok := false
			if it, isI := tt.Underlying().(*types.Interface); isI {
				ok = r.implements(err, it)
				if ok {
					storeInto(tp.v.(*Value), err)
				}
			} else if types.Identical(err.t, tt) {
				ok = true
				storeInto(tp.v.(*Value), err.v)
			}
			if ok {
				return r.c.tTrue
			}
			m := r.errMethod(err, "Unwrap")
			if m == nil {
				break
			}
			n, ok2 := r.callValue(g, m, []Value{err.v}).(Iface)
			if !ok2 {
				break
			}
			err = n
		}
		return r.c.tFalse
	}, "errors.As")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		f := "<sym>"
		if s := a[0].(Str); s.b == nil {
			f = s.s
		}
		args := sl(a[1])
		t, _ := r.sprintf(g, f, args)
		e := &hostError{text: t}
		if strings.Contains(f, "%w") {
			for _, x := range args {
				if i, ok := x.(Iface); ok && i.t != nil && (isHost(i.v) || isErrorType(i.t)) {
					e.wrap = append(e.wrap, i)
				}
			}
		}
		return Iface{t: r.P.hostErr, v: HostObj{"error", e}}
	}, "fmt.Errorf")
	exactly := func(out []*Expr, exact bool) []*Expr {
		if !exact {
			panic(unsupported{"formatted text"})
		}
		return out
	}
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return mkStr(exactly(r.sprintf(g, r.str(a[0]), sl(a[1]))))
	}, "fmt.Sprintf")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return mkStr(exactly(r.sprint(g, sl(a[0]), false))) }, "fmt.Sprint")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return mkStr(exactly(r.sprint(g, sl(a[0]), true))) }, "fmt.Sprintln")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return Slice{append(sl(a[0]), r.mkBytes(exactly(r.sprintf(g, r.str(a[1]), sl(a[2])))).a...)}
	}, "fmt.Appendf")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return Slice{append(sl(a[0]), r.mkBytes(exactly(r.sprint(g, sl(a[1]), false))).a...)}
	}, "fmt.Append")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return Slice{append(sl(a[0]), r.mkBytes(exactly(r.sprint(g, sl(a[1]), true))).a...)}
	}, "fmt.Appendln")
	fprint := func(text func(r *Run, g *G, a []Value) ([]*Expr, bool)) intrinsic {
		return func(r *Run, g *G, fi *fnInfo, a []Value) Value {
			b := r.mkBytes(exactly(text(r, g, a[1:])))
			w := a[0].(Iface)
			return r.callValue(g, r.method(w, r.P.ioWrite), []Value{w.v, b})
		}
	}
	reg(fprint(func(r *Run, g *G, a []Value) ([]*Expr, bool) { return r.sprintf(g, r.str(a[0]), sl(a[1])) }), "fmt.Fprintf")
	reg(fprint(func(r *Run, g *G, a []Value) ([]*Expr, bool) { return r.sprint(g, sl(a[0]), false) }), "fmt.Fprint")
	reg(fprint(func(r *Run, g *G, a []Value) ([]*Expr, bool) { return r.sprint(g, sl(a[0]), true) }), "fmt.Fprintln")

	// ---- strings / bytes kernels: exact, without per-byte forking overhead
	idxByte := func(r *Run, bs []*Expr, c *Expr, last bool) Value {
		if last {
			for i := len(bs) - 1; i >= 0; i-- {
				if r.branch(r.c.Eq(bs[i], c)) {
					return r.i64(int64(i))
				}
			}
			return r.i64(-1)
		}
		for i := range bs {
			if r.branch(r.c.Eq(bs[i], c)) {
				return r.i64(int64(i))
			}
		}
		return r.i64(-1)
	}
	sub := func(r *Run, hay, nd []*Expr, last bool) Value {
		n := len(nd)
		try := func(i int) bool { return r.branch(r.exprsEq(hay[i:i+n], nd)) }
		if last {
			for i := len(hay) - n; i >= 0; i-- {
				if try(i) {
					return r.i64(int64(i))
				}
			}
			return r.i64(-1)
		}
		for i := 0; i+n <= len(hay); i++ {
			if try(i) {
				return r.i64(int64(i))
			}
		}
		return r.i64(-1)
	}
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return idxByte(r, r.strBytes(a[0].(Str)), a[1].(*Expr), false)
	}, "strings.IndexByte", "internal/bytealg.IndexByteString", "internal/stringslite.IndexByte")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return idxByte(r, r.strBytes(a[0].(Str)), a[1].(*Expr), true)
	}, "strings.LastIndexByte", "internal/bytealg.LastIndexByteString")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return idxByte(r, r.bytesOf(a[0]), a[1].(*Expr), false)
	}, "bytes.IndexByte", "internal/bytealg.IndexByte")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return idxByte(r, r.bytesOf(a[0]), a[1].(*Expr), true)
	}, "bytes.LastIndexByte", "internal/bytealg.LastIndexByte")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return sub(r, r.strBytes(a[0].(Str)), r.strBytes(a[1].(Str)), false)
	}, "strings.Index", "internal/stringslite.Index", "internal/bytealg.IndexString")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return sub(r, r.strBytes(a[0].(Str)), r.strBytes(a[1].(Str)), true)
	}, "strings.LastIndex")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return sub(r, r.bytesOf(a[0]), r.bytesOf(a[1]), false)
	}, "bytes.Index")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		return sub(r, r.bytesOf(a[0]), r.bytesOf(a[1]), true)
	}, "bytes.LastIndex")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		s, p := a[0].(Str), a[1].(Str)
		if p.len() > s.len() {
			return r.c.tFalse
		}
		return r.strEq(s.sub(0, p.len()), p)
	}, "strings.HasPrefix", "internal/stringslite.HasPrefix")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		s, p := a[0].(Str), a[1].(Str)
		if p.len() > s.len() {
			return r.c.tFalse
		}
		return r.strEq(s.sub(s.len()-p.len(), s.len()), p)
	}, "strings.HasSuffix", "internal/stringslite.HasSuffix")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		n := int64(0)
		for _, b := range r.strBytes(a[0].(Str)) {
			if r.branch(r.c.Eq(b, a[1].(*Expr))) {
				n++
			}
		}
		return r.i64(n)
	}, "internal/bytealg.CountString")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		n := int64(0)
		for _, b := range r.bytesOf(a[0]) {
			if r.branch(r.c.Eq(b, a[1].(*Expr))) {
				n++
			}
		}
		return r.i64(n)
	}, "internal/bytealg.Count")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		x, y := r.bytesStr(sl(a[0])), r.bytesStr(sl(a[1]))
		return r.c.Ite(r.strLt(x, y), r.i64(-1), r.c.Ite(r.strEq(x, y), r.i64(0), r.i64(1)))
	}, "bytes.Compare", "internal/bytealg.Compare")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		x, y := a[0].(Str), a[1].(Str)
		return r.c.Ite(r.strLt(x, y), r.i64(-1), r.c.Ite(r.strEq(x, y), r.i64(0), r.i64(1)))
	}, "strings.Compare", "internal/bytealg.CompareString")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		n := int(r.concretize(a[0].(*Expr), 64, "MakeNoZero"))
		return r.constBytes(strings.Repeat("\x00", n))
	}, "internal/bytealg.MakeNoZero")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return a[0] }, "strings.Clone", "internal/stringslite.Clone")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return a[0] }, "internal/abi.NoEscape", "strings.noescape", "internal/abi.Escape")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value {
		p := ptrArg(r, a[0])
		ag := (*p).(Agg)
		s, _ := ag[len(ag)-1].(Slice)
		return r.bytesStr(s.a)
	}, "(*strings.Builder).String")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return r.bytesStr(sl(a[0])) }, "github.com/go-redis/redis/v8/internal/util.BytesToString")
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return r.mkBytes(r.strBytes(a[0].(Str))) }, "github.com/go-redis/redis/v8/internal/util.StringToBytes")

	// ---- misc runtime
	reg(func(r *Run, g *G, fi *fnInfo, a []Value) Value { return Str{s: "frame"} }, "runtime.Callers")
}

func (r *Run) mkTimer(fi *fnInfo, typ string, d, period *Expr, fn Value) Value {
	T := r.P.timeType(typ)
	p := new(Value)
	*p = r.zero(T)
	r.seq++
	t := &timer{at: r.c.Add(r.now, d), period: period, fn: fn, seq: r.seq, active: r.inHarness, obj: p}
	if fn == nil {
		t.ch = r.makeChan(1, r.P.timeType("Time"))
		(*p).(Agg)[0] = t.ch
	}
	r.host[p] = t
	if t.active {
		r.timers = append(r.timers, t)
	}
	return p
}

func atLoad(r *Run, g *G, fi *fnInfo, a []Value) Value {
	p := ptrArg(r, a[0])
	r.atomicSync(g, p)
	r.raceAtomic(p, false)
	return copyVal(*p)
}
func atStore(r *Run, g *G, fi *fnInfo, a []Value) Value {
	p := ptrArg(r, a[0])
	r.atomicSync(g, p)
	r.raceAtomic(p, true)
	*p = a[1]
	return nil
}
func atSwap(r *Run, g *G, fi *fnInfo, a []Value) Value {
	p := ptrArg(r, a[0])
	r.atomicSync(g, p)
	r.raceAtomic(p, true)
	o := *p
	*p = a[1]
	return o
}
func atCAS(r *Run, g *G, fi *fnInfo, a []Value) Value {
	p := ptrArg(r, a[0])
	r.atomicSync(g, p)
	r.raceAtomic(p, true)
	var eq *Expr
	if x, ok := (*p).(*Expr); ok {
		eq = r.c.Eq(x, a[1].(*Expr))
	} else {
		eq = r.c.Bool(*p == a[1])
	}
	if r.branch(eq) {
		*p = a[2]
		return r.c.tTrue
	}
	return r.c.tFalse
}
func atAdd(r *Run, g *G, fi *fnInfo, a []Value) Value {
	p := ptrArg(r, a[0])
	r.atomicSync(g, p)
	r.raceAtomic(p, true)
	v := r.c.Add((*p).(*Expr), a[1].(*Expr))
	*p = v
	return v
}
func atBit(r *Run, g *G, fi *fnInfo, a []Value) Value {
	p := ptrArg(r, a[0])
	r.atomicSync(g, p)
	r.raceAtomic(p, true)
	o := (*p).(*Expr)
	if strings.Contains(fi.name, ".And") {
		*p = r.c.BAnd(o, a[1].(*Expr))
	} else {
		*p = r.c.BOr(o, a[1].(*Expr))
	}
	return o
}

// raceAtomic: an atomic access conflicts with plain accesses not ordered with
// it, but never with another atomic access.
func (r *Run) raceAtomic(p *Value, write bool) {
	if !r.raceOn {
		return
	}
	ok, at := r.raceHere()
	if !ok {
		return
	}
	s := r.shadow[p]
	if s == nil {
		s = &shadowCell{w: -1}
		r.shadow[p] = s
	}
	g := r.cur
	m := &s.ar
	if write {
		m = &s.aw
	}
	if *m == nil {
		*m = map[int]int32{}
	}
	(*m)[g.id] = g.vc.get(g.id)
	if s.w >= 0 && s.w != g.id && g.vc.get(s.w) < s.wc {
		r.endViolate("race", fmt.Sprintf("data race: atomic access by goroutine %d in %s against write by goroutine %d in %s", g.id, at, s.w, s.wAt))
	}
	if write {
		for id, c := range s.rs {
			if id != g.id && g.vc.get(id) < c {
				r.endViolate("race", fmt.Sprintf("data race: atomic write by goroutine %d in %s against read by goroutine %d in %s", g.id, at, id, s.rAt))
			}
		}
	}
}
