package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   Value
	args []Value
	in   *inst
}

type frame struct {
	r        *Run
	g        *G
	fi       *fnInfo
	env      []Value
	defers   []deferred
	pos      token.Pos
	result   Value
	panicing *goPanicV
	recov    bool
	caller   *frame
}

func (r *Run) goPanic(msg string) {
	panic(&goPanicV{val: Iface{t: r.P.rtErr, v: Str{s: msg}}, msg: msg, where: r.where()})
}

func (fr *frame) get(o *opnd) Value {
	switch o.kind {
	case oSlot:
		return fr.env[o.slot]
	case oConst:
		if o.v != nil {
			return o.v
		}
		if o.num {
			if o.w == 0 {
				return fr.r.c.Bool(o.u == 1)
			}
			return fr.r.c.BV(o.u, o.w)
		}
		if o.c == nil {
			return nil
		}
		return fr.r.zero(o.c.Type())
	case oGlobal:
		return fr.r.global(o.g)
	case oFunc:
		return o.v
	}
	return o.b
}

func (r *Run) global(g *ssa.Global) *Value {
	if p, ok := r.globals[g]; ok {
		return p
	}
	p := new(Value)
	*p = r.zero(g.Type().Underlying().(*types.Pointer).Elem())
	r.globals[g] = p
	if g.Pkg != nil && g.Name() != "init$guard" {
		r.ensureInit(g.Pkg)
	}
	return p
}

// ensureInit runs the initialiser of a package the first time one of its
// functions or variables is used.
func (r *Run) ensureInit(p *ssa.Package) {
	if r.inited[p] != 0 {
		return
	}
	r.inited[p] = 1
	if skipInit(p.Pkg.Path()) {
		return
	}
	f := p.Func("init")
	if f == nil {
		return
	}
	if sharedInit[p.Pkg.Path()] {
		if m := r.X.shared(p, f); m != nil {
			for g, v := range m {
				if r.globals[g] == nil {
					r.globals[g] = v
				}
			}
			r.inited[p] = 2
			return
		}
	}
	h := r.inHarness
	r.inHarness = false
	ex := r.explore
	r.explore = false
	// an initialiser runs before any goroutine does, whenever it is run here
	race := r.raceOn
	r.raceOn = false
	func() {
		defer func() {
			if x := recover(); x != nil {
				if u, ok := x.(unsupported); ok && !r.P.isRepo(p.Pkg.Path()) && !r.P.isModel(p.Pkg.Path()) {
					r.X.note("partial init of " + p.Pkg.Path() + ": " + u.msg)
					return
				}
				panic(x)
			}
		}()
		if initDebug {
			t := r.steps
			defer func() { fmt.Fprintln(os.Stderr, "init", p.Pkg.Path(), r.steps-t) }()
		}
		r.call(r.cur, f, nil, nil)
	}()
	r.inHarness = h
	r.explore = ex
	r.raceOn = race
	r.inited[p] = 2
}

// sharedInit lists packages whose variables are tables nobody changes: they are
// initialised once for all paths.
var sharedInit = map[string]bool{"internal/strconv": true, "strconv": true, "math/bits": true}

type shared struct {
	once sync.Once
	vars map[*ssa.Global]*Value
}

func (X *Explorer) shared(p *ssa.Package, f *ssa.Function) map[*ssa.Global]*Value {
	x, _ := X.P.inits.LoadOrStore(p, &shared{})
	s := x.(*shared)
	s.once.Do(func() {
		defer func() {
			if recover() != nil {
				s.vars = nil
			}
		}()
		r := X.newRun(item{}, nil)
		// constants made here are told apart from those of any path
		r.c.nextID = 1<<30 + atomic.AddUint32(&X.P.ninits, 1)<<20
		r.cur = r.newG("init")
		r.inited[p] = 1
		r.call(r.cur, f, nil, nil)
		vars := map[*ssa.Global]*Value{}
		for g, v := range r.globals {
			if g.Pkg == p {
				vars[g] = v
			}
		}
		s.vars = vars
	})
	return s.vars
}

var initDebug = os.Getenv("SYMGO_INIT") != ""

func skipInit(path string) bool {
	if strings.HasPrefix(path, "go.opentelemetry.io/") {
		return true
	}
	switch path {
	case "runtime", "reflect", "syscall", "os", "internal/cpu", "internal/poll", "internal/godebug", "internal/bisect",
		"crypto/tls", "crypto/x509", "net", "net/http", "internal/syscall/unix", "time", "internal/testlog", "os/signal", "fmt", "encoding/gob", "encoding/json", "encoding/xml", "testing", "unicode", "crypto/internal/fips140", "crypto/fips140", "github.com/google/uuid", "math/big", "vendor/golang.org/x/net/http/httpproxy", "log":
		return true
	}
	return false
}

func (r *Run) callValue(g *G, f Value, args []Value) Value {
	c, ok := f.(*Closure)
	if !ok || c == nil {
		r.goPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	if c.hst != nil {
		return c.hst(r, g, args)
	}
	return r.call(g, c.fn, args, c.env)
}

func (r *Run) call(g *G, fn *ssa.Function, args, env []Value) Value {
	fi := r.P.info(fn)
	if fi.redir != nil {
		r.ensureInit(fnPkg(fi.redir))
		return r.call(g, fi.redir, args, nil)
	}
	if fi.intr != nil {
		return fi.intr(r, g, fi, args)
	}
	if fi.pkg != nil {
		if fi.isInit {
			if r.inited[fi.pkg] == 0 {
				// a dependency's initialiser called from an initialiser
				if r.P.eager(fi.pkg.Pkg.Path()) {
					r.ensureInit(fi.pkg)
				}
				return nil
			} else if r.inited[fi.pkg] == 2 {
				return nil
			}
		} else if r.inited[fi.pkg] == 0 {
			r.ensureInit(fi.pkg)
		}
	}
	if fn.Blocks == nil {
		panic(unsupported{"no body: " + fn.String()})
	}
	if g.depth > 400 {
		panic(unsupported{"recursion depth in " + fn.String()})
	}
	if fi.repo && !r.funcs[fn] {
		r.funcs[fn] = true
	}
	fr := &frame{r: r, g: g, fi: fi, env: make([]Value, fi.nslots)}
	for i, s := range fi.params {
		fr.env[s] = args[i]
	}
	for i, s := range fi.fvs {
		fr.env[s] = env[i]
	}
	g.stack = append(g.stack, fr)
	g.depth++
	n := len(g.stack)
	if fi.hasDef {
		fr.runWithDefers()
	} else {
		fr.run(0)
	}
	g.stack = g.stack[:n-1]
	g.depth = n - 1
	return fr.result
}

func (fr *frame) runWithDefers() {
	g := fr.g
	n := len(g.stack)
	func() {
		defer func() {
			x := recover()
			if x == nil {
				return
			}
			p, ok := x.(*goPanicV)
			if !ok {
				panic(x)
			}
			g.stack = g.stack[:n]
			fr.panicing = p
		}()
		fr.run(0)
	}()
	if fr.panicing == nil {
		return
	}
	fr.runDefers()
	if fr.panicing != nil {
		panic(fr.panicing)
	}
	// recovered: execute the recover block, or return zero results
	if rb := fr.fi.fn.Recover; rb != nil {
		fr.run(rb.Index)
		return
	}
	sig := fr.fi.fn.Signature.Results()
	switch sig.Len() {
	case 0:
	case 1:
		fr.result = fr.r.zero(sig.At(0).Type())
	default:
		fr.result = fr.r.zero(sig)
	}
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			n := len(fr.g.stack)
			defer func() {
				x := recover()
				if x == nil {
					return
				}
				p, ok := x.(*goPanicV)
				if !ok {
					panic(x)
				}
				fr.g.stack = fr.g.stack[:n]
				fr.panicing = p
			}()
			fr.invokeDeferred(d)
		}()
	}
}

func (fr *frame) invokeDeferred(d deferred) {
	if b, ok := d.fn.(*ssa.Builtin); ok {
		fr.builtin(b, d.in, d.args)
		return
	}
	fr.r.callValue(fr.g, d.fn, d.args)
}

// doRecover implements recover() called from a deferred function.
func (fr *frame) doRecover() Value {
	st := fr.g.stack
	// the frame below the one calling recover
	for i := len(st) - 2; i >= 0; i-- {
		f := st[i]
		if f.panicing != nil {
			if f.panicing.exit {
				return Iface{}
			}
			p := f.panicing
			f.panicing = nil
			return p.val
		}
		break
	}
	return Iface{}
}

func (fr *frame) run(start int) {
	r := fr.r
	bi := start
	prev := -1
	fi := fr.fi
	var tmp [8]Value
	for {
		b := &fi.blocks[bi]
		if len(b.phis) > 0 {
			pi := 0
			for i, p := range b.b.Preds {
				if p.Index == prev {
					pi = i
					break
				}
			}
			vals := tmp[:0]
			for i := range b.phis {
				vals = append(vals, fr.get(&b.phis[i].ops[pi]))
			}
			for i := range b.phis {
				fr.env[b.phis[i].dst] = vals[i]
			}
		}
		r.steps += int64(len(b.insts))
		if r.steps > r.nextLook {
			r.look()
		}
		if r.steps > r.limit {
			r.end(endLimit, "instruction limit")
		}
		next := -1
		for ii := range b.insts {
			in := &b.insts[ii]
			if in.pos.IsValid() {
				fr.pos = in.pos
			}
			switch x := in.in.(type) {
			case *ssa.Jump:
				next = b.b.Succs[0].Index
			case *ssa.If:
				c := fr.get(&in.ops[0]).(*Expr)
				if r.branch(c) {
					next = b.b.Succs[0].Index
				} else {
					next = b.b.Succs[1].Index
				}
			case *ssa.Return:
				switch len(in.ops) {
				case 0:
				case 1:
					fr.result = fr.get(&in.ops[0])
				default:
					t := make(Tuple, len(in.ops))
					for i := range in.ops {
						t[i] = fr.get(&in.ops[i])
					}
					fr.result = t
				}
				return
			case *ssa.Panic:
				v := fr.get(&in.ops[0])
				panic(&goPanicV{val: v, msg: r.panicText(v), where: r.where()})
			default:
				fr.step(in, x)
			}
		}
		prev, bi = bi, next
	}
}

func (r *Run) panicText(v Value) string {
	if i, ok := v.(Iface); ok {
		if s, ok := i.v.(Str); ok && s.b == nil {
			return s.s
		}
		if i.t != nil {
			return "value of type " + i.t.String()
		}
	}
	return fmt.Sprintf("%T", v)
}

// SymPtr is a pointer to an element chosen by a symbolic index.
type SymPtr struct {
	a   []Value
	idx *Expr
}

func (r *Run) nilDeref() {
	r.goPanic("runtime error: invalid memory address or nil pointer dereference")
}

func (r *Run) load(p Value) Value {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			r.nilDeref()
		}
		if r.raceOn {
			r.raceAccess(p, false)
		}
		v := *p
		switch x := v.(type) {
		case Agg:
			return copyVal(x)
		case poison:
			r.poisonUse(x)
		}
		return v
	case SymPtr:
		return r.symIndex(p.a, p.idx)
	case SlicePtr:
		if len(p.a) > p.k {
			return p.a[p.k]
		}
	}
	panic(unsupported{fmt.Sprintf("load through %T", p)})
}

func (r *Run) store(p Value, v Value) {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			r.nilDeref()
		}
		if r.raceOn {
			r.raceAccess(p, true)
		}
		if x, ok := (*p).(poison); ok {
			r.poisonUse(x)
		}
		storeInto(p, v)
		return
	case SymPtr:
		e, ok := v.(*Expr)
		if !ok {
			i := r.concretize(p.idx, 64, "store index")
			storeInto(&p.a[i], v)
			return
		}
		for i := range p.a {
			p.a[i] = r.c.Ite(r.c.Eq(p.idx, r.c.BV(uint64(i), p.idx.w)), e, p.a[i].(*Expr))
		}
		return
	}
	panic(unsupported{fmt.Sprintf("store through %T", p)})
}

// symIndex reads a[idx]; idx is known to be in range.
func (r *Run) symIndex(a []Value, idx *Expr) Value {
	allc := len(a) > 0
	alle := len(a) > 0
	var w uint8
	for _, v := range a {
		e, ok := v.(*Expr)
		if !ok {
			allc, alle = false, false
			break
		}
		w = e.w
		if !e.isConst() {
			allc = false
		}
	}
	if allc && w > 0 && len(a) <= 4096 {
		vals := make([]uint64, len(a))
		for i, v := range a {
			vals[i] = v.(*Expr).val
		}
		return r.tblRead(vals, idx, w)
	}
	if alle && len(a) <= 64 {
		res := a[len(a)-1].(*Expr)
		for i := len(a) - 2; i >= 0; i-- {
			res = r.c.Ite(r.c.Eq(idx, r.c.BV(uint64(i), idx.w)), a[i].(*Expr), res)
		}
		return res
	}
	i := r.concretize(idx, 300, "index")
	return copyVal(a[i])
}

func (r *Run) tblRead(vals []uint64, idx *Expr, w uint8) *Expr {
	// narrow the index to the bits the table needs
	need := uint8(1)
	for (1 << need) < len(vals) {
		need++
	}
	e := idx
	for e.op == OZExt {
		e = e.args[0]
	}
	if e.w > 12 {
		e = r.c.Extract(e, need-1, 0)
	}
	return r.c.Tbl(vals, e, w)
}

func (r *Run) boundsCheck(idx *Expr, n int, sg bool) {
	ok := r.c.ULt(idx, r.c.BV(uint64(n), idx.w))
	if idx.w < 64 && uint64(n) > mask(idx.w) {
		if !sg {
			return
		}
		ok = r.c.SLe(r.c.BV(0, idx.w), idx)
	}
	if !r.branch(ok) {
		r.goPanic("runtime error: index out of range")
	}
}

func (fr *frame) step(in *inst, x ssa.Instruction) {
	r := fr.r
	switch x := x.(type) {
	case *ssa.Alloc:
		p := new(Value)
		*p = r.zero(x.Type().Underlying().(*types.Pointer).Elem())
		fr.env[in.dst] = p
	case *ssa.UnOp:
		fr.env[in.dst] = fr.unop(in, x)
	case *ssa.BinOp:
		fr.env[in.dst] = r.binop(x.Op, in, fr.get(&in.ops[0]), fr.get(&in.ops[1]))
	case *ssa.Call:
		fn, args := fr.prepareCall(in, &x.Call)
		var v Value
		if b, ok := fn.(*ssa.Builtin); ok {
			v = fr.builtin(b, in, args)
		} else {
			v = r.callValue(fr.g, fn, args)
		}
		fr.env[in.dst] = v
	case *ssa.ChangeInterface, *ssa.ChangeType:
		fr.env[in.dst] = fr.get(&in.ops[0])
	case *ssa.Convert:
		fr.env[in.dst] = fr.convert(in, x.X.Type(), x.Type(), fr.get(&in.ops[0]))
	case *ssa.MultiConvert:
		in2 := *in
		in2.w, in2.sg, _ = width(x.Type())
		in2.w2, in2.sg2, _ = width(x.X.Type())
		fr.env[in.dst] = fr.convert(&in2, x.X.Type(), x.Type(), fr.get(&in.ops[0]))
	case *ssa.Extract:
		fr.env[in.dst] = fr.get(&in.ops[0]).(Tuple)[x.Index]
	case *ssa.Field:
		fr.env[in.dst] = fr.get(&in.ops[0]).(Agg)[x.Field]
	case *ssa.FieldAddr:
		p, ok := fr.get(&in.ops[0]).(*Value)
		if !ok {
			panic(unsupported{fmt.Sprintf("field of %T in %s", fr.get(&in.ops[0]), fr.fi.name)})
		}
		if p == nil {
			r.nilDeref()
		}
		a, ok := (*p).(Agg)
		if !ok {
			panic(unsupported{fmt.Sprintf("field of %T (%s) in %s", *p, x.X.Type(), fr.fi.name)})
		}
		fr.env[in.dst] = &a[x.Field]
	case *ssa.Index:
		v := fr.get(&in.ops[0])
		idx := fr.get(&in.ops[1]).(*Expr)
		switch a := v.(type) {
		case Agg:
			r.boundsCheck(idx, len(a), in.sg2)
			if idx.isConst() {
				fr.env[in.dst] = a[idx.val]
			} else {
				fr.env[in.dst] = r.symIndex(a, idx)
			}
		case Str:
			fr.env[in.dst] = r.strIndex(a, idx, in.sg2)
		default:
			panic(unsupported{fmt.Sprintf("index of %T", v)})
		}
	case *ssa.IndexAddr:
		v := fr.get(&in.ops[0])
		idx := fr.get(&in.ops[1]).(*Expr)
		var a []Value
		switch y := v.(type) {
		case Slice:
			a = y.a
		case *Value:
			if y == nil {
				r.nilDeref()
			}
			a = (*y).(Agg)
		default:
			panic(unsupported{fmt.Sprintf("indexaddr of %T", v)})
		}
		r.boundsCheck(idx, len(a), in.sg2)
		if idx.isConst() {
			fr.env[in.dst] = &a[idx.val]
		} else {
			fr.env[in.dst] = SymPtr{a, r.c.ZExt(idx, 64)}
		}
	case *ssa.Lookup:
		v := fr.get(&in.ops[0])
		switch m := v.(type) {
		case Str:
			w, sg, _ := width(x.Index.Type())
			_ = w
			fr.env[in.dst] = r.strIndex(m, fr.get(&in.ops[1]).(*Expr), sg)
		case *MapObj:
			if r.raceOn {
				r.raceMap(m, false)
			}
			e := r.mapFind(m, fr.get(&in.ops[1]))
			var val Value
			if e != nil {
				val = copyVal(e.v)
			} else {
				val = r.zero(x.X.Type().Underlying().(*types.Map).Elem())
			}
			if x.CommaOk {
				fr.env[in.dst] = Tuple{val, r.c.Bool(e != nil)}
			} else {
				fr.env[in.dst] = val
			}
		default:
			panic(unsupported{fmt.Sprintf("lookup in %T", v)})
		}
	case *ssa.MakeChan:
		n := r.concretize(fr.get(&in.ops[0]).(*Expr), 16, "chan size")
		if int64(n) < 0 || n > 1<<20 {
			r.goPanic("makechan: size out of range")
		}
		fr.env[in.dst] = r.makeChan(int(n), x.Type().Underlying().(*types.Chan).Elem())
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for i := range x.Bindings {
			c.env = append(c.env, fr.get(&in.ops[i+1]))
		}
		fr.env[in.dst] = c
	case *ssa.MakeInterface:
		fr.env[in.dst] = Iface{t: x.X.Type(), v: copyVal(fr.get(&in.ops[0]))}
	case *ssa.MakeMap:
		fr.env[in.dst] = newMap(x.Type().Underlying().(*types.Map))
	case *ssa.MakeSlice:
		l := r.concretize(fr.get(&in.ops[0]).(*Expr), 64, "slice len")
		c := l
		if ce := fr.get(&in.ops[1]).(*Expr); ce != fr.get(&in.ops[0]) {
			c = r.concretize(ce, 64, "slice cap")
		}
		if int64(l) < 0 || int64(l) > 1<<31 {
			r.goPanic("runtime error: makeslice: len out of range")
		}
		if int64(c) < int64(l) || int64(c) > 1<<31 {
			r.goPanic("runtime error: makeslice: cap out of range")
		}
		if c > 1<<20 {
			panic(unsupported{"huge slice"})
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		a := make([]Value, c)
		z := r.zero(el)
		_, agg := z.(Agg)
		for i := range a {
			if agg {
				a[i] = copyVal(z)
			} else {
				a[i] = z
			}
		}
		fr.env[in.dst] = Slice{a[:l:c]}
	case *ssa.Next:
		fr.env[in.dst] = fr.next(fr.get(&in.ops[0]).(*Iter), x)
	case *ssa.Range:
		switch m := fr.get(&in.ops[0]).(type) {
		case *MapObj:
			it := &Iter{mo: m}
			if m != nil {
				if r.raceOn {
					r.raceMap(m, false)
				}
				it.m = append(it.m, m.ents...)
				if n := len(it.m); n > 1 && r.P.opt.mapOrder && fr.fi.repo {
					k := r.decide(2)
					if k == 1 { // the reverse order
						for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
							it.m[i], it.m[j] = it.m[j], it.m[i]
						}
					}
				}
			}
			fr.env[in.dst] = it
		case Str:
			fr.env[in.dst] = &Iter{s: m, isS: true}
		default:
			panic(unsupported{"range"})
		}
	case *ssa.Select:
		fr.env[in.dst] = fr.selectStmt(in, x)
	case *ssa.Slice:
		fr.env[in.dst] = fr.slice(in, x)
	case *ssa.SliceToArrayPointer:
		s := fr.get(&in.ops[0]).(Slice)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s.a) < n {
			r.goPanic("runtime error: cannot convert slice to array: length too short")
		}
		if s.a == nil {
			fr.env[in.dst] = (*Value)(nil)
			break
		}
		p := new(Value)
		*p = Agg(s.a[:n:n])
		fr.env[in.dst] = p
	case *ssa.TypeAssert:
		fr.env[in.dst] = fr.typeAssert(x, fr.get(&in.ops[0]))
	case *ssa.Defer:
		fn, args := fr.prepareCall(in, &x.Call)
		fr.defers = append(fr.defers, deferred{fn, args, in})
	case *ssa.RunDefers:
		fr.runDefers()
		if fr.panicing != nil {
			p := fr.panicing
			panic(p)
		}
	case *ssa.Go:
		fn, args := fr.prepareCall(in, &x.Call)
		name := "goroutine"
		if c, ok := fn.(*Closure); ok && c != nil && c.fn != nil {
			name = c.fn.String()
		}
		r.point(fr.g)
		r.number(r.spawn(name, func(g *G) { r.callValue(g, fn, args) }), fr.fi.repo)
	case *ssa.MapUpdate:
		m, _ := fr.get(&in.ops[0]).(*MapObj)
		if r.raceOn && m != nil {
			r.raceMap(m, true)
		}
		r.mapSet(m, fr.get(&in.ops[1]), fr.get(&in.ops[2]))
	case *ssa.Send:
		r.chanSend(fr.g, fr.get(&in.ops[0]).(*ChanObj), copyVal(fr.get(&in.ops[1])))
	case *ssa.Store:
		r.store(fr.get(&in.ops[0]), fr.get(&in.ops[1]))
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", x)})
	}
}

func (r *Run) strIndex(s Str, idx *Expr, sg bool) Value {
	r.boundsCheck(idx, s.len(), sg)
	if idx.isConst() {
		if s.b != nil {
			return s.b[idx.val]
		}
		return r.c.BV(uint64(s.s[idx.val]), 8)
	}
	bs := r.strBytes(s)
	vs := make([]Value, len(bs))
	for i := range bs {
		vs[i] = bs[i]
	}
	return r.symIndex(vs, r.c.ZExt(idx, 64))
}

func (fr *frame) prepareCall(in *inst, c *ssa.CallCommon) (Value, []Value) {
	r := fr.r
	if !c.IsInvoke() {
		o := &in.ops[0]
		args := make([]Value, len(in.ops)-1)
		for i := range args {
			args[i] = copyVal(fr.get(&in.ops[i+1]))
		}
		if o.kind == oBuiltin {
			return o.b, args
		}
		return fr.get(o), args
	}
	recv := fr.get(&in.ops[0]).(Iface)
	if recv.t == nil {
		r.nilDeref()
	}
	args := make([]Value, len(in.ops))
	args[0] = copyVal(recv.v)
	for i := 1; i < len(in.ops); i++ {
		args[i] = copyVal(fr.get(&in.ops[i]))
	}
	return r.method(recv, c.Method), args
}

func (r *Run) method(recv Iface, m *types.Func) Value {
	switch h := recv.v.(type) {
	case HostObj, RType:
		name := m.Name()
		return &Closure{hst: func(r *Run, g *G, args []Value) Value {
			return r.hostInvoke(g, h, name, args[1:])
		}}
	}
	if recv.t == r.P.rtErr {
		return &Closure{hst: func(r *Run, g *G, args []Value) Value { return args[0] }}
	}
	fn := r.P.lookup(recv.t, m.Pkg(), m.Name())
	if fn == nil {
		panic(unsupported{"no method " + m.Name() + " on " + recv.t.String()})
	}
	return &Closure{fn: fn}
}

func (fr *frame) unop(in *inst, x *ssa.UnOp) Value {
	r := fr.r
	v := fr.get(&in.ops[0])
	switch x.Op {
	case token.MUL:
		return r.load(v)
	case token.ARROW:
		val, ok := r.chanRecv(fr.g, v.(*ChanObj))
		if val == nil {
			val = r.zero(x.X.Type().Underlying().(*types.Chan).Elem())
		}
		if x.CommaOk {
			return Tuple{val, r.c.Bool(ok)}
		}
		return val
	case token.NOT:
		return r.c.Not(v.(*Expr))
	case token.SUB:
		if f, ok := v.(Float); ok {
			return -f
		}
		e := v.(*Expr)
		return r.c.Sub(r.c.BV(0, e.w), e)
	case token.XOR:
		e := v.(*Expr)
		return r.c.BXor(e, r.c.BV(mask(e.w), e.w))
	}
	panic(unsupported{"unop " + x.Op.String()})
}

func (r *Run) binop(op token.Token, in *inst, a, b Value) Value {
	c := r.c
	switch op {
	case token.EQL:
		return r.eqMixed(in.t, a, b)
	case token.NEQ:
		return c.Not(r.eqMixed(in.t, a, b))
	}
	switch x := a.(type) {
	case *Expr:
		y := b.(*Expr)
		w, sg := in.w, in.sg
		switch op {
		case token.ADD:
			return c.Add(x, y)
		case token.SUB:
			return c.Sub(x, y)
		case token.MUL:
			return c.Mul(x, y)
		case token.QUO, token.REM:
			if !r.branch(c.Not(c.Eq(y, c.BV(0, w)))) {
				r.goPanic("runtime error: integer divide by zero")
			}
			o := OUDiv
			switch {
			case op == token.QUO && sg:
				o = OSDiv
			case op == token.REM && sg:
				o = OSRem
			case op == token.REM:
				o = OURem
			}
			return c.divrem(o, x, y)
		case token.AND:
			if w == 0 {
				return c.And(x, y)
			}
			return c.BAnd(x, y)
		case token.OR:
			if w == 0 {
				return c.Or(x, y)
			}
			return c.BOr(x, y)
		case token.XOR:
			return c.BXor(x, y)
		case token.AND_NOT:
			return c.BAnd(x, c.BXor(y, c.BV(mask(w), w)))
		case token.SHL, token.SHR:
			if in.sg2 && in.w2 > 0 {
				if !r.branch(c.SLe(c.BV(0, in.w2), y)) {
					r.goPanic("runtime error: negative shift amount")
				}
			}
			// to the width of x, saturating
			var sh *Expr
			if y.w <= x.w {
				sh = c.ZExt(y, x.w)
			} else if y.isConst() {
				v := y.val
				if v > uint64(x.w) {
					v = uint64(x.w)
				}
				sh = c.BV(v, x.w)
			} else {
				sh = c.Ite(c.ULt(y, c.BV(uint64(x.w), y.w)), c.Extract(y, x.w-1, 0), c.BV(uint64(x.w), x.w))
			}
			if op == token.SHL {
				return c.Shl(x, sh)
			}
			if sg {
				return c.AShr(x, sh)
			}
			return c.LShr(x, sh)
		case token.LSS:
			if sg {
				return c.SLt(x, y)
			}
			return c.ULt(x, y)
		case token.LEQ:
			if sg {
				return c.SLe(x, y)
			}
			return c.ULe(x, y)
		case token.GTR:
			if sg {
				return c.SLt(y, x)
			}
			return c.ULt(y, x)
		case token.GEQ:
			if sg {
				return c.SLe(y, x)
			}
			return c.ULe(y, x)
		}
	case Str:
		y := b.(Str)
		switch op {
		case token.ADD:
			return r.strCat(x, y)
		case token.LSS:
			return r.strLt(x, y)
		case token.GTR:
			return r.strLt(y, x)
		case token.LEQ:
			return c.Not(r.strLt(y, x))
		case token.GEQ:
			return c.Not(r.strLt(x, y))
		}
	case Float:
		y := b.(Float)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return c.Bool(x < y)
		case token.LEQ:
			return c.Bool(x <= y)
		case token.GTR:
			return c.Bool(x > y)
		case token.GEQ:
			return c.Bool(x >= y)
		}
	}
	panic(unsupported{fmt.Sprintf("binop %v on %T", op, a)})
}

func (r *Run) eqMixed(t types.Type, a, b Value) *Expr {
	// interface vs nil constant of other shape
	if ia, ok := a.(Iface); ok {
		if ib, ok := b.(Iface); ok {
			return r.valEq(t, ia, ib)
		}
	}
	return r.valEq(t, a, b)
}

func (fr *frame) convert(in *inst, from, to types.Type, v Value) Value {
	r := fr.r
	fu, tu := from.Underlying(), to.Underlying()
	switch x := v.(type) {
	case *Expr:
		if b, ok := tu.(*types.Basic); ok {
			switch {
			case b.Info()&types.IsString != 0:
				if x.isConst() {
					return Str{s: string(rune(sext(x.val, x.w)))}
				}
				// a rune below 0x80 is one byte
				if r.branch(r.c.ULt(x, r.c.BV(0x80, x.w))) {
					return mkStr([]*Expr{r.c.Extract(x, 7, 0)})
				}
				cv := r.concretize(x, 4, "rune")
				return Str{s: string(rune(sext(cv, x.w)))}
			case b.Info()&types.IsFloat != 0:
				cv := r.concretize(x, 4, "float conversion")
				if in.sg2 {
					return Float(sext(cv, x.w))
				}
				return Float(cv)
			case b.Kind() == types.UnsafePointer:
				panic(unsupported{"integer to unsafe.Pointer"})
			}
		}
		if in.w == x.w {
			return x
		}
		if in.w < x.w {
			return r.c.Extract(x, in.w-1, 0)
		}
		if in.sg2 {
			return r.c.SExt(x, in.w)
		}
		return r.c.ZExt(x, in.w)
	case Float:
		if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			if b.Kind() == types.Float32 {
				return Float(float32(x))
			}
			return x
		}
		if in.sg {
			return r.c.BV(uint64(int64(x)), in.w)
		}
		return r.c.BV(uint64(x), in.w)
	case Str:
		if s, ok := tu.(*types.Slice); ok {
			w, _, _ := width(s.Elem())
			if w == 8 {
				bs := r.strBytes(x)
				a := make([]Value, len(bs))
				for i := range bs {
					a[i] = bs[i]
				}
				return Slice{a}
			}
			// []rune
			var a []Value
			if x.b == nil {
				for _, c := range x.s {
					a = append(a, r.c.BV(uint64(c), 32))
				}
				if a == nil {
					a = []Value{}
				}
				return Slice{a}
			}
			panic(unsupported{"symbolic []rune"})
		}
		return x
	case Slice:
		if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if s, ok := fu.(*types.Slice); ok {
				if w, _, _ := width(s.Elem()); w == 32 {
					var out []rune
					for _, e := range x.a {
						out = append(out, rune(r.concretize(e.(*Expr), 4, "rune")))
					}
					return Str{s: string(out)}
				}
			}
			return r.bytesStr(x.a)
		}
		return x
	case *Value:
		if b, ok := tu.(*types.Basic); ok && b.Kind() == types.Uintptr {
			return r.c.BV(uint64(r.ptrID(x)), 64)
		}
		return x
	}
	return v
}

func (r *Run) ptrID(p *Value) int {
	if p == nil {
		return 0
	}
	if r.ptrIDs == nil {
		r.ptrIDs = map[*Value]int{}
	}
	if n, ok := r.ptrIDs[p]; ok {
		return n
	}
	n := 0x10000 + 64*len(r.ptrIDs)
	r.ptrIDs[p] = n
	return n
}

func (r *Run) bytesStr(a []Value) Str {
	bs := make([]*Expr, len(a))
	for i := range a {
		if r.raceOn {
			r.raceAccess(&a[i], false)
		}
		e, ok := a[i].(*Expr)
		if !ok {
			r.poisonUse(a[i])
		}
		bs[i] = e
	}
	return mkStr(bs)
}

func (fr *frame) next(it *Iter, x *ssa.Next) Value {
	r := fr.r
	if it.isS {
		if it.pos >= it.s.len() {
			return Tuple{r.c.tFalse, r.c.BV(0, 64), r.c.BV(0, 32)}
		}
		p := it.pos
		if it.s.b == nil {
			c, n := utf8.DecodeRuneInString(it.s.s[p:])
			it.pos += n
			return Tuple{r.c.tTrue, r.c.BV(uint64(p), 64), r.c.BV(uint64(uint32(c)), 32)}
		}
		e := it.s.b[p]
		if r.branch(r.c.ULt(e, r.c.BV(0x80, 8))) {
			it.pos++
			return Tuple{r.c.tTrue, r.c.BV(uint64(p), 64), r.c.ZExt(e, 32)}
		}
		// non-ASCII: decode the concrete values
		var bs []byte
		for i := p; i < it.s.len() && i < p+4; i++ {
			bs = append(bs, byte(r.concretize(it.s.b[i], 256, "utf8")))
		}
		c, n := utf8.DecodeRune(bs)
		it.pos += n
		return Tuple{r.c.tTrue, r.c.BV(uint64(p), 64), r.c.BV(uint64(uint32(c)), 32)}
	}
	for it.pos < len(it.m) {
		e := it.m[it.pos]
		it.pos++
		if e.dead {
			continue
		}
		return Tuple{r.c.tTrue, copyVal(e.k), copyVal(e.v)}
	}
	return Tuple{r.c.tFalse, nil, nil}
}

func (fr *frame) slice(in *inst, x *ssa.Slice) Value {
	r := fr.r
	v := fr.get(&in.ops[0])
	num := func(o *opnd, has bool, def int) int {
		if !has {
			return def
		}
		e := fr.get(o).(*Expr)
		n := int64(sext(r.concretize(e, 64, "slice bound"), e.w))
		if n < 0 || n > 1<<40 {
			return -1
		}
		return int(n)
	}
	// Operands(): X, Low, High, Max
	lo, hi, mx := &in.ops[1], &in.ops[2], &in.ops[3]
	switch s := v.(type) {
	case Str:
		l := num(lo, x.Low != nil, 0)
		h := num(hi, x.High != nil, s.len())
		if l < 0 || h < l || h > s.len() {
			r.goPanic("runtime error: slice bounds out of range")
		}
		return s.sub(l, h)
	case Slice, *Value:
		var a []Value
		if sl, ok := s.(Slice); ok {
			a = sl.a
		} else {
			p := s.(*Value)
			if p == nil {
				r.nilDeref()
			}
			a = (*p).(Agg)
		}
		l := num(lo, x.Low != nil, 0)
		h := num(hi, x.High != nil, len(a))
		m := num(mx, x.Max != nil, cap(a))
		if l < 0 || h < l || m < h || m > cap(a) || h > cap(a) {
			r.goPanic("runtime error: slice bounds out of range")
		}
		return Slice{a[l:h:m]}
	}
	panic(unsupported{fmt.Sprintf("slice of %T", v)})
}

func (fr *frame) typeAssert(x *ssa.TypeAssert, v Value) Value {
	r := fr.r
	i := v.(Iface)
	ok := false
	var res Value
	if i.t != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = r.implements(i, it)
			res = i
		} else {
			ok = types.Identical(i.t, x.AssertedType)
			res = i.v
		}
	}
	if !ok {
		if x.CommaOk {
			return Tuple{r.zero(x.AssertedType), r.c.tFalse}
		}
		n := "nil"
		if i.t != nil {
			n = i.t.String()
		}
		r.goPanic("interface conversion: " + n + " is not " + x.AssertedType.String())
	}
	if x.CommaOk {
		return Tuple{copyVal(res), r.c.tTrue}
	}
	return copyVal(res)
}

func (r *Run) implements(i Iface, it *types.Interface) bool {
	switch h := i.v.(type) {
	case HostObj:
		if it.NumMethods() == 0 {
			return true
		}
		return hostImplements(h, it)
	case RType:
		return true
	}
	if i.t == r.P.rtErr {
		return it.NumMethods() == 0 || (it.NumMethods() == 1 && it.Method(0).Name() == "Error") || (it.NumMethods() == 2 && it.Method(0).Name() == "Error" && it.Method(1).Name() == "RuntimeError")
	}
	return types.Implements(i.t, it)
}

func (fr *frame) builtin(b *ssa.Builtin, in *inst, args []Value) Value {
	r := fr.r
	c := r.c
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return c.BV(uint64(x.len()), 64)
		case Slice:
			return c.BV(uint64(len(x.a)), 64)
		case *MapObj:
			if x == nil {
				return c.BV(0, 64)
			}
			if r.raceOn {
				r.raceMap(x, false)
			}
			return c.BV(uint64(x.n), 64)
		case *ChanObj:
			if x == nil {
				return c.BV(0, 64)
			}
			return c.BV(uint64(len(x.buf)), 64)
		case Agg:
			return c.BV(uint64(len(x)), 64)
		case *Value:
			return c.BV(uint64(len((*x).(Agg))), 64)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return c.BV(uint64(cap(x.a)), 64)
		case *ChanObj:
			if x == nil {
				return c.BV(0, 64)
			}
			return c.BV(uint64(x.cap), 64)
		case Agg:
			return c.BV(uint64(len(x)), 64)
		case *Value:
			return c.BV(uint64(len((*x).(Agg))), 64)
		}
	case "append":
		s := args[0].(Slice)
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y.a
		case Str:
			for _, e := range r.strBytes(y) {
				add = append(add, e)
			}
		}
		if len(add) == 0 {
			return s
		}
		n := len(s.a)
		if _, ok := args[1].(Slice); ok && r.raceOn {
			for i := range add {
				r.raceAccess(&add[i], false)
			}
		}
		if n+len(add) <= cap(s.a) {
			a := s.a[:n+len(add)]
			// copy first: add may alias
			tmp := make([]Value, len(add))
			for i := range add {
				tmp[i] = copyVal(add[i])
			}
			for i := range tmp {
				if r.raceOn {
					r.raceAccess(&a[n+i], true)
				}
				a[n+i] = tmp[i]
			}
			return Slice{a}
		}
		nc := growCap(cap(s.a), n+len(add))
		a := make([]Value, nc)
		for i := 0; i < n; i++ {
			if r.raceOn {
				r.raceAccess(&s.a[i], false)
			}
			a[i] = copyVal(s.a[i])
		}
		for i := range add {
			a[n+i] = copyVal(add[i])
		}
		var el types.Type
		if st, ok := in.in.(ssa.Value); ok {
			el = st.Type().Underlying().(*types.Slice).Elem()
		}
		if el != nil && n+len(add) < nc {
			z := r.zero(el)
			for i := n + len(add); i < nc; i++ {
				a[i] = copyVal(z)
			}
		}
		return Slice{a[: n+len(add) : nc]}
	case "copy":
		d := args[0].(Slice)
		switch y := args[1].(type) {
		case Slice:
			n := min(len(d.a), len(y.a))
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				if r.raceOn {
					r.raceAccess(&y.a[i], false)
				}
				if _, ok := y.a[i].(poison); ok {
					r.poisonUse(y.a[i])
				}
				tmp[i] = copyVal(y.a[i])
			}
			for i := range tmp {
				if r.raceOn {
					r.raceAccess(&d.a[i], true)
				}
				storeInto(&d.a[i], tmp[i])
			}
			return c.BV(uint64(n), 64)
		case Str:
			bs := r.strBytes(y)
			n := min(len(d.a), len(bs))
			for i := 0; i < n; i++ {
				if r.raceOn {
					r.raceAccess(&d.a[i], true)
				}
				d.a[i] = bs[i]
			}
			return c.BV(uint64(n), 64)
		}
	case "delete":
		m, _ := args[0].(*MapObj)
		if m == nil {
			return nil
		}
		if r.raceOn {
			r.raceMap(m, true)
		}
		r.mapDel(m, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				for _, e := range x.ents {
					e.dead = true
				}
				x.ents, x.n, x.idx = nil, 0, map[any]*mapEnt{}
			}
		case Slice:
			el := in.in.(*ssa.Call).Call.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x.a {
				x.a[i] = r.zero(el)
			}
		}
		return nil
	case "close":
		r.chanClose(fr.g, args[0].(*ChanObj))
		return nil
	case "panic":
		panic(&goPanicV{val: args[0], msg: r.panicText(args[0]), where: r.where()})
	case "recover":
		return fr.doRecover()
	case "print", "println":
		return nil
	case "min", "max":
		res := args[0]
		for _, a := range args[1:] {
			switch x := res.(type) {
			case *Expr:
				y := a.(*Expr)
				_, sg, _ := width(in.t)
				var lt *Expr
				if sg {
					lt = c.SLt(y, x)
				} else {
					lt = c.ULt(y, x)
				}
				if b.Name() == "max" {
					lt = c.Not(c.Or(lt, c.Eq(x, y)))
				}
				res = c.Ite(lt, y, x)
			case Str:
				lt := r.branch(r.strLt(a.(Str), x))
				if lt == (b.Name() == "min") {
					res = a
				}
			case Float:
				y := a.(Float)
				if (y < x) == (b.Name() == "min") {
					res = y
				}
			}
		}
		return res
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			r.goPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		n := int(r.concretize(args[1].(*Expr), 8, "unsafe.String"))
		if n == 0 {
			return Str{}
		}
		switch p := args[0].(type) {
		case SlicePtr:
			if p.a != nil {
				return r.bytesStr(p.a[p.k : p.k+n])
			}
			return p.s.sub(p.k, p.k+n)
		}
	case "SliceData":
		return SlicePtr{a: args[0].(Slice).a}
	case "StringData":
		return SlicePtr{s: args[0].(Str)}
	case "Slice":
		n := int(r.concretize(args[1].(*Expr), 8, "unsafe.Slice"))
		switch p := args[0].(type) {
		case SlicePtr:
			if p.a != nil {
				return Slice{p.a[p.k : p.k+n : p.k+n]}
			}
			bs := r.strBytes(p.s)
			a := make([]Value, n)
			for i := range a {
				a[i] = bs[p.k+i]
			}
			return Slice{a}
		}
	}
	panic(unsupported{fmt.Sprintf("builtin %s on %T", b.Name(), args[0])})
}

func growCap(oldc, need int) int {
	if need > 2*oldc {
		if need < 8 && need&(need-1) != 0 {
			n := 1
			for n < need {
				n *= 2
			}
			return n
		}
		return need
	}
	if oldc < 256 {
		return 2 * oldc
	}
	return oldc + oldc/4 + 192
}

// poison marks memory the implementation no longer owns (a bolt page after
// its transaction ended).
type poison struct{ what string }

func (r *Run) poisonUse(v Value) {
	if p, ok := v.(poison); ok {
		r.endViolate("assert", "use of memory after it was released: "+p.what)
	}
	panic(unsupported{fmt.Sprintf("byte of type %T", v)})
}
