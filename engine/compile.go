package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// fnInfo is a function prepared for interpretation: registers get slots.

const (
	oSlot = iota
	oConst
	oGlobal
	oFunc
	oBuiltin
)

type opnd struct {
	kind uint8
	slot int
	c    *ssa.Const
	v    Value // run-independent constant
	u    uint64
	w    uint8
	num  bool
	g    *ssa.Global
	fn   *ssa.Function
	b    *ssa.Builtin
}

type inst struct {
	in  ssa.Instruction
	dst int
	ops []opnd
	t   types.Type // interesting type
	u   types.Type // its underlying type
	w   uint8
	sg  bool
	w2  uint8
	sg2 bool
	pos token.Pos
}

type blk struct {
	b     *ssa.BasicBlock
	phis  []inst
	insts []inst
}

type fnInfo struct {
	fn     *ssa.Function
	name   string
	nslots int
	params []int
	fvs    []int
	blocks []blk
	intr   intrinsic
	redir  *ssa.Function
	pkg    *ssa.Package
	repo   bool
	model  bool
	lib    bool // stand-in for a library
	hasDef bool
	isInit bool
}

var fnCache sync.Map // *ssa.Function -> *fnInfo
var buildMu sync.Mutex

func fnPkg(fn *ssa.Function) *ssa.Package {
	if fn.Pkg != nil {
		return fn.Pkg
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg
	}
	if p := fn.Parent(); p != nil {
		return fnPkg(p)
	}
	return nil
}

func (P *Prog) info(fn *ssa.Function) *fnInfo {
	if x, ok := fnCache.Load(fn); ok {
		return x.(*fnInfo)
	}
	buildMu.Lock()
	defer buildMu.Unlock()
	if x, ok := fnCache.Load(fn); ok {
		return x.(*fnInfo)
	}
	fi := &fnInfo{fn: fn, pkg: fnPkg(fn)}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	fi.name = name
	if fi.pkg != nil {
		path := fi.pkg.Pkg.Path()
		fi.repo = P.isRepo(path)
		fi.model = P.isModel(path)
		fi.isInit = fn.Synthetic == "package initializer"
	}
	path := pathOf(fi.pkg)
	fi.lib = strings.HasPrefix(path, harnessPath+"/boltm") || strings.HasPrefix(path, harnessPath+"/redism") || strings.HasPrefix(path, "github.com/go-redis/")
	fi.intr = intrinsics[name]
	if r, ok := P.redirect[name]; ok && !P.isModel(pathOf(fi.pkg)) {
		fi.redir = r
	} else if P.pkgs[harnessPath+"/boltm"] != nil && pathOf(fi.pkg) == "github.com/boltdb/bolt" && !fi.isInit && fi.intr == nil {
		fi.intr = func(r *Run, g *G, fi *fnInfo, a []Value) Value {
			panic(unsupported{"library function " + name})
		}
	}
	if strings.HasPrefix(path, "go.opentelemetry.io/") && fi.intr == nil && !fi.isInit {
		// telemetry: does nothing and yields zero values
		fi.intr = func(r *Run, g *G, fi *fnInfo, a []Value) Value { return r.zeroResult(fi.fn) }
	}
	if fi.intr == nil && fi.redir == nil {
		if fi.pkg != nil {
			fi.pkg.Build()
		}
		P.compile(fi)
	}
	fnCache.Store(fn, fi)
	return fi
}

// zeroResult is what a function returns that returns zero values.
func (r *Run) zeroResult(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return r.zero(res.At(0).Type())
	}
	out := make(Tuple, res.Len())
	for i := range out {
		out[i] = r.zero(res.At(i).Type())
	}
	return out
}

func pathOf(p *ssa.Package) string {
	if p == nil {
		return ""
	}
	return p.Pkg.Path()
}

func (P *Prog) compile(fi *fnInfo) {
	fn := fi.fn
	slots := map[ssa.Value]int{}
	add := func(v ssa.Value) int {
		s := fi.nslots
		slots[v] = s
		fi.nslots++
		return s
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, add(p))
	}
	for _, p := range fn.FreeVars {
		fi.fvs = append(fi.fvs, add(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	mk := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{kind: oConst}
		case *ssa.Const:
			return mkConst(x)
		case *ssa.Global:
			return opnd{kind: oGlobal, g: x}
		case *ssa.Function:
			return opnd{kind: oFunc, fn: x, v: &Closure{fn: x}}
		case *ssa.Builtin:
			return opnd{kind: oBuiltin, b: x}
		}
		s, ok := slots[v]
		if !ok {
			panic("no slot for " + v.Name() + " in " + fn.String())
		}
		return opnd{kind: oSlot, slot: s}
	}
	fi.blocks = make([]blk, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		bb := &fi.blocks[bi]
		bb.b = b
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			it := inst{in: in, dst: -1, pos: in.Pos()}
			if v, ok := in.(ssa.Value); ok {
				it.dst = slots[v]
				it.t = v.Type()
				if it.t != nil {
					it.u = it.t.Underlying()
				}
			}
			setw := func(t types.Type) {
				it.w, it.sg, _ = width(t)
			}
			switch x := in.(type) {
			case *ssa.Phi:
				for _, e := range x.Edges {
					it.ops = append(it.ops, mk(e))
				}
				bb.phis = append(bb.phis, it)
				continue
			case *ssa.BinOp:
				it.ops = []opnd{mk(x.X), mk(x.Y)}
				it.t = x.X.Type()
				it.u = it.t.Underlying()
				setw(x.X.Type())
				it.w2, it.sg2, _ = width(x.Y.Type())
			case *ssa.UnOp:
				it.ops = []opnd{mk(x.X)}
				setw(x.X.Type())
			case *ssa.Convert:
				it.ops = []opnd{mk(x.X)}
				setw(x.Type())
				it.w2, it.sg2, _ = width(x.X.Type())
			case *ssa.Call:
				it.ops = callOps(&x.Call, mk)
			case *ssa.Go:
				it.ops = callOps(&x.Call, mk)
			case *ssa.Defer:
				it.ops = callOps(&x.Call, mk)
				fi.hasDef = true
			default:
				var rands []*ssa.Value
				for _, p := range in.Operands(rands) {
					if p == nil || *p == nil {
						it.ops = append(it.ops, opnd{kind: oConst})
						continue
					}
					it.ops = append(it.ops, mk(*p))
				}
				if len(it.ops) > 1 {
					switch y := in.(type) {
					case *ssa.IndexAddr:
						it.w2, it.sg2, _ = width(y.Index.Type())
					case *ssa.Index:
						it.w2, it.sg2, _ = width(y.Index.Type())
					}
				}
			}
			bb.insts = append(bb.insts, it)
		}
	}
	if fn.Recover != nil {
		fi.hasDef = true
	}
}

// callOps: [callee, args...]
func callOps(c *ssa.CallCommon, mk func(ssa.Value) opnd) []opnd {
	ops := []opnd{mk(c.Value)}
	for _, a := range c.Args {
		ops = append(ops, mk(a))
	}
	return ops
}

func mkConst(x *ssa.Const) opnd {
	o := opnd{kind: oConst, c: x}
	if x.Value == nil {
		return o // zero value of the type, made per run
	}
	t := x.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		return o
	}
	switch {
	case b.Info()&types.IsString != 0:
		if x.Value.Kind() == constant.String {
			o.v = Str{s: constant.StringVal(x.Value)}
		} else {
			o.v = Str{s: string(rune(x.Int64()))}
		}
	case b.Info()&types.IsBoolean != 0:
		o.num = true
		if constant.BoolVal(x.Value) {
			o.u = 1
		}
		o.v = smallConst[0][o.u]
	case b.Info()&types.IsInteger != 0:
		o.num = true
		o.w, _, _ = width(b)
		if b.Info()&types.IsUnsigned != 0 {
			o.u = x.Uint64()
		} else {
			o.u = uint64(x.Int64())
		}
		if u := o.u & mask(o.w); u < nsmall {
			o.v = smallConst[o.w][u]
		}
	case b.Info()&types.IsFloat != 0:
		o.v = Float(x.Float64())
	case b.Kind() == types.UnsafePointer:
		return o
	default:
		o.v = HostObj{"complex", x.Complex128()}
	}
	return o
}

func isErrorType(t types.Type) bool {
	return types.Implements(t, errIface) || types.Implements(types.NewPointer(t), errIface)
}

var errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func shortName(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}
