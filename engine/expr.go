package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Expressions: a hash-consed DAG of boolean (w==0) and bit-vector (w in 1..64)
// terms. Construction simplifies; the simplifier is part of the trusted base
// and is differentially tested against the solver by "symgo selftest".

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OULt
	OULe
	OSLt
	OSLe
	OConcat
	OExtract
	OZExt
	OSExt
	OTbl
)

var opSMT = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv",
	OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OULt: "bvult", OULe: "bvule",
	OSLt: "bvslt", OSLe: "bvsle", OConcat: "concat",
}

// Table is a constant lookup table (for example a base64 alphabet).
type Table struct {
	id    int
	vals  []uint64
	inW   uint8
	outW  uint8
	injct bool
	key   string
}

type Expr struct {
	op   Op
	w    uint8 // 0 = Bool
	a    uint8 // extract: low bit
	val  uint64
	args []*Expr
	name string
	lo   int64 // OVar: declared range (signed), valid if rng
	hi   int64
	rng  bool
	tbl  *Table
	id   uint32
	h1   uint64
	h2   uint64
	vars []*Expr // memo: sorted variables
	hasV bool
}

type exprKey struct {
	op      Op
	w, a    uint8
	val     uint64
	x, y, z *Expr
	name    string
	tbl     *Table
}

// Ctx owns the expressions of one path.
type Ctx struct {
	tab    map[exprKey]*Expr
	nary   map[string]*Expr
	nextID uint32
	tTrue  *Expr
	tFalse *Expr
	consts map[constKey]*Expr
	tables map[string]*Table
}

type constKey struct {
	v uint64
	w uint8
}

// Small constants are shared by all contexts and never change.
const nsmall = 1024

var smallConst [65][nsmall]*Expr

func init() {
	id := uint32(1 << 31)
	for w := range smallConst {
		for v := range smallConst[w] {
			if w < 64 && v>>w != 0 && (w > 0 || v > 1) {
				break
			}
			id++
			smallConst[w][v] = newConst(uint64(v), uint8(w), id)
		}
	}
}

func newConst(v uint64, w uint8, id uint32) *Expr {
	e := &Expr{op: OConst, w: w, val: v, id: id, hasV: true}
	e.h1 = mix(uint64(OConst)<<16|uint64(w)<<8, v)
	e.h2 = mix(e.h1, 0x1234567)
	return e
}

func NewCtx() *Ctx {
	return &Ctx{tab: map[exprKey]*Expr{}, nary: map[string]*Expr{}, tables: map[string]*Table{}, consts: map[constKey]*Expr{},
		tTrue: smallConst[0][1], tFalse: smallConst[0][0]}
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	return h
}

func strHash(s string, h uint64) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func (c *Ctx) mk(e *Expr) *Expr {
	var k exprKey
	if len(e.args) <= 3 {
		k = exprKey{op: e.op, w: e.w, a: e.a, val: e.val, name: e.name, tbl: e.tbl}
		if len(e.args) > 0 {
			k.x = e.args[0]
		}
		if len(e.args) > 1 {
			k.y = e.args[1]
		}
		if len(e.args) > 2 {
			k.z = e.args[2]
		}
		if x, ok := c.tab[k]; ok {
			return x
		}
	} else {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%d/%d/%d", e.op, e.w, e.a)
		for _, x := range e.args {
			fmt.Fprintf(&sb, ",%d", x.id)
		}
		s := sb.String()
		if x, ok := c.nary[s]; ok {
			return x
		}
		defer func() { c.nary[s] = e }()
	}
	e.id = c.nextID
	c.nextID++
	h := mix(uint64(e.op)<<16|uint64(e.w)<<8|uint64(e.a), e.val)
	if e.name != "" {
		h = strHash(e.name, h)
	}
	if e.tbl != nil {
		h = strHash(e.tbl.key, h)
	}
	g := mix(h, 0x1234567)
	for _, x := range e.args {
		h = mix(h, x.h1)
		g = mix(g, x.h2)
	}
	e.h1, e.h2 = h, g
	if len(e.args) <= 3 {
		c.tab[k] = e
	}
	return e
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.tTrue
	}
	return c.tFalse
}

func (c *Ctx) BV(v uint64, w uint8) *Expr {
	v &= mask(w)
	if v < nsmall {
		return smallConst[w][v]
	}
	k := constKey{v, w}
	e := c.consts[k]
	if e == nil {
		e = newConst(v, w, c.nextID)
		c.nextID++
		c.consts[k] = e
	}
	return e
}

func (c *Ctx) Var(name string, w uint8) *Expr {
	return c.mk(&Expr{op: OVar, w: w, name: name})
}

// RVar is a variable with a declared signed range; the range is asserted
// whenever the variable occurs in a query.
func (c *Ctx) RVar(name string, w uint8, lo, hi int64) *Expr {
	e := c.mk(&Expr{op: OVar, w: w, name: name})
	e.lo, e.hi, e.rng = lo, hi, true
	return e
}

func (e *Expr) isConst() bool { return e.op == OConst }
func (e *Expr) isTrue() bool  { return e.op == OConst && e.w == 0 && e.val == 1 }
func (e *Expr) isFalse() bool { return e.op == OConst && e.w == 0 && e.val == 0 }

func (c *Ctx) Not(x *Expr) *Expr {
	if x.isConst() {
		return c.Bool(x.val == 0)
	}
	if x.op == ONot {
		return x.args[0]
	}
	// keep comparisons positive: !(a<b) -> b<=a
	switch x.op {
	case OULt:
		return c.bin(OULe, 0, x.args[1], x.args[0])
	case OULe:
		return c.bin(OULt, 0, x.args[1], x.args[0])
	case OSLt:
		return c.bin(OSLe, 0, x.args[1], x.args[0])
	case OSLe:
		return c.bin(OSLt, 0, x.args[1], x.args[0])
	}
	return c.mk(&Expr{op: ONot, args: []*Expr{x}})
}

func (c *Ctx) AndN(xs ...*Expr) *Expr {
	var out []*Expr
	seen := map[*Expr]bool{}
	var add func(x *Expr) bool
	add = func(x *Expr) bool {
		if x.isTrue() || seen[x] {
			return true
		}
		if x.isFalse() || seen[c.Not(x)] {
			return false
		}
		if x.op == OAnd {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return c.tFalse
		}
	}
	switch len(out) {
	case 0:
		return c.tTrue
	case 1:
		return out[0]
	}
	return c.mk(&Expr{op: OAnd, args: out})
}

func (c *Ctx) And(x, y *Expr) *Expr { return c.AndN(x, y) }

func (c *Ctx) OrN(xs ...*Expr) *Expr {
	var out []*Expr
	seen := map[*Expr]bool{}
	var add func(x *Expr) bool
	add = func(x *Expr) bool {
		if x.isFalse() || seen[x] {
			return true
		}
		if x.isTrue() || seen[c.Not(x)] {
			return false
		}
		if x.op == OOr {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return c.tTrue
		}
	}
	switch len(out) {
	case 0:
		return c.tFalse
	case 1:
		return out[0]
	}
	return c.mk(&Expr{op: OOr, args: out})
}

func (c *Ctx) Or(x, y *Expr) *Expr { return c.OrN(x, y) }

func (c *Ctx) Ite(b, x, y *Expr) *Expr {
	if b.isTrue() {
		return x
	}
	if b.isFalse() {
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		if x.isTrue() && y.isFalse() {
			return b
		}
		if x.isFalse() && y.isTrue() {
			return c.Not(b)
		}
		return c.Or(c.And(b, x), c.And(c.Not(b), y))
	}
	if b.op == ONot {
		return c.Ite(b.args[0], y, x)
	}
	return c.mk(&Expr{op: OIte, w: x.w, args: []*Expr{b, x, y}})
}

func (c *Ctx) Eq(x, y *Expr) *Expr {
	if x == y {
		return c.tTrue
	}
	if x.w != y.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", x.w, y.w))
	}
	if x.isConst() && y.isConst() {
		return c.Bool(x.val == y.val)
	}
	if x.isConst() {
		x, y = y, x
	}
	if x.w == 0 {
		if y.isTrue() {
			return x
		}
		if y.isFalse() {
			return c.Not(x)
		}
		return c.Or(c.And(x, y), c.And(c.Not(x), c.Not(y)))
	}
	if y.isConst() {
		switch x.op {
		case OTbl:
			var alts []*Expr
			for i, v := range x.tbl.vals {
				if v == y.val {
					alts = append(alts, c.Eq(x.args[0], c.BV(uint64(i), x.args[0].w)))
				}
			}
			if len(alts) <= 4 {
				return c.OrN(alts...)
			}
		case OZExt:
			in := x.args[0]
			if y.val > mask(in.w) {
				return c.tFalse
			}
			return c.Eq(in, c.BV(y.val, in.w))
		case OSExt:
			in := x.args[0]
			if uint64(sext(y.val&mask(in.w), in.w))&mask(x.w) != y.val {
				return c.tFalse
			}
			return c.Eq(in, c.BV(y.val, in.w))
		case OConcat:
			lo := x.args[1]
			return c.And(c.Eq(x.args[0], c.BV(y.val>>lo.w, x.args[0].w)), c.Eq(lo, c.BV(y.val, lo.w)))
		case OIte:
			if x.args[1].isConst() && x.args[2].isConst() {
				a, b := x.args[1].val == y.val, x.args[2].val == y.val
				switch {
				case a && !b:
					return x.args[0]
				case b && !a:
					return c.Not(x.args[0])
				case !a && !b:
					return c.tFalse
				}
			}
		case OAdd:
			if x.args[1].isConst() {
				return c.Eq(x.args[0], c.BV(y.val-x.args[1].val, x.w))
			}
		case OVar:
			if x.rng {
				v := sext(y.val, x.w)
				if v < x.lo || v > x.hi {
					return c.tFalse
				}
			}
		}
	} else {
		if x.op == OTbl && y.op == OTbl && x.tbl == y.tbl && x.tbl.injct {
			return c.Eq(x.args[0], y.args[0])
		}
		if x.op == OZExt && y.op == OZExt && x.args[0].w == y.args[0].w {
			return c.Eq(x.args[0], y.args[0])
		}
		if x.op == OConcat && y.op == OConcat && x.args[1].w == y.args[1].w {
			return c.And(c.Eq(x.args[0], y.args[0]), c.Eq(x.args[1], y.args[1]))
		}
		// x+k1 == x+k2
		bx, kx := splitAdd(x)
		by, ky := splitAdd(y)
		if bx == by {
			return c.Bool(kx == ky)
		}
		if x.id > y.id {
			x, y = y, x
		}
	}
	return c.mk(&Expr{op: OEq, args: []*Expr{x, y}})
}

func splitAdd(x *Expr) (*Expr, uint64) {
	if x.op == OAdd && x.args[1].isConst() {
		return x.args[0], x.args[1].val
	}
	return x, 0
}

func (c *Ctx) bin(op Op, w uint8, x, y *Expr) *Expr {
	return c.mk(&Expr{op: op, w: w, args: []*Expr{x, y}})
}

// urange gives unsigned bounds by structure.
func urange(x *Expr) (uint64, uint64) {
	switch x.op {
	case OConst:
		return x.val, x.val
	case OZExt:
		return urange(x.args[0])
	case OVar:
		if x.rng && x.lo >= 0 {
			return uint64(x.lo), uint64(x.hi)
		}
	case OTbl:
		lo, hi := ^uint64(0), uint64(0)
		for _, v := range x.tbl.vals {
			if v < lo {
				lo = v
			}
			if v > hi {
				hi = v
			}
		}
		return lo, hi
	case OIte:
		a, b := urange(x.args[1])
		d, e := urange(x.args[2])
		if d < a {
			a = d
		}
		if e > b {
			b = e
		}
		return a, b
	case OUDiv, OURem:
		if d := x.args[1]; d.isConst() && d.val > 0 {
			a, b := urange(x.args[0])
			if x.op == OUDiv {
				return a / d.val, b / d.val
			}
			if b < d.val {
				return a, b
			}
			return 0, d.val - 1
		}
	case OAdd, OSub, OMul:
		if lo, hi := srange(x); lo >= 0 {
			return uint64(lo), uint64(hi)
		}
	}
	return 0, mask(x.w)
}

func (c *Ctx) ULt(x, y *Expr) *Expr {
	if x == y {
		return c.tFalse
	}
	if x.isConst() && y.isConst() {
		return c.Bool(x.val < y.val)
	}
	a, b := urange(x)
	d, e := urange(y)
	if b < d {
		return c.tTrue
	}
	if a >= e {
		return c.tFalse
	}
	if y.isConst() && y.val == 1 {
		return c.Eq(x, c.BV(0, x.w))
	}
	return c.bin(OULt, 0, x, y)
}
func (c *Ctx) ULe(x, y *Expr) *Expr { return c.Not(c.ULt(y, x)) }

func srange(x *Expr) (int64, int64) {
	min, max := -(int64(1) << (x.w - 1)), int64(1)<<(x.w-1)-1
	switch x.op {
	case OConst:
		v := sext(x.val, x.w)
		return v, v
	case OVar:
		if x.rng {
			return x.lo, x.hi
		}
	case OZExt:
		a, b := urange(x.args[0])
		return int64(a), int64(b)
	case OSExt:
		return srange(x.args[0])
	case OAdd:
		a, b := srange(x.args[0])
		d, e := srange(x.args[1])
		lo, o1 := addOv(a, d)
		hi, o2 := addOv(b, e)
		if !o1 && !o2 && lo >= min && hi <= max {
			return lo, hi
		}
	case OSub:
		a, b := srange(x.args[0])
		d, e := srange(x.args[1])
		lo, o1 := subOv(a, e)
		hi, o2 := subOv(b, d)
		if !o1 && !o2 && lo >= min && hi <= max {
			return lo, hi
		}
	case OMul:
		if x.args[1].isConst() {
			k := sext(x.args[1].val, x.w)
			a, b := srange(x.args[0])
			p, o1 := mulOv(a, k)
			q, o2 := mulOv(b, k)
			if p > q {
				p, q = q, p
			}
			if !o1 && !o2 && p >= min && q <= max {
				return p, q
			}
		}
	case OUDiv, OURem:
		if a, b := urange(x); b <= uint64(max) {
			return int64(a), int64(b)
		}
	case OIte:
		a, b := srange(x.args[1])
		d, e := srange(x.args[2])
		if d < a {
			a = d
		}
		if e > b {
			b = e
		}
		return a, b
	}
	return min, max
}

func addOv(a, b int64) (int64, bool) {
	s := a + b
	return s, (a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0)
}
func subOv(a, b int64) (int64, bool) {
	s := a - b
	return s, (a >= 0 && b < 0 && s < 0) || (a < 0 && b > 0 && s >= 0)
}
func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, false
	}
	p := a * b
	return p, p/b != a || (a == -1 && b == -1<<63) || (b == -1 && a == -1<<63)
}

func (c *Ctx) SLt(x, y *Expr) *Expr {
	if x == y {
		return c.tFalse
	}
	if x.isConst() && y.isConst() {
		return c.Bool(sext(x.val, x.w) < sext(y.val, y.w))
	}
	a, b := srange(x)
	d, e := srange(y)
	if b < d {
		return c.tTrue
	}
	if a >= e {
		return c.tFalse
	}
	return c.bin(OSLt, 0, x, y)
}
func (c *Ctx) SLe(x, y *Expr) *Expr { return c.Not(c.SLt(y, x)) }

func (c *Ctx) Add(x, y *Expr) *Expr {
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		if x.isConst() {
			return c.BV(x.val+y.val, x.w)
		}
		if y.val == 0 {
			return x
		}
		if x.op == OAdd && x.args[1].isConst() {
			return c.Add(x.args[0], c.BV(x.args[1].val+y.val, x.w))
		}
	} else {
		// float constants outwards
		bx, kx := splitAdd(x)
		by, ky := splitAdd(y)
		if kx != 0 || ky != 0 {
			return c.Add(c.Add(bx, by), c.BV(kx+ky, x.w))
		}
		if x.op == OSub && x.args[1] == y {
			return x.args[0]
		}
		if y.op == OSub && y.args[1] == x {
			return y.args[0]
		}
		if x.id > y.id {
			x, y = y, x
		}
	}
	return c.bin(OAdd, x.w, x, y)
}

func (c *Ctx) Sub(x, y *Expr) *Expr {
	if x == y {
		return c.BV(0, x.w)
	}
	if y.isConst() {
		return c.Add(x, c.BV(-y.val, x.w))
	}
	if x.op == OAdd {
		if x.args[0] == y {
			return x.args[1]
		}
		if x.args[1] == y {
			return x.args[0]
		}
		if x.args[1].isConst() {
			return c.Add(c.Sub(x.args[0], y), x.args[1])
		}
	}
	if y.op == OAdd && y.args[1].isConst() {
		return c.Add(c.Sub(x, y.args[0]), c.BV(-y.args[1].val, x.w))
	}
	return c.bin(OSub, x.w, x, y)
}

func (c *Ctx) Mul(x, y *Expr) *Expr {
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		if x.isConst() {
			return c.BV(x.val*y.val, x.w)
		}
		if y.val == 0 {
			return y
		}
		if y.val == 1 {
			return x
		}
		if bits.OnesCount64(y.val) == 1 && x.op != OVar {
			return c.Shl(x, c.BV(uint64(bits.TrailingZeros64(y.val)), x.w))
		}
	}
	return c.bin(OMul, x.w, x, y)
}

func (c *Ctx) divrem(op Op, x, y *Expr) *Expr {
	w := x.w
	if x.isConst() && y.isConst() && y.val != 0 {
		a, b := sext(x.val, w), sext(y.val, w)
		switch op {
		case OUDiv:
			return c.BV(x.val/y.val, w)
		case OURem:
			return c.BV(x.val%y.val, w)
		case OSDiv:
			if b == -1 {
				return c.BV(uint64(-a), w)
			}
			return c.BV(uint64(a/b), w)
		case OSRem:
			if b == -1 {
				return c.BV(0, w)
			}
			return c.BV(uint64(a%b), w)
		}
	}
	if y.isConst() && y.val == 1 {
		if op == OUDiv || op == OSDiv {
			return x
		}
		return c.BV(0, w)
	}
	if y.isConst() && bits.OnesCount64(y.val) == 1 {
		k := uint64(bits.TrailingZeros64(y.val))
		lo, _ := srange(x)
		if op == OUDiv || (op == OSDiv && lo >= 0) {
			return c.LShr(x, c.BV(k, w))
		}
		if op == OURem || (op == OSRem && lo >= 0) {
			return c.BAnd(x, c.BV(y.val-1, w))
		}
	}
	if op == OSDiv || op == OSRem {
		// both non-negative: unsigned
		if a, _ := srange(x); a >= 0 {
			if d, _ := srange(y); d >= 0 {
				if op == OSDiv {
					op = OUDiv
				} else {
					op = OURem
				}
			}
		}
	}
	return c.bin(op, w, x, y)
}

// ---- bit structure

type seg struct {
	w uint8
	e *Expr // nil = zeros
}

func (c *Ctx) segs(x *Expr) []seg { // most significant first
	switch x.op {
	case OConst:
		if x.val == 0 {
			return []seg{{x.w, nil}}
		}
	case OConcat:
		return append(c.segs(x.args[0]), c.segs(x.args[1])...)
	case OZExt:
		return append([]seg{{x.w - x.args[0].w, nil}}, c.segs(x.args[0])...)
	}
	return []seg{{x.w, x}}
}

func (c *Ctx) fromSegs(ss []seg) *Expr {
	var r *Expr
	var zeros uint8
	for _, s := range ss {
		if s.w == 0 {
			continue
		}
		if r == nil {
			if s.e == nil {
				zeros += s.w
				continue
			}
			r = s.e
			continue
		}
		if s.e == nil {
			r = c.Concat(r, c.BV(0, s.w))
		} else {
			r = c.Concat(r, s.e)
		}
	}
	if r == nil {
		return c.BV(0, zeros)
	}
	if zeros > 0 {
		return c.ZExt(r, r.w+zeros)
	}
	return r
}

func (c *Ctx) Concat(x, y *Expr) *Expr {
	if x.isConst() && y.isConst() {
		return c.BV(x.val<<y.w|y.val, x.w+y.w)
	}
	if x.isConst() && x.val == 0 {
		return c.ZExt(y, x.w+y.w)
	}
	// adjacent extracts of the same term
	if x.op == OExtract && y.op == OExtract && x.args[0] == y.args[0] && x.a == y.a+y.w {
		return c.Extract(x.args[0], x.a+x.w-1, y.a)
	}
	// right-assoc merge: concat(concat(p, ext1), ext2)
	if x.op == OConcat && y.op == OExtract && x.args[1].op == OExtract && x.args[1].args[0] == y.args[0] && x.args[1].a == y.a+y.w {
		return c.Concat(x.args[0], c.Extract(y.args[0], x.args[1].a+x.args[1].w-1, y.a))
	}
	if x.op == OZExt {
		return c.ZExt(c.Concat(x.args[0], y), x.w+y.w)
	}
	return c.bin(OConcat, x.w+y.w, x, y)
}

func (c *Ctx) Extract(x *Expr, hi, lo uint8) *Expr {
	w := hi - lo + 1
	if lo == 0 && w == x.w {
		return x
	}
	switch x.op {
	case OConst:
		return c.BV(x.val>>lo, w)
	case OExtract:
		return c.Extract(x.args[0], x.a+hi, x.a+lo)
	case OConcat:
		l := x.args[1]
		if hi < l.w {
			return c.Extract(l, hi, lo)
		}
		if lo >= l.w {
			return c.Extract(x.args[0], hi-l.w, lo-l.w)
		}
		return c.Concat(c.Extract(x.args[0], hi-l.w, 0), c.Extract(l, l.w-1, lo))
	case OZExt:
		in := x.args[0]
		if hi < in.w {
			return c.Extract(in, hi, lo)
		}
		if lo >= in.w {
			return c.BV(0, w)
		}
		return c.ZExt(c.Extract(in, in.w-1, lo), w)
	case OSExt:
		in := x.args[0]
		if hi < in.w {
			return c.Extract(in, hi, lo)
		}
	case OIte:
		if x.args[1].isConst() && x.args[2].isConst() {
			return c.Ite(x.args[0], c.Extract(x.args[1], hi, lo), c.Extract(x.args[2], hi, lo))
		}
	case OBAnd, OBOr, OBXor:
		p, q := c.Extract(x.args[0], hi, lo), c.Extract(x.args[1], hi, lo)
		switch x.op {
		case OBAnd:
			return c.BAnd(p, q)
		case OBOr:
			return c.BOr(p, q)
		default:
			return c.BXor(p, q)
		}
	case OTbl:
		nv := make([]uint64, len(x.tbl.vals))
		for i, v := range x.tbl.vals {
			nv[i] = v >> lo & mask(w)
		}
		return c.Tbl(nv, x.args[0], w)
	case OAdd, OSub, OMul:
		if lo == 0 {
			p, q := c.Extract(x.args[0], hi, 0), c.Extract(x.args[1], hi, 0)
			switch x.op {
			case OAdd:
				return c.Add(p, q)
			case OSub:
				return c.Sub(p, q)
			default:
				return c.Mul(p, q)
			}
		}
	}
	return c.mk(&Expr{op: OExtract, w: w, a: lo, args: []*Expr{x}})
}

func (c *Ctx) ZExt(x *Expr, w uint8) *Expr {
	if w == x.w {
		return x
	}
	if w < x.w {
		return c.Extract(x, w-1, 0)
	}
	if x.isConst() {
		return c.BV(x.val, w)
	}
	if x.op == OZExt {
		return c.ZExt(x.args[0], w)
	}
	if x.op == OTbl {
		return c.Tbl(x.tbl.vals, x.args[0], w)
	}
	return c.mk(&Expr{op: OZExt, w: w, args: []*Expr{x}})
}

func (c *Ctx) SExt(x *Expr, w uint8) *Expr {
	if w == x.w {
		return x
	}
	if w < x.w {
		return c.Extract(x, w-1, 0)
	}
	if x.isConst() {
		return c.BV(uint64(sext(x.val, x.w)), w)
	}
	if x.op == OZExt {
		return c.ZExt(x.args[0], w)
	}
	return c.mk(&Expr{op: OSExt, w: w, args: []*Expr{x}})
}

func (c *Ctx) BAnd(x, y *Expr) *Expr {
	if x == y {
		return x
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		if x.isConst() {
			return c.BV(x.val&y.val, x.w)
		}
		if y.val == 0 {
			return y
		}
		if y.val == mask(y.w) {
			return x
		}
		// contiguous mask
		tz := uint8(bits.TrailingZeros64(y.val))
		m := y.val >> tz
		if m&(m+1) == 0 {
			n := uint8(bits.Len64(m))
			r := c.Extract(x, tz+n-1, tz)
			if tz > 0 {
				r = c.Concat(r, c.BV(0, tz))
			}
			return c.ZExt(r, x.w)
		}
	}
	return c.bin(OBAnd, x.w, x, y)
}

func (c *Ctx) BOr(x, y *Expr) *Expr {
	if x == y {
		return x
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		if x.isConst() {
			return c.BV(x.val|y.val, x.w)
		}
		if y.val == 0 {
			return x
		}
		if y.val == mask(y.w) {
			return y
		}
	}
	// disjoint bit structure?
	a, b := c.segs(x), c.segs(y)
	if len(a) > 1 || len(b) > 1 {
		var out []seg
		i, j := 0, 0
		ok := true
		cut := func(s seg, n uint8) (seg, seg) {
			if s.w == n {
				return s, seg{}
			}
			if s.e == nil {
				return seg{n, nil}, seg{s.w - n, nil}
			}
			return seg{n, c.Extract(s.e, s.w-1, s.w-n)}, seg{s.w - n, c.Extract(s.e, s.w-n-1, 0)}
		}
		var ra, rb seg
		for ok {
			if ra.w == 0 {
				if i >= len(a) {
					break
				}
				ra = a[i]
				i++
			}
			if rb.w == 0 {
				rb = b[j]
				j++
			}
			n := ra.w
			if rb.w < n {
				n = rb.w
			}
			var p, q seg
			p, ra = cut(ra, n)
			q, rb = cut(rb, n)
			switch {
			case p.e == nil || (p.e.isConst() && p.e.val == 0):
				out = append(out, q)
			case q.e == nil || (q.e.isConst() && q.e.val == 0):
				out = append(out, p)
			default:
				ok = false
			}
		}
		if ok {
			return c.fromSegs(out)
		}
	}
	return c.bin(OBOr, x.w, x, y)
}

func (c *Ctx) BXor(x, y *Expr) *Expr {
	if x == y {
		return c.BV(0, x.w)
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		if x.isConst() {
			return c.BV(x.val^y.val, x.w)
		}
		if y.val == 0 {
			return x
		}
	}
	return c.bin(OBXor, x.w, x, y)
}

func (c *Ctx) Shl(x, y *Expr) *Expr {
	if y.isConst() {
		if y.val >= uint64(x.w) {
			return c.BV(0, x.w)
		}
		k := uint8(y.val)
		if k == 0 {
			return x
		}
		return c.Concat(c.Extract(x, x.w-k-1, 0), c.BV(0, k))
	}
	return c.bin(OShl, x.w, x, y)
}

func (c *Ctx) LShr(x, y *Expr) *Expr {
	if y.isConst() {
		if y.val >= uint64(x.w) {
			return c.BV(0, x.w)
		}
		k := uint8(y.val)
		if k == 0 {
			return x
		}
		return c.ZExt(c.Extract(x, x.w-1, k), x.w)
	}
	return c.bin(OLShr, x.w, x, y)
}

func (c *Ctx) AShr(x, y *Expr) *Expr {
	if y.isConst() {
		k := y.val
		if k >= uint64(x.w) {
			k = uint64(x.w) - 1
		}
		if k == 0 {
			return x
		}
		if x.op == OZExt {
			return c.LShr(x, c.BV(k, x.w))
		}
		return c.SExt(c.Extract(x, x.w-1, uint8(k)), x.w)
	}
	return c.bin(OAShr, x.w, x, y)
}

// Tbl reads vals[idx]; idx must be provably within the table or the table
// padded: entries outside are 0.
func (c *Ctx) Tbl(vals []uint64, idx *Expr, outW uint8) *Expr {
	if idx.isConst() {
		if idx.val < uint64(len(vals)) {
			return c.BV(vals[idx.val], outW)
		}
		return c.BV(0, outW)
	}
	// strip zero extension of the index
	for idx.op == OZExt {
		idx = idx.args[0]
	}
	if idx.op == OTbl {
		nv := make([]uint64, len(idx.tbl.vals))
		for i, v := range idx.tbl.vals {
			if v < uint64(len(vals)) {
				nv[i] = vals[v]
			}
		}
		return c.Tbl(nv, idx.args[0], outW)
	}
	if idx.w > 12 {
		panic(unsupported{"table index too wide"})
	}
	n := 1 << idx.w
	full := make([]uint64, n)
	copy(full, vals)
	ident := true
	seen := map[uint64]bool{}
	inj := true
	allSame := true
	for i, v := range full {
		v &= mask(outW)
		full[i] = v
		if v != uint64(i) {
			ident = false
		}
		if v != full[0] {
			allSame = false
		}
		if seen[v] {
			inj = false
		}
		seen[v] = true
	}
	if allSame {
		return c.BV(full[0], outW)
	}
	if ident {
		return c.ZExt(idx, outW)
	}
	key := fmt.Sprint(outW, full)
	t := c.tables[key]
	if t == nil {
		t = &Table{id: len(c.tables), vals: full, inW: idx.w, outW: outW, injct: inj, key: key}
		c.tables[key] = t
	}
	return c.mk(&Expr{op: OTbl, w: outW, args: []*Expr{idx}, tbl: t})
}

// Vars returns the variables of e.
func (e *Expr) Vars() []*Expr {
	if e.hasV {
		return e.vars
	}
	e.hasV = true
	if e.op == OVar {
		e.vars = []*Expr{e}
		return e.vars
	}
	if len(e.args) == 1 {
		e.vars = e.args[0].Vars()
		return e.vars
	}
	seen := map[*Expr]bool{}
	var out []*Expr
	for _, a := range e.args {
		for _, v := range a.Vars() {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	e.vars = out
	return out
}

// Eval evaluates e under a model (missing variables read as def).
func (e *Expr) Eval(m map[string]uint64, memo map[*Expr]uint64) uint64 {
	switch e.op {
	case OConst:
		return e.val
	case OVar:
		v, ok := m[e.name]
		if !ok {
			if e.rng && (e.lo > 0 || e.hi < 0) {
				return uint64(e.lo) & mask(e.w)
			}
			return 0
		}
		return v
	}
	if v, ok := memo[e]; ok {
		return v
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch e.op {
	case OAnd:
		r = 1
		for _, a := range e.args {
			if a.Eval(m, memo) == 0 {
				r = 0
				break
			}
		}
	case OOr:
		for _, a := range e.args {
			if a.Eval(m, memo) != 0 {
				r = 1
				break
			}
		}
	case ONot:
		r = 1 - e.args[0].Eval(m, memo)
	case OIte:
		if e.args[0].Eval(m, memo) != 0 {
			r = e.args[1].Eval(m, memo)
		} else {
			r = e.args[2].Eval(m, memo)
		}
	default:
		x := e.args[0].Eval(m, memo)
		var y uint64
		if len(e.args) > 1 {
			y = e.args[1].Eval(m, memo)
		}
		aw := e.args[0].w
		switch e.op {
		case OEq:
			r = b2u(x == y)
		case OAdd:
			r = x + y
		case OSub:
			r = x - y
		case OMul:
			r = x * y
		case OUDiv:
			if y == 0 {
				r = mask(e.w)
			} else {
				r = x / y
			}
		case OURem:
			if y == 0 {
				r = x
			} else {
				r = x % y
			}
		case OSDiv:
			a, b := sext(x, aw), sext(y, aw)
			switch {
			case b == 0:
				if a >= 0 {
					r = mask(e.w)
				} else {
					r = 1
				}
			case b == -1:
				r = uint64(-a)
			default:
				r = uint64(a / b)
			}
		case OSRem:
			a, b := sext(x, aw), sext(y, aw)
			switch {
			case b == 0:
				r = x
			case b == -1:
				r = 0
			default:
				r = uint64(a % b)
			}
		case OBAnd:
			r = x & y
		case OBOr:
			r = x | y
		case OBXor:
			r = x ^ y
		case OShl:
			if y < uint64(e.w) {
				r = x << y
			}
		case OLShr:
			if y < uint64(e.w) {
				r = x >> y
			}
		case OAShr:
			if y >= uint64(e.w) {
				y = uint64(e.w) - 1
			}
			r = uint64(sext(x, aw) >> y)
		case OULt:
			r = b2u(x < y)
		case OULe:
			r = b2u(x <= y)
		case OSLt:
			r = b2u(sext(x, aw) < sext(y, aw))
		case OSLe:
			r = b2u(sext(x, aw) <= sext(y, aw))
		case OConcat:
			r = x<<e.args[1].w | y
		case OExtract:
			r = x >> e.a
		case OZExt:
			r = x
		case OSExt:
			r = uint64(sext(x, aw))
		case OTbl:
			r = e.tbl.vals[x]
		default:
			panic("eval op")
		}
	}
	if e.w > 0 {
		r &= mask(e.w)
	}
	memo[e] = r
	return r
}

func (e *Expr) String() string {
	switch e.op {
	case OConst:
		if e.w == 0 {
			return fmt.Sprint(e.val == 1)
		}
		return fmt.Sprintf("%d:%d", e.val, e.w)
	case OVar:
		return e.name
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(%v", opName(e))
	for _, a := range e.args {
		sb.WriteByte(' ')
		sb.WriteString(a.String())
		if sb.Len() > 400 {
			sb.WriteString("...")
			break
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

func opName(e *Expr) string {
	switch e.op {
	case OExtract:
		return fmt.Sprintf("ext[%d:%d]", e.a+e.w-1, e.a)
	case OZExt:
		return fmt.Sprintf("zx%d", e.w)
	case OSExt:
		return fmt.Sprintf("sx%d", e.w)
	case OTbl:
		return "tbl"
	}
	return opSMT[e.op]
}

type unsupported struct{ msg string }
