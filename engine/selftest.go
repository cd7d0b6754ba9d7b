package main

import (
	"flag"
	"fmt"
	"io"
	"math/rand"
	"sort"
)

// The simplifier and the two encodings are trusted by every check. selftest
// builds random terms twice, once through the simplifying constructors and once
// as plain nodes, and has the solver look for a difference. It also poses
// random questions over wide integers in both encodings.

type both struct{ s, r *Expr } // simplified, raw

type termGen struct {
	c    *Ctx
	rnd  *rand.Rand
	vars []*Expr
	pool map[uint8][]both
}

var termWidths = []uint8{0, 1, 3, 8, 16, 32, 64}

func (g *termGen) raw(op Op, w uint8, args ...*Expr) *Expr {
	return g.c.mk(&Expr{op: op, w: w, args: args})
}

func (g *termGen) leaf(w uint8) both {
	if w == 0 {
		if g.rnd.Intn(3) == 0 {
			e := g.c.Bool(g.rnd.Intn(2) == 0)
			return both{e, e}
		}
		e := g.c.Var(fmt.Sprintf("b%d", g.rnd.Intn(3)), 0)
		return both{e, e}
	}
	if g.rnd.Intn(3) == 0 {
		v := g.rnd.Uint64()
		switch g.rnd.Intn(4) {
		case 0:
			v = uint64(g.rnd.Intn(4))
		case 1:
			v = uint64(1) << uint(g.rnd.Intn(int(w)))
		case 2:
			v = -uint64(g.rnd.Intn(4))
		}
		e := g.c.BV(v, w)
		return both{e, e}
	}
	n := g.rnd.Intn(3)
	var e *Expr
	if n == 2 && w >= 8 {
		e = g.c.RVar(fmt.Sprintf("r%d", w), w, -3, 100)
	} else if n == 1 && w >= 8 {
		e = g.c.RVar(fmt.Sprintf("u%d", w), w, 0, 57)
	} else {
		e = g.c.Var(fmt.Sprintf("v%d", w), w)
	}
	return both{e, e}
}

func (g *termGen) pick(w uint8) both {
	if p := g.pool[w]; len(p) > 0 && g.rnd.Intn(4) != 0 {
		return p[g.rnd.Intn(len(p))]
	}
	return g.leaf(w)
}

func (g *termGen) width() uint8 { return termWidths[1+g.rnd.Intn(len(termWidths)-1)] }

func (g *termGen) grow() both {
	c := g.c
	not := func(e *Expr) *Expr { return g.raw(ONot, 0, e) }
	var t both
	switch g.rnd.Intn(30) {
	case 0:
		x := g.pick(0)
		t = both{c.Not(x.s), not(x.r)}
	case 1:
		x, y, z := g.pick(0), g.pick(0), g.pick(0)
		t = both{c.AndN(x.s, y.s, z.s), g.raw(OAnd, 0, x.r, y.r, z.r)}
	case 2:
		x, y, z := g.pick(0), g.pick(0), g.pick(0)
		t = both{c.OrN(x.s, y.s, z.s), g.raw(OOr, 0, x.r, y.r, z.r)}
	case 3, 4, 5:
		w := termWidths[g.rnd.Intn(len(termWidths))]
		x, y := g.pick(w), g.pick(w)
		t = both{c.Eq(x.s, y.s), g.raw(OEq, 0, x.r, y.r)}
	case 6, 7:
		w := termWidths[g.rnd.Intn(len(termWidths))]
		b, x, y := g.pick(0), g.pick(w), g.pick(w)
		t = both{c.Ite(b.s, x.s, y.s), g.raw(OIte, w, b.r, x.r, y.r)}
	case 8, 9:
		w := g.width()
		x, y := g.pick(w), g.pick(w)
		t = both{c.ULt(x.s, y.s), g.raw(OULt, 0, x.r, y.r)}
	case 10:
		w := g.width()
		x, y := g.pick(w), g.pick(w)
		t = both{c.ULe(x.s, y.s), g.raw(OULe, 0, x.r, y.r)}
	case 11, 12:
		w := g.width()
		x, y := g.pick(w), g.pick(w)
		t = both{c.SLt(x.s, y.s), g.raw(OSLt, 0, x.r, y.r)}
	case 13:
		w := g.width()
		x, y := g.pick(w), g.pick(w)
		t = both{c.SLe(x.s, y.s), g.raw(OSLe, 0, x.r, y.r)}
	case 14:
		w := g.width()
		x, y := g.pick(w), g.pick(w)
		t = both{c.Add(x.s, y.s), g.raw(OAdd, w, x.r, y.r)}
	case 15:
		w := g.width()
		x, y := g.pick(w), g.pick(w)
		t = both{c.Sub(x.s, y.s), g.raw(OSub, w, x.r, y.r)}
	case 16:
		w := termWidths[1+g.rnd.Intn(3)]
		x, y := g.pick(w), g.pick(w)
		t = both{c.Mul(x.s, y.s), g.raw(OMul, w, x.r, y.r)}
	case 17, 18:
		w := termWidths[2+g.rnd.Intn(2)]
		x := g.pick(w)
		d := c.BV(uint64(1+g.rnd.Intn(int(mask(w)))), w) // divisors are known to be non-zero
		op := []Op{OUDiv, OSDiv, OURem, OSRem}[g.rnd.Intn(4)]
		t = both{c.divrem(op, x.s, d), g.raw(op, w, x.r, d)}
	case 19:
		w := g.width()
		x, y := g.pick(w), g.pick(w)
		t = both{c.BAnd(x.s, y.s), g.raw(OBAnd, w, x.r, y.r)}
	case 20:
		w := g.width()
		x, y := g.pick(w), g.pick(w)
		t = both{c.BOr(x.s, y.s), g.raw(OBOr, w, x.r, y.r)}
	case 21:
		w := g.width()
		x, y := g.pick(w), g.pick(w)
		t = both{c.BXor(x.s, y.s), g.raw(OBXor, w, x.r, y.r)}
	case 22, 23, 24:
		w := g.width()
		x, y := g.pick(w), g.pick(w)
		if g.rnd.Intn(2) == 0 {
			k := c.BV(uint64(g.rnd.Intn(int(w)+2)), w)
			y = both{k, k}
		}
		switch g.rnd.Intn(3) {
		case 0:
			t = both{c.Shl(x.s, y.s), g.raw(OShl, w, x.r, y.r)}
		case 1:
			t = both{c.LShr(x.s, y.s), g.raw(OLShr, w, x.r, y.r)}
		default:
			t = both{c.AShr(x.s, y.s), g.raw(OAShr, w, x.r, y.r)}
		}
	case 25, 26:
		w := termWidths[2+g.rnd.Intn(len(termWidths)-2)]
		to := termWidths[1+g.rnd.Intn(4)]
		if to >= w {
			to = 1
		}
		x := g.pick(w)
		lo := uint8(g.rnd.Intn(int(w-to) + 1))
		t = both{c.Extract(x.s, lo+to-1, lo), c.mk(&Expr{op: OExtract, w: to, a: lo, args: []*Expr{x.r}})}
	case 27:
		w := termWidths[1+g.rnd.Intn(len(termWidths)-2)]
		x := g.pick(w)
		for _, to := range termWidths {
			if to > w && g.rnd.Intn(2) == 0 {
				if g.rnd.Intn(2) == 0 {
					t = both{c.ZExt(x.s, to), g.raw(OZExt, to, x.r)}
				} else {
					t = both{c.SExt(x.s, to), g.raw(OSExt, to, x.r)}
				}
				break
			}
		}
		if t.s == nil {
			return x
		}
	case 28:
		w := []uint8{8, 16, 32}[g.rnd.Intn(3)]
		x, y := g.pick(w), g.pick(w)
		t = both{c.Concat(x.s, y.s), g.raw(OConcat, 2*w, x.r, y.r)}
	default:
		x := g.pick(3)
		vals := make([]uint64, 8)
		for i := range vals {
			vals[i] = g.rnd.Uint64() & 255
			if g.rnd.Intn(2) == 0 {
				vals[i] = uint64(i * 3)
			}
		}
		s := c.Tbl(vals, x.s, 8)
		r := c.BV(vals[7], 8)
		for i := 6; i >= 0; i-- {
			r = g.raw(OIte, 8, g.raw(OEq, 0, x.r, c.BV(uint64(i), 3)), c.BV(vals[i], 8), r)
		}
		t = both{s, r}
	}
	if t.s.w != t.r.w {
		panic(fmt.Sprintf("selftest: widths differ: %v and %v", t.s, t.r))
	}
	g.pool[t.s.w] = append(g.pool[t.s.w], t)
	return t
}

// wide builds a question over wide ranged integers, as clocks and durations pose.
func (g *termGen) wide(d int) *Expr {
	c := g.c
	if d == 0 {
		switch g.rnd.Intn(3) {
		case 0:
			return c.BV(uint64(g.rnd.Int63n(1<<40)), 64)
		case 1:
			return c.RVar("t1", 64, 0, 1<<45)
		default:
			return c.RVar("t2", 64, -(1 << 30), 1<<50)
		}
	}
	x, y := g.wide(d-1), g.wide(g.rnd.Intn(d))
	switch g.rnd.Intn(8) {
	case 0, 1, 6:
		return c.Add(x, y)
	case 2, 3:
		return c.Sub(x, y)
	case 4, 7:
		return c.Ite(g.cmp(d-1), x, y)
	default:
		op := []Op{OUDiv, OURem, OSDiv}[g.rnd.Intn(3)]
		return c.divrem(op, x, c.BV(uint64(1+g.rnd.Intn(1000)), 64))
	}
}

func (g *termGen) cmp(d int) *Expr {
	x, y := g.wide(d), g.wide(d)
	switch g.rnd.Intn(5) {
	case 0:
		return g.c.Eq(x, y)
	case 1:
		return g.c.Not(g.c.SLt(x, y))
	case 2:
		return g.c.ULt(x, y)
	default:
		return g.c.SLt(x, y)
	}
}

func cmdSelftest(args []string) int {
	fs := flag.NewFlagSet("selftest", flag.ExitOnError)
	n := fs.Int("n", 3000, "questions of each kind")
	seed := fs.Int64("seed", 1, "")
	fs.Parse(args)
	z3, cvc5 := NewSolver(z3bin()), NewSolver(cvc5bin())
	defer z3.Close()
	defer cvc5.Close()
	z3.plain, cvc5.plain = true, true
	int3 := NewSolver(z3bin())
	defer int3.Close()
	rnd := rand.New(rand.NewSource(*seed))
	ask := func(s *Solver, e *Expr) satRes {
		if e.isTrue() {
			return rSat
		} else if e.isFalse() {
			return rUnsat
		}
		vs := append([]*Expr(nil), e.Vars()...)
		sort.Slice(vs, func(i, j int) bool { return vs[i].name < vs[j].name })
		r, m := s.ask([]*Expr{e}, vs)
		if r == rSat && e.Eval(m, map[*Expr]uint64{}) == 0 {
			fmt.Println("selftest: the model does not satisfy", e)
			return rUnknown + 1
		}
		return r
	}
	bad, open, posed := 0, 0, 0
	var g *termGen
	for i := 0; i < *n; i++ {
		if i%40 == 0 {
			g = &termGen{c: NewCtx(), rnd: rnd, pool: map[uint8][]both{}}
			for j := 0; j < 20; j++ {
				g.grow()
			}
		}
		t := g.grow()
		if t.s == t.r {
			continue
		}
		diff := g.raw(ONot, 0, g.raw(OEq, 0, t.s, t.r))
		s := z3
		if i%7 == 0 {
			s = cvc5
		}
		posed++
		switch ask(s, diff) {
		case rUnsat:
		case rUnknown:
			open++
		default:
			bad++
			fmt.Printf("selftest: simplified %v differs from %v\n", t.s, t.r)
		}
	}
	fmt.Printf("simplifier: %d differences looked for, %d found, %d undecided\n", posed, bad, open)
	open, posed = 0, 0
	io.WriteString(z3.in, "(set-option :timeout 1500)\n") // division by constants is slow over bits
	lia := gStats.LIA
	for i := 0; i < *n/5; i++ {
		g := &termGen{c: NewCtx(), rnd: rnd}
		q := g.c.AndN(g.cmp(1+i%3), g.cmp(1), g.cmp(i%2))
		if q.isConst() {
			continue
		}
		posed++
		a, b := ask(int3, q), ask(z3, q)
		if a == rUnknown || b == rUnknown {
			open++
		} else if a != b {
			bad++
			fmt.Printf("selftest: integers say %v, bit-vectors %v: %v\n", a, b, q)
		}
	}
	fmt.Printf("encodings: %d questions, %d posed over integers, %d undecided\n", posed, gStats.LIA-lia, open)
	if bad > 0 {
		return 1
	}
	return 0
}
