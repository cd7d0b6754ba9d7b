package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type satRes int

const (
	rUnsat satRes = iota
	rSat
	rUnknown
)

// Stats of the deciding solver, for the evidence file.
type SolverStats struct {
	Queries   int64 // sent to a solver
	CacheHits int64
	Sat       int64
	Unsat     int64
	Unknown   int64
	LIA       int64
	BV        int64
	Cross     int64 // answered again by the second solver
	Disagree  int64
	Nanos     int64
}

var gStats SolverStats

type cacheEnt struct {
	res   satRes
	model map[string]uint64
}

func z3bin() []string { return []string{"z3-new", "-in"} }

func cvc5bin() []string {
	return []string{"cvc5", "--incremental", "--produce-models", "--tlimit-per=10000"}
}

var queryCache sync.Map // [2]uint64 -> cacheEnt

type Solver struct {
	bin    []string
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	tables map[string]string
	ntbl   int
	n      int
	cross  *Solver // second solver, sampled
	crossN int
	plain  bool // bit-vectors only (selftest)
}

func NewSolver(bin []string) *Solver {
	s := &Solver{bin: bin}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.tables = map[string]string{}
	s.n = 0
	if strings.Contains(s.bin[0], "cvc5") {
		io.WriteString(s.in, "(set-logic ALL)\n")
	} else {
		io.WriteString(s.in, "(set-option :timeout 30000)\n")
	}
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
	if s.cross != nil {
		s.cross.Close()
	}
}

func sym(name string) string { return "|" + name + "|" }

// ---- bit-vector printing

type printer struct {
	s    *Solver
	sb   *strings.Builder
	name map[*Expr]string
	refs map[*Expr]int
	n    int
}

func (p *printer) count(e *Expr) {
	p.refs[e]++
	if p.refs[e] > 1 {
		return
	}
	for _, a := range e.args {
		p.count(a)
	}
}

func (p *printer) tbl(t *Table) string {
	if n, ok := p.s.tables[t.key]; ok {
		return n
	}
	n := fmt.Sprintf("tbl!%d", p.s.ntbl)
	p.s.ntbl++
	var build func(lo, hi int, bit int) string
	build = func(lo, hi, bit int) string {
		same := true
		for i := lo; i < hi; i++ {
			if t.vals[i] != t.vals[lo] {
				same = false
				break
			}
		}
		if same {
			return bvc(t.vals[lo], t.outW)
		}
		mid := (lo + hi) / 2
		return fmt.Sprintf("(ite (= ((_ extract %d %d) i) #b1) %s %s)", bit, bit, build(mid, hi, bit-1), build(lo, mid, bit-1))
	}
	def := fmt.Sprintf("(define-fun %s ((i (_ BitVec %d))) (_ BitVec %d) %s)\n", n, t.inW, t.outW, build(0, len(t.vals), int(t.inW)-1))
	io.WriteString(p.s.in, def) // global: printed before the push
	p.s.tables[t.key] = n
	return n
}

func bvc(v uint64, w uint8) string { return fmt.Sprintf("(_ bv%d %d)", v, w) }

func (p *printer) pr(e *Expr) string {
	switch e.op {
	case OConst:
		if e.w == 0 {
			if e.val == 1 {
				return "true"
			}
			return "false"
		}
		return bvc(e.val, e.w)
	case OVar:
		return sym(e.name)
	}
	if n, ok := p.name[e]; ok {
		return n
	}
	var b strings.Builder
	switch e.op {
	case OExtract:
		fmt.Fprintf(&b, "((_ extract %d %d) %s)", e.a+e.w-1, e.a, p.pr(e.args[0]))
	case OZExt:
		fmt.Fprintf(&b, "((_ zero_extend %d) %s)", e.w-e.args[0].w, p.pr(e.args[0]))
	case OSExt:
		fmt.Fprintf(&b, "((_ sign_extend %d) %s)", e.w-e.args[0].w, p.pr(e.args[0]))
	case OTbl:
		fmt.Fprintf(&b, "(%s %s)", p.tbl(e.tbl), p.pr(e.args[0]))
	default:
		b.WriteByte('(')
		b.WriteString(opSMT[e.op])
		for _, a := range e.args {
			b.WriteByte(' ')
			b.WriteString(p.pr(a))
		}
		b.WriteByte(')')
	}
	if p.refs[e] > 1 {
		n := fmt.Sprintf("d!%d", p.n)
		p.n++
		sort := "Bool"
		if e.w > 0 {
			sort = fmt.Sprintf("(_ BitVec %d)", e.w)
		}
		fmt.Fprintf(p.sb, "(define-fun %s () %s %s)\n", n, sort, b.String())
		p.name[e] = n
		return n
	}
	return b.String()
}

// ---- linear integer printing: exact, only where no operation can wrap.

type liaFail struct{}

type liaP struct{ memo map[*Expr]string }

func intc(v int64) string {
	if v < 0 {
		if v == -1<<63 {
			return "(- 9223372036854775808)"
		}
		return fmt.Sprintf("(- %d)", -v)
	}
	return strconv.FormatInt(v, 10)
}

func fitsU(lo, hi int64, w uint8) bool {
	if w >= 64 {
		return true
	}
	return lo >= 0 && uint64(hi) <= mask(w)
}

// exact reports the exact integer range of e under the representation used by
// the LIA encoding (unsigned for w<64, signed for 64), or fails.
func (p *liaP) exact(e *Expr) (int64, int64) {
	if e.w < 64 {
		switch e.op {
		case OConst:
			return int64(e.val), int64(e.val)
		case OVar:
			if e.rng {
				if e.lo < 0 {
					panic(liaFail{})
				}
				return e.lo, e.hi
			}
			if e.w > 62 {
				panic(liaFail{})
			}
			return 0, int64(mask(e.w))
		}
	}
	switch e.op {
	case OConst:
		v := int64(e.val)
		return v, v
	case OVar:
		if !e.rng {
			panic(liaFail{})
		}
		return e.lo, e.hi
	case OZExt:
		return p.exact(e.args[0])
	case OSExt:
		lo, hi := p.exact(e.args[0])
		if hi >= int64(1)<<(e.args[0].w-1) {
			panic(liaFail{})
		}
		return lo, hi
	case OAdd, OSub, OMul:
		a, b := p.exact(e.args[0])
		if e.op == OAdd && e.args[1].isConst() {
			// constants may be negative
			k := sext(e.args[1].val, e.w)
			lo, o1 := addOv(a, k)
			hi, o2 := addOv(b, k)
			if o1 || o2 || !fitsU(lo, hi, e.w) {
				panic(liaFail{})
			}
			return lo, hi
		}
		c, d := p.exact(e.args[1])
		var lo, hi int64
		var o1, o2 bool
		switch e.op {
		case OAdd:
			lo, o1 = addOv(a, c)
			hi, o2 = addOv(b, d)
		case OSub:
			lo, o1 = subOv(a, d)
			hi, o2 = subOv(b, c)
		default:
			if !e.args[1].isConst() {
				panic(liaFail{})
			}
			lo, o1 = mulOv(a, c)
			hi, o2 = mulOv(b, c)
			if lo > hi {
				lo, hi = hi, lo
			}
		}
		if o1 || o2 || !fitsU(lo, hi, e.w) {
			panic(liaFail{})
		}
		return lo, hi
	case OIte:
		a, b := p.exact(e.args[1])
		c, d := p.exact(e.args[2])
		if c < a {
			a = c
		}
		if d > b {
			b = d
		}
		return a, b
	case OUDiv, OURem:
		a, b := p.exact(e.args[0])
		if a < 0 || !e.args[1].isConst() || e.args[1].val == 0 || int64(e.args[1].val) < 0 {
			panic(liaFail{})
		}
		k := int64(e.args[1].val)
		if e.op == OURem {
			if b >= k {
				return 0, k - 1
			}
			return 0, b
		}
		return a / k, b / k
	}
	panic(liaFail{})
}

func (p *liaP) num(e *Expr) string {
	if s, ok := p.memo[e]; ok {
		return s
	}
	var r string
	p.exact(e)
	switch e.op {
	case OConst:
		if e.w < 64 {
			r = strconv.FormatUint(e.val, 10)
		} else {
			r = intc(int64(e.val))
		}
	case OVar:
		r = sym(e.name)
	case OZExt, OSExt:
		r = p.num(e.args[0])
	case OAdd:
		if e.args[1].isConst() {
			r = fmt.Sprintf("(+ %s %s)", p.num(e.args[0]), intc(sext(e.args[1].val, e.w)))
		} else {
			r = fmt.Sprintf("(+ %s %s)", p.num(e.args[0]), p.num(e.args[1]))
		}
	case OSub:
		r = fmt.Sprintf("(- %s %s)", p.num(e.args[0]), p.num(e.args[1]))
	case OMul:
		r = fmt.Sprintf("(* %s %s)", p.num(e.args[0]), p.num(e.args[1]))
	case OUDiv:
		r = fmt.Sprintf("(div %s %s)", p.num(e.args[0]), p.num(e.args[1]))
	case OURem:
		r = fmt.Sprintf("(mod %s %s)", p.num(e.args[0]), p.num(e.args[1]))
	case OIte:
		r = fmt.Sprintf("(ite %s %s %s)", p.boolean(e.args[0]), p.num(e.args[1]), p.num(e.args[2]))
	default:
		panic(liaFail{})
	}
	p.memo[e] = r
	return r
}

func (p *liaP) boolean(e *Expr) string {
	if s, ok := p.memo[e]; ok {
		return s
	}
	var r string
	switch e.op {
	case OConst:
		r = "false"
		if e.val == 1 {
			r = "true"
		}
	case OVar:
		r = sym(e.name)
	case ONot, OAnd, OOr:
		var b strings.Builder
		b.WriteString("(" + opSMT[e.op])
		for _, a := range e.args {
			b.WriteString(" " + p.boolean(a))
		}
		b.WriteString(")")
		r = b.String()
	case OIte:
		r = fmt.Sprintf("(ite %s %s %s)", p.boolean(e.args[0]), p.boolean(e.args[1]), p.boolean(e.args[2]))
	case OEq:
		if e.args[0].w == 0 {
			r = fmt.Sprintf("(= %s %s)", p.boolean(e.args[0]), p.boolean(e.args[1]))
		} else {
			r = fmt.Sprintf("(= %s %s)", p.num(e.args[0]), p.num(e.args[1]))
		}
	case OSLt, OSLe, OULt, OULe:
		a0, a1 := p.exact(e.args[0])
		b0, b1 := p.exact(e.args[1])
		w := e.args[0].w
		if e.op == OSLt || e.op == OSLe {
			if w < 64 && (a1 >= 1<<(w-1) || b1 >= 1<<(w-1)) {
				panic(liaFail{})
			}
		} else if w == 64 && (a0 < 0 || b0 < 0) {
			panic(liaFail{})
		}
		o := "<"
		if e.op == OSLe || e.op == OULe {
			o = "<="
		}
		r = fmt.Sprintf("(%s %s %s)", o, p.num(e.args[0]), p.num(e.args[1]))
	default:
		panic(liaFail{})
	}
	p.memo[e] = r
	return r
}

func hasWide(e *Expr, seen map[*Expr]bool) bool {
	if seen[e] {
		return false
	}
	seen[e] = true
	switch e.op {
	case OVar:
		if e.w >= 32 {
			return true
		}
	case OAdd, OSub, OMul, OUDiv, OURem, OSDiv, OSRem:
		if e.w >= 16 {
			return true
		}
	}
	for _, a := range e.args {
		if hasWide(a, seen) {
			return true
		}
	}
	return false
}

// Check decides the conjunction of cs.
func (s *Solver) Check(cs []*Expr) (satRes, map[string]uint64) {
	var k0, k1 uint64
	for _, c := range cs {
		k0 += mix(c.h1, 77)
		k1 += mix(c.h2, 99)
	}
	// variable ranges are part of the question
	vars := map[*Expr]bool{}
	var vlist []*Expr
	for _, c := range cs {
		for _, v := range c.Vars() {
			if !vars[v] {
				vars[v] = true
				vlist = append(vlist, v)
				if v.rng {
					k0 += mix(v.h1^uint64(v.lo), uint64(v.hi))
				}
			}
		}
	}
	key := [2]uint64{k0, k1}
	if e, ok := queryCache.Load(key); ok {
		atomic.AddInt64(&gStats.CacheHits, 1)
		ce := e.(cacheEnt)
		return ce.res, ce.model
	}
	sort.Slice(vlist, func(i, j int) bool { return vlist[i].name < vlist[j].name })
	t0 := time.Now()
	res, model := s.ask(cs, vlist)
	atomic.AddInt64(&gStats.Nanos, int64(time.Since(t0)))
	atomic.AddInt64(&gStats.Queries, 1)
	switch res {
	case rSat:
		atomic.AddInt64(&gStats.Sat, 1)
	case rUnsat:
		atomic.AddInt64(&gStats.Unsat, 1)
	default:
		atomic.AddInt64(&gStats.Unknown, 1)
	}
	if res == rSat {
		// the model must satisfy the original terms: this checks the
		// printer, the solver and the LIA encoding on every sat answer.
		memo := map[*Expr]uint64{}
		for _, c := range cs {
			if c.Eval(model, memo) == 0 {
				panic(fmt.Sprintf("solver model does not satisfy %v under %v", c, model))
			}
		}
	}
	if s.cross != nil && res != rUnknown {
		s.crossN++
		if s.crossN%97 == 1 || (res == rUnsat && s.crossN%23 == 1) {
			r2, _ := s.cross.ask(cs, vlist)
			if r2 != rUnknown {
				atomic.AddInt64(&gStats.Cross, 1)
				if r2 != res {
					atomic.AddInt64(&gStats.Disagree, 1)
					res = rUnknown
				}
			}
		}
	}
	if res != rUnknown {
		queryCache.Store(key, cacheEnt{res, model})
	}
	return res, model
}

func (s *Solver) ask(cs []*Expr, vlist []*Expr) (satRes, map[string]uint64) {
	s.n++
	if s.n > 20000 { // bound the memory of a long-lived process
		x := s.cross
		s.cross = nil
		s.Close()
		s.start()
		s.cross = x
	}
	var sb strings.Builder
	lia := false
	seen := map[*Expr]bool{}
	for _, c := range cs {
		if !s.plain && hasWide(c, seen) {
			lia = true
			break
		}
	}
	var body string
	if lia {
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(liaFail); !ok {
						panic(x)
					}
					lia = false
				}
			}()
			p := &liaP{memo: map[*Expr]string{}}
			var b strings.Builder
			for _, v := range vlist {
				if v.w == 0 {
					fmt.Fprintf(&b, "(declare-const %s Bool)\n", sym(v.name))
					continue
				}
				lo, hi := p.exact(v)
				fmt.Fprintf(&b, "(declare-const %s Int)\n(assert (<= %s %s %s))\n", sym(v.name), intc(lo), sym(v.name), intc(hi))
			}
			for _, c := range cs {
				fmt.Fprintf(&b, "(assert %s)\n", p.boolean(c))
			}
			body = b.String()
		}()
	}
	if !lia {
		atomic.AddInt64(&gStats.BV, 1)
		p := &printer{s: s, sb: &sb, name: map[*Expr]string{}, refs: map[*Expr]int{}}
		for _, c := range cs {
			p.count(c)
		}
		var decl strings.Builder
		for _, v := range vlist {
			if v.w == 0 {
				fmt.Fprintf(&decl, "(declare-const %s Bool)\n", sym(v.name))
				continue
			}
			fmt.Fprintf(&decl, "(declare-const %s (_ BitVec %d))\n", sym(v.name), v.w)
			if v.rng {
				fmt.Fprintf(&decl, "(assert (and (bvsle %s %s) (bvsle %s %s)))\n", bvc(uint64(v.lo)&mask(v.w), v.w), sym(v.name), sym(v.name), bvc(uint64(v.hi)&mask(v.w), v.w))
			}
		}
		for _, c := range cs {
			t := p.pr(c)
			fmt.Fprintf(&sb, "(assert %s)\n", t)
		}
		body = decl.String() + sb.String()
	} else {
		atomic.AddInt64(&gStats.LIA, 1)
	}
	io.WriteString(s.in, "(push 1)\n"+body+"(check-sat)\n")
	line, err := s.line()
	if err != nil {
		s.restart()
		return rUnknown, nil
	}
	res := rUnknown
	var model map[string]uint64
	switch line {
	case "sat":
		res = rSat
		model = map[string]uint64{}
		if len(vlist) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vlist {
				q.WriteString(sym(v.name) + " ")
			}
			q.WriteString("))\n")
			io.WriteString(s.in, q.String())
			txt, err := s.sexp()
			if err != nil || !parseModel(txt, vlist, model) {
				s.restart()
				return rUnknown, nil
			}
		}
	case "unsat":
		res = rUnsat
	case "unknown", "timeout":
	default: // an error line: inconclusive, and the session is not trusted further
		solverErr.Store(line)
		s.restart()
		return rUnknown, nil
	}
	io.WriteString(s.in, "(pop 1)\n")
	return res, model
}

var solverErr atomic.Value

func (s *Solver) restart() {
	x := s.cross
	s.cross = nil
	s.Close()
	s.start()
	s.cross = x
}

func (s *Solver) line() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) sexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		inBar := false
		for _, ch := range l {
			switch {
			case ch == '|':
				inBar = !inBar
			case inBar:
			case ch == '(':
				depth++
				started = true
			case ch == ')':
				depth--
			}
		}
		sb.WriteString(l)
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

// parseModel reads ((|a| #x01) (|b| 5) (|c| (- 3)) (|d| true)) in vlist order.
func parseModel(txt string, vlist []*Expr, model map[string]uint64) bool {
	toks := tokenize(txt)
	i := 0
	if len(toks) == 0 || toks[0] != "(" {
		return false
	}
	i = 1
	for _, v := range vlist {
		if i+2 >= len(toks) || toks[i] != "(" {
			return false
		}
		i += 2 // ( name
		val, n, ok := parseVal(toks[i:])
		if !ok {
			return false
		}
		i += n
		if i >= len(toks) || toks[i] != ")" {
			return false
		}
		i++
		if v.w > 0 {
			val &= mask(v.w)
		}
		model[v.name] = val
	}
	return true
}

func parseVal(t []string) (uint64, int, bool) {
	switch {
	case t[0] == "true":
		return 1, 1, true
	case t[0] == "false":
		return 0, 1, true
	case strings.HasPrefix(t[0], "#x"):
		v, err := strconv.ParseUint(t[0][2:], 16, 64)
		return v, 1, err == nil
	case strings.HasPrefix(t[0], "#b"):
		v, err := strconv.ParseUint(t[0][2:], 2, 64)
		return v, 1, err == nil
	case t[0] == "(" && len(t) > 3 && t[1] == "-":
		v, err := strconv.ParseUint(t[2], 10, 64)
		return -v, 4, err == nil
	case t[0] == "(" && len(t) > 4 && t[1] == "_":
		v, err := strconv.ParseUint(strings.TrimPrefix(t[2], "bv"), 10, 64)
		return v, 5, err == nil
	}
	v, err := strconv.ParseUint(t[0], 10, 64)
	return v, 1, err == nil
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		switch ch := s[i]; {
		case ch == '(' || ch == ')':
			out = append(out, string(ch))
			i++
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		case ch == '|':
			j := strings.IndexByte(s[i+1:], '|') + i + 2
			out = append(out, s[i:j])
			i = j
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r|", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}
