package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A Run is one execution of a harness along one path. Paths are explored by
// re-execution: a work item is a prefix of decisions plus a model that
// satisfies the path condition those decisions lead to.

type dec struct {
	v      int32
	forced bool // the only feasible outcome: adds nothing to the path condition
}

type item struct {
	prefix []dec
	model  map[string]uint64
}

type endKind int

const (
	endDone endKind = iota
	endInfeasible
	endViolation
	endUnsupported
	endLimit
	endUnknown
)

var endName = []string{"done", "infeasible", "violation", "unsupported", "limit", "unknown"}

type pathEnd struct {
	kind endKind
	msg  string
}
type killed struct{}

type goPanicV struct {
	val   Value // an Iface
	msg   string
	exit  bool // runtime.Goexit
	where string
}

type vclock []int32

func (v vclock) get(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func join(a *vclock, b vclock) {
	for len(*a) < len(b) {
		*a = append(*a, 0)
	}
	for i, x := range b {
		if x > (*a)[i] {
			(*a)[i] = x
		}
	}
}

type gstate int

const (
	gRunnable gstate = iota
	gBlocked
	gDone
)

type G struct {
	id      int
	name    string
	state   gstate
	resume  chan struct{}
	exited  chan struct{}
	vc      vclock
	why     string
	wake    Value // handed over by whoever wakes us
	wakeIdx int
	wakeOK  bool
	dead    *bool
	stack   []*frame
	quiesce bool
	bg      bool // created before the harness function started
	pts     int  // sync points passed
	vid     int  // number in the instrumented native build, or -1
	started bool
	depth   int
}

type timer struct {
	at     *Expr // absolute ns
	period *Expr // nil: one shot
	ch     *ChanObj
	g      *G
	fn     Value
	seq    int
	active bool
	obj    *Value
	ctxfn  func()
}

type muState struct {
	w       *G
	readers map[*G]int
	nr      int
	q       []*muWait
	vc      vclock
	rvc     vclock
}
type muWait struct {
	g *G
	w bool
}

type obsEnt struct {
	label string
	vals  []Value
}

type violation struct {
	Msg    string            `json:"msg"`
	Kind   string            `json:"kind"`
	Model  map[string]uint64 `json:"model"`
	Choice map[string]int    `json:"choice"`
	Sched  []schedEnt        `json:"sched,omitempty"`
	Obs    []string          `json:"obs,omitempty"`
	Where  string            `json:"where,omitempty"`
}

type schedEnt struct {
	G int `json:"g"`
}

type Run struct {
	P      *Prog
	X      *Explorer
	c      *Ctx
	sol    *Solver
	prefix []dec
	log    []dec
	pc     []*Expr
	facts  map[*Expr]bool
	model  map[string]uint64
	memo   map[*Expr]uint64
	fork   func(item)

	names   map[string]int
	choices map[string]int
	inputs  []string
	obs     []obsEnt
	reach   map[string]bool
	nums    map[*Expr]numRec // last digit -> number
	viols   []*violation
	notes   map[string]int

	gs      []*G
	cur     *G
	rrobin  int
	doneCh  chan pathEnd
	killing bool
	ended   bool

	globals      map[*ssa.Global]*Value
	inited       map[*ssa.Package]int
	now          *Expr
	timers       []*timer
	seq          int
	mutexes      map[*Value]*muState
	wgs          map[*Value]*wgState
	host         map[*Value]any
	explore      bool
	everExplored bool
	preempt      int
	inHarness    bool
	steps        int64
	limit        int64
	blobs        map[string]*blob
	nblob        int
	macs         []*macApp
	uniq         [][]*Expr
	types        map[string]types.Type
	funcs        map[*ssa.Function]bool
	sched        []schedEnt
	raceOn       bool
	nextLook     int64
	idle         int // timers fired since the harness's first goroutine ran
	shadow       map[*Value]*shadowCell
	mapShadow    map[*MapObj]*shadowCell
	rtypes       map[string]Value
	nforks       int
	ptrIDs       map[*Value]int
	hooks        map[string]Value
	ctr          int
	nvid         int
}

type shadowCell struct {
	w   int
	wc  int32
	wAt string
	rs  map[int]int32
	rAt string
	aw  map[int]int32
	ar  map[int]int32
}

func (r *Run) end(k endKind, msg string) {
	panic(pathEnd{k, msg})
}

func (r *Run) addPC(e *Expr) {
	if e.isTrue() || r.facts[e] {
		return
	}
	r.pc = append(r.pc, e)
	r.addFact(e)
}

func (r *Run) addFact(e *Expr) {
	if r.facts[e] {
		return
	}
	r.facts[e] = true
	if e.op == OAnd {
		for _, a := range e.args {
			r.addFact(a)
		}
	}
	if e.op == OSLt || e.op == OULt { // a<b implies a<=b, a!=b
		le := OSLe
		if e.op == OULt {
			le = OULe
		}
		r.facts[r.c.bin(le, 0, e.args[0], e.args[1])] = true
		r.facts[r.c.Not(r.c.Eq(e.args[0], e.args[1]))] = true
	}
	if e.op == OEq && e.args[0].w > 0 {
		for _, op := range []Op{OSLe, OULe} {
			r.facts[r.c.bin(op, 0, e.args[0], e.args[1])] = true
			r.facts[r.c.bin(op, 0, e.args[1], e.args[0])] = true
		}
	}
}

// slice returns the path-condition conjuncts sharing variables with e.
func (r *Run) slice(e *Expr) []*Expr {
	in := map[*Expr]bool{}
	for _, v := range e.Vars() {
		in[v] = true
	}
	used := make([]bool, len(r.pc))
	var out []*Expr
	for changed := true; changed; {
		changed = false
		for i, p := range r.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range p.Vars() {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, p)
				for _, v := range p.Vars() {
					in[v] = true
				}
			}
		}
	}
	return append(out, e)
}

func (r *Run) query(e *Expr) (satRes, map[string]uint64) {
	if e.isFalse() {
		return rUnsat, nil
	}
	return r.sol.Check(r.slice(e))
}

func (r *Run) overlay(m map[string]uint64) map[string]uint64 {
	n := make(map[string]uint64, len(r.model)+len(m))
	for k, v := range r.model {
		n[k] = v
	}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (r *Run) setModel(m map[string]uint64) {
	r.model = m
	r.memo = map[*Expr]uint64{}
}

func (r *Run) replaying() bool { return len(r.log) < len(r.prefix) }

func (r *Run) pushAlt(v int32, m map[string]uint64) {
	p := make([]dec, len(r.log)+1)
	copy(p, r.log)
	p[len(r.log)] = dec{v: v}
	r.nforks++
	r.fork(item{p, m})
}

func b2i(b bool) int32 {
	if b {
		return 1
	}
	return 0
}

// branch decides a condition, forking when both outcomes are feasible.
func (r *Run) branch(cond *Expr) bool {
	if cond.isConst() {
		return cond.val == 1
	}
	if r.facts[cond] {
		return true
	}
	not := r.c.Not(cond)
	if r.facts[not] {
		return false
	}
	if r.replaying() {
		d := r.prefix[len(r.log)]
		r.log = append(r.log, d)
		taken := cond
		if d.v == 0 {
			taken = not
		}
		if d.forced {
			r.addFact(taken)
		} else {
			r.addPC(taken)
		}
		return d.v == 1
	}
	v := cond.Eval(r.model, r.memo) != 0
	other, taken := not, cond
	if !v {
		other, taken = cond, not
	}
	res, m := r.query(other)
	forced := false
	switch res {
	case rUnsat:
		forced = true
	case rSat:
		r.pushAlt(b2i(!v), r.overlay(m))
	default:
		r.X.noteUnknown("branch")
	}
	r.log = append(r.log, dec{b2i(v), forced})
	if forced {
		r.addFact(taken)
	} else {
		r.addPC(taken)
	}
	return v
}

// decide is an unconstrained n-way choice.
func (r *Run) decide(n int) int {
	if n <= 1 {
		return 0
	}
	if r.replaying() {
		d := r.prefix[len(r.log)]
		r.log = append(r.log, d)
		return int(d.v)
	}
	for i := n - 1; i >= 1; i-- {
		r.pushAlt(int32(i), r.model)
	}
	r.log = append(r.log, dec{v: 0})
	return 0
}

func (r *Run) assume(cond *Expr) {
	if cond.isTrue() || r.facts[cond] {
		return
	}
	if cond.isFalse() {
		r.end(endInfeasible, "")
	}
	if r.replaying() {
		r.addPC(cond)
		return
	}
	if cond.Eval(r.model, r.memo) == 0 {
		res, m := r.query(cond)
		switch res {
		case rUnsat:
			r.end(endInfeasible, "")
		case rUnknown:
			r.X.noteUnknown("assume")
			r.end(endUnknown, "assume")
		}
		r.setModel(r.overlay(m))
	}
	r.addPC(cond)
}

// assert asks the solver whether the property can fail on this path.
func (r *Run) assert(cond *Expr, msg string) {
	if r.replaying() {
		d := r.prefix[len(r.log)]
		r.log = append(r.log, d)
		if !d.forced {
			r.addPC(cond)
		} else {
			r.addFact(cond)
		}
		return
	}
	r.X.countAssert(cond.isConst() || r.facts[cond])
	if cond.isTrue() || r.facts[cond] {
		r.log = append(r.log, dec{1, true})
		return
	}
	res, m := r.query(r.c.Not(cond))
	switch res {
	case rUnsat:
		r.log = append(r.log, dec{1, true})
		r.addFact(cond)
		return
	case rUnknown:
		r.X.noteUnknown("assert " + msg)
	case rSat:
		mm := r.overlay(m)
		r.violate("assert", msg, mm)
	}
	r.log = append(r.log, dec{1, false})
	if cond.isFalse() {
		r.end(endViolation, msg)
	}
	// continue on the part of the path where it holds
	if cond.Eval(r.model, r.memo) == 0 {
		res, m := r.query(cond)
		if res != rSat {
			r.end(endViolation, msg)
		}
		r.setModel(r.overlay(m))
	}
	r.addPC(cond)
}

func (r *Run) violate(kind, msg string, m map[string]uint64) {
	v := &violation{Msg: msg, Kind: kind, Model: m, Choice: map[string]int{}, Where: r.where()}
	for k, c := range r.choices {
		v.Choice[k] = c
	}
	v.Sched = append(v.Sched, r.sched...)
	v.Obs = r.obsText(m)
	sv := r.model
	r.model = m
	v.Model = r.fullModel()
	r.model = sv
	r.viols = append(r.viols, v)
}

// endViolate reports a violation that holds on the whole path (a panic, a
// deadlock, a data race).
func (r *Run) endViolate(kind, msg string) {
	if !r.replaying() {
		r.violate(kind, msg, r.overlay(nil))
	}
	r.end(endViolation, msg)
}

func (r *Run) where() string {
	if r.cur == nil {
		return ""
	}
	var sb strings.Builder
	n := 0
	for i := len(r.cur.stack) - 1; i >= 0 && n < 12; i-- {
		f := r.cur.stack[i]
		pos := ""
		if f.pos.IsValid() {
			p := r.P.fset.Position(f.pos)
			pos = fmt.Sprintf("%s:%d", p.Filename, p.Line)
		}
		fmt.Fprintf(&sb, "%s (%s); ", f.fi.fn.String(), pos)
		n++
	}
	return sb.String()
}

// ---- fresh symbols

func (r *Run) uname(n string) string {
	k := r.names[n]
	r.names[n] = k + 1
	if k == 0 {
		return n
	}
	return fmt.Sprintf("%s#%d", n, k)
}

func (r *Run) freshInput(n string, w uint8) *Expr {
	n = r.uname(n)
	r.inputs = append(r.inputs, n)
	return r.c.Var(n, w)
}

func (r *Run) freshRange(n string, lo, hi int64) *Expr {
	n = r.uname(n)
	r.inputs = append(r.inputs, n)
	if lo == hi {
		r.model = r.overlay(map[string]uint64{n: uint64(lo)})
		return r.c.BV(uint64(lo), 64)
	}
	e := r.c.RVar(n, 64, lo, hi)
	return e
}

// concretize forks over the feasible values of e (at most max).
func (r *Run) concretize(e *Expr, max int, what string) uint64 {
	if e.isConst() {
		return e.val
	}
	for i := 0; i < max; i++ {
		var v uint64
		if r.replaying() {
			// values are recorded in the log as the decision itself
			d := r.prefix[len(r.log)]
			if d.v == -1 { // extended value record
				hi := r.prefix[len(r.log)+1]
				lo := r.prefix[len(r.log)+2]
				v = uint64(uint32(hi.v))<<32 | uint64(uint32(lo.v))
				r.log = append(r.log, d, hi, lo)
			} else {
				panic("decision log out of step")
			}
		} else {
			v = e.Eval(r.model, r.memo)
			r.log = append(r.log, dec{-1, true}, dec{int32(uint32(v >> 32)), true}, dec{int32(uint32(v)), true})
		}
		if r.branch(r.c.Eq(e, r.c.BV(v, e.w))) {
			return v
		}
	}
	r.X.note("concretize bound hit: " + what)
	r.end(endLimit, "concretize "+what)
	return 0
}

// ---- scheduler: one interpreted goroutine holds the baton at a time.

func (r *Run) newG(name string) *G {
	g := &G{id: len(r.gs), name: name, resume: make(chan struct{}, 1), exited: make(chan struct{})}
	r.gs = append(r.gs, g)
	r.number(g, false)
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id] = 1
	g.bg = !r.inHarness
	return g
}

func (r *Run) spawn(name string, body func(g *G)) *G {
	g := r.newG(name)
	if p := r.cur; p != nil {
		join(&g.vc, p.vc)
		p.vc[p.id]++
	}
	go func() {
		defer close(g.exited)
		defer func() {
			x := recover()
			switch p := x.(type) {
			case nil:
			case killed:
				return
			case pathEnd:
				r.finish(p)
				return
			case unsupported:
				r.finish(pathEnd{endUnsupported, p.msg + " @ " + r.where()})
				return
			case *goPanicV:
				if p.exit {
					break
				}
				func() {
					defer func() {
						if y, ok := recover().(pathEnd); ok {
							r.finish(y)
						}
					}()
					r.endViolate("panic", "panic: "+p.msg+" at "+p.where)
				}()
				return
			default:
				r.X.hostPanic(r, x)
				r.finish(pathEnd{endUnsupported, fmt.Sprintf("engine: %v @ %s", x, r.where())})
				return
			}
			g.state = gDone
			// normal end of the goroutine
			func() {
				defer func() {
					switch p := recover().(type) {
					case nil:
					case pathEnd:
						r.finish(p)
					case killed:
					case unsupported:
						r.finish(pathEnd{endUnsupported, p.msg})
					default:
						r.X.hostPanic(r, p)
						r.finish(pathEnd{endUnsupported, fmt.Sprintf("engine: %v", p)})
					}
				}()
				if g.id == 0 {
					r.end(endDone, "")
				}
				r.pickNext(g)
			}()
		}()
		<-g.resume
		if r.killing {
			panic(killed{})
		}
		if r.explore && g.vid > 0 {
			r.sched = append(r.sched, schedEnt{g.vid})
		}
		body(g)
	}()
	return g
}

// finish ends the path; called by the goroutine holding the baton.
func (r *Run) finish(p pathEnd) {
	if r.ended {
		return
	}
	r.ended = true
	if r.cur != nil {
		r.cur.state = gDone
	}
	r.doneCh <- p
}

func (r *Run) runnable() []*G {
	var out []*G
	for _, g := range r.gs {
		if g.state == gRunnable {
			out = append(out, g)
		}
	}
	return out
}

// look ends a path that has gone on well after the time for its harness.
func (r *Run) look() {
	r.nextLook = r.steps + 1<<16
	if !r.X.deadline.IsZero() && time.Since(r.X.deadline) > 20*time.Second {
		r.end(endLimit, "out of time")
	}
}

// pickNext hands the baton to another goroutine (from is blocked or done).
func (r *Run) pickNext(from *G) {
	for {
		rs := r.runnable()
		if len(rs) > 0 {
			var g *G
			if r.explore && len(rs) > 1 {
				g = rs[r.decide(len(rs))]
			} else {
				g = rs[0]
				// round robin from the one that just ran
				for _, x := range rs {
					if x.id > from.id && !x.quiesce {
						g = x
						break
					}
				}
			}
			r.switchTo(from, g)
			return
		}
		// quiescent waiters run before the clock moves
		var q *G
		for _, g := range r.gs {
			if g.state == gBlocked && g.quiesce {
				q = g
				break
			}
		}
		if q != nil {
			q.quiesce = false
			q.state = gRunnable
			continue
		}
		if !r.fireTimer() {
			var sb strings.Builder
			for _, g := range r.gs {
				if g.state == gBlocked && !g.bg {
					fmt.Fprintf(&sb, "goroutine %d (%s): %s; ", g.id, g.name, g.why)
				}
			}
			r.endViolate("deadlock", "all goroutines blocked: "+sb.String())
		}
	}
}

func (r *Run) switchTo(from, to *G) {
	if to.id == 0 {
		r.idle = 0
	}
	if from == to {
		r.cur = to
		return
	}
	r.cur = to
	to.resume <- struct{}{}
	if from.state == gDone {
		return
	}
	<-from.resume
	if r.killing {
		panic(killed{})
	}
}

// block parks the current goroutine until someone makes it runnable.
func (r *Run) block(g *G, why string) {
	g.state = gBlocked
	g.why = why
	r.pickNext(g)
}

func (r *Run) ready(g *G) {
	if g.state == gBlocked {
		g.state = gRunnable
	}
}

// point is a scheduling point before a synchronisation operation.
func (r *Run) point(g *G) {
	if !r.explore || g.inLib() {
		return
	}
	r.pass(g)
}

// inLib: g is inside the stand-in for a library, whose synchronisation is no
// scheduling point.
func (g *G) inLib() bool {
	for i := len(g.stack) - 1; i >= 0; i-- {
		fi := g.stack[i].fi
		if fi.repo {
			return false
		}
		if fi.lib {
			return true
		}
	}
	return false
}

// pass is a scheduling point.
func (r *Run) pass(g *G) {
	r.yield(g)
	r.schedAt(g)
}

// yield lets another goroutine run here.
func (r *Run) yield(g *G) {
	g.pts++
	if r.preempt > 0 {
		rs := r.runnable()
		if len(rs) > 1 {
			// 0: carry on
			k := r.decide(len(rs))
			if k != 0 {
				var others []*G
				for _, x := range rs {
					if x != g {
						others = append(others, x)
					}
				}
				r.preempt--
				r.switchTo(g, others[k-1])
			}
		}
	}
}

// schedAt records that g passes a point which the instrumented native build
// has too: one made directly by the code under test.
func (r *Run) schedAt(g *G) {
	if g.vid < 0 {
		return
	}
	for i := len(g.stack) - 1; i >= 0; i-- {
		fi := g.stack[i].fi
		if fi.lib || fi.pkg != nil && fi.pkg.Pkg.Path() == "sync/atomic" {
			continue
		}
		if fi.repo {
			r.sched = append(r.sched, schedEnt{g.vid})
		}
		return
	}
}

// number gives g the number the instrumented native build gives it.
func (r *Run) number(g *G, counts bool) {
	g.vid = -1
	if g.id == 0 {
		g.vid = 0
	} else if counts {
		r.nvid++
		g.vid = r.nvid
	}
}

func (r *Run) yieldAll(g *G) {
	g.quiesce = true
	r.block(g, "quiesce")
}

// ---- clock and timers

func (r *Run) fireTimer() bool {
	var best *timer
	for _, t := range r.timers {
		if !t.active {
			continue
		}
		if best == nil {
			best = t
			continue
		}
		// ties: the earlier created fires first
		if r.branch(r.c.SLt(t.at, best.at)) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	if r.branch(r.c.SLt(r.now, best.at)) {
		r.now = best.at
	}
	// only tickers are left, and have gone on for long without the harness
	// being woken by what they do: it waits for ever
	periodic := true
	for _, t := range r.timers {
		if t.active && t.period == nil {
			periodic = false
		}
	}
	if r.idle++; !periodic {
		r.idle = 0
	}
	r.look()
	if r.idle > 100 {
		var sb strings.Builder
		for _, g := range r.gs {
			if g.state == gBlocked && !g.bg {
				fmt.Fprintf(&sb, "goroutine %d (%s): %s; ", g.id, g.name, g.why)
			}
		}
		r.endViolate("deadlock", "blocked while only tickers go on: "+sb.String())
	}
	r.ctr++
	if r.ctr > 4000 {
		var sb strings.Builder
		for _, g := range r.gs {
			if g.state == gBlocked && !g.bg {
				fmt.Fprintf(&sb, "goroutine %d (%s): %s; ", g.id, g.name, g.why)
			}
		}
		r.end(endLimit, "timer fires: "+sb.String())
	}
	r.fire(best)
	if r.explore {
		// everything due at this very instant becomes runnable together
		for _, t := range append([]*timer(nil), r.timers...) {
			if t != best && t.active && r.branch(r.c.Eq(t.at, r.now)) {
				r.fire(t)
			}
		}
	}
	r.dropTimers()
	return true
}

func (r *Run) dropTimers() {
	out := r.timers[:0]
	for _, t := range r.timers {
		if t.active {
			out = append(out, t)
		}
	}
	r.timers = out
}

func (r *Run) fire(t *timer) {
	if t.period != nil {
		t.at = r.c.Add(t.at, t.period)
		r.seq++
		t.seq = r.seq
		// a ticker re-armed at the same instant as another timer goes after it
		for i, x := range r.timers {
			if x == t {
				copy(r.timers[i:], r.timers[i+1:])
				r.timers[len(r.timers)-1] = t
				break
			}
		}
	} else {
		t.active = false
	}
	switch {
	case t.g != nil:
		r.ready(t.g)
	case t.ch != nil:
		r.trySend(nil, t.ch, r.timeVal(r.now))
	case t.ctxfn != nil:
		t.ctxfn()
	case t.fn != nil:
		fn := t.fn
		r.spawn("timer", func(g *G) { r.callValue(g, fn, nil) })
	}
}

func (r *Run) sleep(g *G, d *Expr) {
	if !r.branch(r.c.SLt(r.c.BV(0, 64), d)) {
		return
	}
	r.seq++
	t := &timer{at: r.c.Add(r.now, d), g: g, seq: r.seq, active: true}
	r.timers = append(r.timers, t)
	r.block(g, "sleep")
}

// ---- observation

func (r *Run) obsText(m map[string]uint64) []string {
	memo := map[*Expr]uint64{}
	var out []string
	for _, o := range r.obs {
		var sb strings.Builder
		sb.WriteString(o.label)
		for _, v := range o.vals {
			sb.WriteByte(' ')
			sb.WriteString(r.render(v, m, memo, 0))
		}
		out = append(out, sb.String())
	}
	return out
}

// render prints a value under a model; the native side prints the same text.
func (r *Run) render(v Value, m map[string]uint64, memo map[*Expr]uint64, d int) string {
	if d > 6 {
		return "..."
	}
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return "nil"
		}
		if sl, ok := x.t.Underlying().(*types.Slice); ok {
			w, _, _ := width(sl.Elem())
			if y, ok := x.v.(Slice); ok && w == 8 && len(y.a) == 0 {
				return `""`
			}
		}
		if e, ok := x.v.(*Expr); ok {
			w, s, _ := width(x.t)
			if w > 0 && s {
				return fmt.Sprint(sext(e.Eval(m, memo), w))
			}
		}
		if isErrorType(x.t) {
			return "error"
		}
		return r.render(x.v, m, memo, d)
	case *Expr:
		u := x.Eval(m, memo)
		if x.w == 0 {
			return fmt.Sprint(u == 1)
		}
		return fmt.Sprint(u)
	case Str:
		if x.b == nil {
			return fmt.Sprintf("%q", x.s)
		}
		bs := make([]byte, len(x.b))
		for i, e := range x.b {
			bs[i] = byte(e.Eval(m, memo))
		}
		return fmt.Sprintf("%q", string(bs))
	case Slice:
		if len(x.a) > 0 {
			if e, ok := x.a[0].(*Expr); ok && e.w == 8 {
				bs := make([]byte, len(x.a))
				for i := range x.a {
					bs[i] = byte(x.a[i].(*Expr).Eval(m, memo))
				}
				return fmt.Sprintf("%q", string(bs))
			}
		}
		var parts []string
		for _, y := range x.a {
			parts = append(parts, r.render(y, m, memo, d+1))
		}
		return "[" + strings.Join(parts, " ") + "]"
	case Agg:
		var parts []string
		for _, y := range x {
			parts = append(parts, r.render(y, m, memo, d+1))
		}
		return "{" + strings.Join(parts, " ") + "}"
	}
	return fmt.Sprintf("%T", v)
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
