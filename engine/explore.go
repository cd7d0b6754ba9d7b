package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

const epoch0 = 946684800 * int64(1e9) // the instant testing/synctest starts at

// Explorer explores every path of one harness.
type Explorer struct {
	P        *Prog
	name     string
	fn       *ssa.Function
	thorough bool
	deadline time.Time
	limit    int64
	maxPaths int64
	verbose  bool

	boundOverride map[string]int

	mu      sync.Mutex
	cond    *sync.Cond
	queue   []item
	active  int
	stopped bool

	paths     int64
	ends      [8]int64
	endMsgs   map[string]int
	steps     int64
	forks     int64
	asserts   int64
	trivial   int64
	unknowns  map[string]int
	notes     map[string]int
	bounds    map[string]int
	reach     map[string]bool
	funcs     map[string]bool
	viols     []*violation
	violSeen  map[string]int
	witnesses []*witness
	hostErrs  []string
	left      int
	preempts  int
}

type witness struct {
	Model map[string]uint64
	Obs   []string
	end   endKind
}

func newExplorer(P *Prog, name string, fn *ssa.Function) *Explorer {
	X := &Explorer{P: P, name: name, fn: fn, limit: 40_000_000, endMsgs: map[string]int{}, unknowns: map[string]int{}, notes: map[string]int{}, bounds: map[string]int{}, reach: map[string]bool{}, funcs: map[string]bool{}, violSeen: map[string]int{}}
	X.cond = sync.NewCond(&X.mu)
	return X
}

func (X *Explorer) noteUnknown(s string) { X.mu.Lock(); X.unknowns[s]++; X.mu.Unlock() }
func (X *Explorer) note(s string)        { X.mu.Lock(); X.notes[s]++; X.mu.Unlock() }
func (X *Explorer) setBound(n string, v int) {
	X.mu.Lock()
	X.bounds[n] = v
	X.mu.Unlock()
}
func (X *Explorer) countAssert(trivial bool) {
	atomic.AddInt64(&X.asserts, 1)
	if trivial {
		atomic.AddInt64(&X.trivial, 1)
	}
}
func (X *Explorer) hostPanic(r *Run, x any) {
	X.mu.Lock()
	defer X.mu.Unlock()
	if len(X.hostErrs) < 5 {
		X.hostErrs = append(X.hostErrs, fmt.Sprintf("%v\n%s\n%s", x, r.where(), debug.Stack()))
	}
}

func (X *Explorer) push(it item) {
	X.mu.Lock()
	X.queue = append(X.queue, it)
	X.mu.Unlock()
	X.cond.Signal()
}

func (X *Explorer) run(workers int, solverBin, crossBin []string) {
	X.queue = []item{{nil, map[string]uint64{}}}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			sol := NewSolver(solverBin)
			defer sol.Close()
			if crossBin != nil && w == 0 {
				sol.cross = NewSolver(crossBin)
			}
			for {
				X.mu.Lock()
				for len(X.queue) == 0 && X.active > 0 && !X.stopped {
					X.cond.Wait()
				}
				if len(X.queue) == 0 || X.stopped {
					X.mu.Unlock()
					X.cond.Broadcast()
					return
				}
				if time.Now().After(X.deadline) || (X.maxPaths > 0 && atomic.LoadInt64(&X.paths) >= X.maxPaths) {
					X.stopped = true
					X.left = len(X.queue) + X.active
					X.mu.Unlock()
					X.cond.Broadcast()
					return
				}
				it := X.queue[len(X.queue)-1]
				X.queue = X.queue[:len(X.queue)-1]
				X.active++
				X.mu.Unlock()
				X.onePath(it, sol)
				X.mu.Lock()
				X.active--
				X.mu.Unlock()
				X.cond.Broadcast()
			}
		}(w)
	}
	wg.Wait()
}

func (X *Explorer) newRun(it item, sol *Solver) *Run {
	r := &Run{P: X.P, X: X, c: NewCtx(), sol: sol, prefix: it.prefix, facts: map[*Expr]bool{}, memo: map[*Expr]uint64{}, model: it.model,
		fork: X.push, names: map[string]int{}, choices: map[string]int{}, reach: map[string]bool{}, doneCh: make(chan pathEnd, 1),
		globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]int{}, mutexes: map[*Value]*muState{}, wgs: map[*Value]*wgState{}, host: map[*Value]any{},
		limit: X.limit, blobs: map[string]*blob{}, funcs: map[*ssa.Function]bool{}, shadow: map[*Value]*shadowCell{}, mapShadow: map[*MapObj]*shadowCell{}, rtypes: map[string]Value{}}
	r.now = r.i64(epoch0)
	return r
}

func (X *Explorer) onePath(it item, sol *Solver) {
	r := X.newRun(it, sol)
	g0 := r.spawn("main", func(g *G) {
		r.ensureInit(fnPkg(X.fn))
		r.inHarness = true
		r.call(g, X.fn, nil, nil)
	})
	r.cur = g0
	g0.resume <- struct{}{}
	end := <-r.doneCh
	// unwind every other interpreted goroutine
	r.killing = true
	for _, g := range r.gs {
		select {
		case g.resume <- struct{}{}:
		default:
		}
		<-g.exited
	}
	atomic.AddInt64(&X.paths, 1)
	atomic.AddInt64(&X.steps, r.steps)
	atomic.AddInt64(&X.forks, int64(r.nforks))
	X.mu.Lock()
	defer X.mu.Unlock()
	X.ends[end.kind]++
	if end.kind == endUnsupported || end.kind == endLimit || end.kind == endUnknown {
		X.endMsgs[endName[end.kind]+": "+end.msg]++
	}
	for k := range r.reach {
		X.reach[k] = true
	}
	for f := range r.funcs {
		X.funcs[f.String()] = true
	}
	for _, v := range r.viols {
		k := v.Kind + "|" + v.Msg
		X.violSeen[k]++
		if X.violSeen[k] <= 4 && len(X.viols) < 40 {
			X.viols = append(X.viols, v)
		}
	}
	if end.kind == endDone && len(r.viols) == 0 && !r.everExplored {
		n := X.ends[endDone]
		// an exponentially thinning sample
		if n <= 4 || n&(n-1) == 0 || n%997 == 0 && len(X.witnesses) < 24 {
			X.witnesses = append(X.witnesses, &witness{Model: r.fullModel(), Obs: r.obsText(r.model)})
		}
	}
	if X.verbose {
		fmt.Fprintf(os.Stderr, "path %d: %s %s  model=%v\n", X.paths, endName[end.kind], end.msg, r.model)
	}
}

// fullModel gives every declared input a value.
func (r *Run) fullModel() map[string]uint64 {
	m := r.overlay(nil)
	vars := map[string]*Expr{}
	for _, e := range r.c.tab {
		if e.op == OVar {
			vars[e.name] = e
		}
	}
	for _, n := range r.inputs {
		if _, ok := m[n]; !ok {
			if e := vars[n]; e != nil {
				m[n] = e.Eval(m, map[*Expr]uint64{})
			}
		}
	}
	return m
}

func sortedStrs(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
