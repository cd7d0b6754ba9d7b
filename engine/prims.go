package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- channels

func (r *Run) makeChan(n int, el types.Type) *ChanObj {
	r.seq++
	return &ChanObj{id: r.seq, cap: n, elem: el}
}

func dropWaiters(q []*waiter) []*waiter {
	out := q[:0]
	for _, w := range q {
		if !*w.dead {
			out = append(out, w)
		}
	}
	return out
}

// trySend completes a send without blocking, if possible.
func (r *Run) trySend(g *G, ch *ChanObj, v Value) bool {
	if ch.closed {
		r.goPanic("send on closed channel")
	}
	ch.recvq = dropWaiters(ch.recvq)
	if len(ch.recvq) > 0 {
		k := 0
		if r.explore && len(ch.recvq) > 1 {
			k = r.decide(len(ch.recvq))
		}
		w := ch.recvq[k]
		*w.dead = true
		w.g.wake, w.g.wakeOK, w.g.wakeIdx = v, true, w.idx
		if g != nil {
			join(&w.g.vc, g.vc)
			if ch.cap == 0 {
				join(&g.vc, w.g.vc)
			}
			g.vc[g.id]++
		}
		w.g.vc[w.g.id]++
		r.ready(w.g)
		return true
	}
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf, v)
		if g != nil {
			var vc vclock
			join(&vc, g.vc)
			ch.vc = append(ch.vc, vc)
			join(&g.vc, ch.rvc)
			g.vc[g.id]++
		} else {
			ch.vc = append(ch.vc, nil)
		}
		return true
	}
	return false
}

// tryRecv completes a receive without blocking, if possible.
func (r *Run) tryRecv(g *G, ch *ChanObj) (Value, bool, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		join(&g.vc, ch.vc[0])
		join(&ch.rvc, g.vc)
		g.vc[g.id]++
		ch.buf, ch.vc = ch.buf[1:], ch.vc[1:]
		ch.sendq = dropWaiters(ch.sendq)
		if len(ch.sendq) > 0 {
			w := ch.sendq[0]
			*w.dead = true
			ch.buf = append(ch.buf, w.val)
			var vc vclock
			join(&vc, w.g.vc)
			ch.vc = append(ch.vc, vc)
			w.g.wakeIdx = w.idx
			r.ready(w.g)
		}
		return v, true, true
	}
	ch.sendq = dropWaiters(ch.sendq)
	if len(ch.sendq) > 0 {
		w := ch.sendq[0]
		*w.dead = true
		join(&g.vc, w.g.vc)
		join(&w.g.vc, g.vc)
		g.vc[g.id]++
		w.g.wakeIdx = w.idx
		r.ready(w.g)
		return w.val, true, true
	}
	if ch.closed {
		join(&g.vc, ch.cvc)
		return nil, false, true
	}
	return nil, false, false
}

func (r *Run) chanSend(g *G, ch *ChanObj, v Value) {
	r.point(g)
	if ch == nil {
		r.block(g, "send on nil channel")
		return
	}
	if r.trySend(g, ch, v) {
		return
	}
	d := false
	ch.sendq = append(ch.sendq, &waiter{g: g, ch: ch, val: v, dead: &d})
	g.wakeIdx = 0
	r.block(g, "chan send")
	if g.wakeIdx == -2 {
		r.goPanic("send on closed channel")
	}
}

func (r *Run) chanRecv(g *G, ch *ChanObj) (Value, bool) {
	r.point(g)
	if ch == nil {
		r.block(g, "receive from nil channel")
		return nil, false
	}
	if v, ok, done := r.tryRecv(g, ch); done {
		return v, ok
	}
	d := false
	ch.recvq = append(ch.recvq, &waiter{g: g, ch: ch, dead: &d})
	r.block(g, "chan receive")
	v, ok := g.wake, g.wakeOK
	g.wake = nil
	return v, ok
}

func (r *Run) chanClose(g *G, ch *ChanObj) {
	r.point(g)
	if ch == nil {
		r.goPanic("close of nil channel")
	}
	if ch.closed {
		r.goPanic("close of closed channel")
	}
	ch.closed = true
	join(&ch.cvc, g.vc)
	g.vc[g.id]++
	for _, w := range dropWaiters(ch.recvq) {
		*w.dead = true
		w.g.wake, w.g.wakeOK, w.g.wakeIdx = nil, false, w.idx
		join(&w.g.vc, ch.cvc)
		r.ready(w.g)
	}
	ch.recvq = nil
	for _, w := range dropWaiters(ch.sendq) {
		*w.dead = true
		w.g.wakeIdx = -2
		r.ready(w.g)
	}
	ch.sendq = nil
}

func (fr *frame) selectStmt(in *inst, x *ssa.Select) Value {
	r, g := fr.r, fr.g
	r.point(g)
	type st struct {
		ch   *ChanObj
		send bool
		v    Value
	}
	var sts []st
	// operands: chan, [send] per state in order
	k := 0
	for _, s := range x.States {
		ch, _ := fr.get(&in.ops[k]).(*ChanObj)
		k++
		e := st{ch: ch}
		if s.Dir == types.SendOnly {
			e.send = true
			e.v = copyVal(fr.get(&in.ops[k]))
		}
		// Operands() always lists both Chan and Send
		k++
		sts = append(sts, e)
	}
	result := func(idx int, v Value, ok bool) Value {
		t := Tuple{r.c.BV(uint64(int64(idx)), 64), r.c.Bool(ok)}
		for i, s := range sts {
			if s.send {
				continue
			}
			if i == idx && v != nil {
				t = append(t, v)
			} else {
				t = append(t, r.zero(x.States[i].Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
		return t
	}
	var rdy []int
	for i, s := range sts {
		if s.ch == nil {
			continue
		}
		if s.send {
			if s.ch.closed {
				rdy = append(rdy, i)
				continue
			}
			s.ch.recvq = dropWaiters(s.ch.recvq)
			if len(s.ch.recvq) > 0 || len(s.ch.buf) < s.ch.cap {
				rdy = append(rdy, i)
			}
		} else {
			s.ch.sendq = dropWaiters(s.ch.sendq)
			if len(s.ch.buf) > 0 || len(s.ch.sendq) > 0 || s.ch.closed {
				rdy = append(rdy, i)
			}
		}
	}
	if len(rdy) > 0 {
		i := rdy[0]
		if len(rdy) > 1 {
			i = rdy[r.decide(len(rdy))]
		}
		s := sts[i]
		if s.send {
			if !r.trySend(g, s.ch, s.v) {
				panic("select send")
			}
			return result(i, nil, false)
		}
		v, ok, _ := r.tryRecv(g, s.ch)
		return result(i, v, ok)
	}
	if !x.Blocking {
		return result(-1, nil, false)
	}
	d := false
	for i, s := range sts {
		if s.ch == nil {
			continue
		}
		w := &waiter{g: g, idx: i, ch: s.ch, val: s.v, dead: &d}
		if s.send {
			s.ch.sendq = append(s.ch.sendq, w)
		} else {
			s.ch.recvq = append(s.ch.recvq, w)
		}
	}
	r.block(g, "select")
	if g.wakeIdx == -2 {
		r.goPanic("send on closed channel")
	}
	v, ok := g.wake, g.wakeOK
	i := g.wakeIdx
	g.wake = nil
	if sts[i].send {
		return result(i, nil, false)
	}
	return result(i, v, ok)
}

// ---- mutexes

func (r *Run) mu(p *Value) *muState {
	m := r.mutexes[p]
	if m == nil {
		m = &muState{readers: map[*G]int{}}
		r.mutexes[p] = m
	}
	return m
}

func ptrArg(r *Run, v Value) *Value {
	p, ok := v.(*Value)
	if !ok || p == nil {
		r.nilDeref()
	}
	return p
}

func (r *Run) lock(g *G, p *Value) {
	r.point(g)
	m := r.mu(p)
	for m.w != nil || m.nr > 0 {
		m.q = append(m.q, &muWait{g, true})
		r.block(g, "Lock")
	}
	m.w = g
	join(&g.vc, m.vc)
	join(&g.vc, m.rvc)
	g.vc[g.id]++
}

func (r *Run) tryLock(g *G, p *Value) bool {
	r.point(g)
	m := r.mu(p)
	if m.w != nil || m.nr > 0 {
		return false
	}
	m.w = g
	join(&g.vc, m.vc)
	join(&g.vc, m.rvc)
	g.vc[g.id]++
	return true
}

func (m *muState) wakeAll(r *Run) {
	for _, w := range m.q {
		r.ready(w.g)
	}
	m.q = nil
}

// release: letting others run just before a lock is released shows nothing that
// letting them run just before the next acquisition does not (a release commutes
// with everything another goroutine can do in between), so nobody is preempted.
func (r *Run) release(g *G) {
	if r.explore {
		r.schedAt(g)
	}
}

func (r *Run) unlock(g *G, p *Value) {
	r.release(g)
	m := r.mu(p)
	if m.w == nil {
		r.endViolate("panic", "fatal error: sync: unlock of unlocked mutex")
	}
	m.w = nil
	m.vc = append(vclock(nil), g.vc...)
	g.vc[g.id]++
	m.wakeAll(r)
}

func (r *Run) rlock(g *G, p *Value) {
	r.point(g)
	m := r.mu(p)
	for {
		// a waiting writer blocks new readers
		wq := false
		for _, w := range m.q {
			if w.w && m.nr > 0 {
				wq = true
			}
		}
		if m.w == nil && !wq {
			break
		}
		m.q = append(m.q, &muWait{g, false})
		r.block(g, "RLock")
	}
	m.nr++
	m.readers[g]++
	join(&g.vc, m.vc)
	g.vc[g.id]++
}

func (r *Run) runlock(g *G, p *Value) {
	r.release(g)
	m := r.mu(p)
	if m.nr == 0 {
		r.endViolate("panic", "fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.nr--
	if m.readers[g] > 0 {
		m.readers[g]--
	}
	join(&m.rvc, g.vc)
	g.vc[g.id]++
	if m.nr == 0 {
		m.wakeAll(r)
	}
}

type wgState struct {
	n  *Expr
	q  []*G
	vc vclock
}

func (r *Run) wg(p *Value) *wgState {
	w := r.wgs[p]
	if w == nil {
		w = &wgState{n: r.c.BV(0, 64)}
		r.wgs[p] = w
	}
	return w
}

func (r *Run) wgAdd(g *G, p *Value, d *Expr) {
	r.point(g)
	w := r.wg(p)
	w.n = r.c.Add(w.n, d)
	if !w.n.isConst() {
		panic(unsupported{"symbolic WaitGroup"})
	}
	if int64(w.n.val) < 0 {
		r.goPanic("sync: negative WaitGroup counter")
	}
	join(&w.vc, g.vc)
	g.vc[g.id]++
	if w.n.val == 0 {
		for _, x := range w.q {
			r.ready(x)
		}
		w.q = nil
	}
}

func (r *Run) wgWait(g *G, p *Value) {
	r.point(g)
	w := r.wg(p)
	for w.n.val != 0 {
		w.q = append(w.q, g)
		r.block(g, "WaitGroup.Wait")
	}
	join(&g.vc, w.vc)
}

// ---- atomics: sequentially consistent, and synchronising.

func (r *Run) atomicSync(g *G, p *Value) {
	r.point(g)
	m := r.mu(p)
	join(&g.vc, m.vc)
	join(&m.vc, g.vc)
	g.vc[g.id]++
	if r.shadow != nil {
		if s := r.shadow[p]; s != nil {
			_ = s
		}
	}
}

// ---- data races (happens-before, on the memory of the code under test)

func (r *Run) raceHere() (bool, string) {
	st := r.cur.stack
	if len(st) == 0 {
		return false, ""
	}
	f := st[len(st)-1]
	// accesses made by library code (container/list, ...) on behalf of the
	// code under test count as the caller's
	for i := len(st) - 1; i >= 0; i-- {
		if st[i].fi.repo {
			return true, st[i].fi.name
		}
		if st[i].fi.model {
			return false, ""
		}
	}
	return false, f.fi.name
}

func (r *Run) raceAccess(p *Value, write bool) {
	if p == nil {
		return
	}
	ok, at := r.raceHere()
	if !ok {
		return
	}
	s := r.shadow[p]
	if s == nil {
		s = &shadowCell{w: -1}
		r.shadow[p] = s
	}
	r.raceCell(s, write, at)
	if a, ok := (*p).(Agg); ok {
		for i := range a {
			r.raceAccess(&a[i], write)
		}
	}
}

func (r *Run) raceMap(m *MapObj, write bool) {
	if m == nil {
		return
	}
	ok, at := r.raceHere()
	if !ok {
		return
	}
	s := r.mapShadow[m]
	if s == nil {
		s = &shadowCell{w: -1}
		r.mapShadow[m] = s
	}
	r.raceCell(s, write, at)
}

func (r *Run) raceCell(s *shadowCell, write bool, at string) {
	g := r.cur
	for id, c := range s.aw {
		if id != g.id && g.vc.get(id) < c {
			r.endViolate("race", fmt.Sprintf("data race: %s by goroutine %d in %s against atomic write by goroutine %d", rw(write), g.id, at, id))
		}
	}
	if write {
		for id, c := range s.ar {
			if id != g.id && g.vc.get(id) < c {
				r.endViolate("race", fmt.Sprintf("data race: write by goroutine %d in %s against atomic read by goroutine %d", g.id, at, id))
			}
		}
	}
	if s.w >= 0 && s.w != g.id && g.vc.get(s.w) < s.wc {
		r.endViolate("race", fmt.Sprintf("data race: %s by goroutine %d in %s against write by goroutine %d in %s", rw(write), g.id, at, s.w, s.wAt))
	}
	if write {
		for id, c := range s.rs {
			if id != g.id && g.vc.get(id) < c {
				r.endViolate("race", fmt.Sprintf("data race: write by goroutine %d in %s against read by goroutine %d in %s", g.id, at, id, s.rAt))
			}
		}
		s.w, s.wc, s.wAt = g.id, g.vc.get(g.id), at
		s.rs = nil
		return
	}
	if s.rs == nil {
		s.rs = map[int]int32{}
	}
	s.rs[g.id] = g.vc.get(g.id)
	s.rAt = at
}

func rw(w bool) string {
	if w {
		return "write"
	}
	return "read"
}
