// Package vrt forces a schedule onto instrumented code: every synchronisation
// operation of the code under test is preceded by a Point, and the points are
// passed in the given order of goroutines. A goroutine that cannot get to its
// point (because it is blocked where the schedule did not expect it) is skipped
// after a while, so a diverging run ends instead of hanging.
package vrt

import (
	"bytes"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

var (
	mu      sync.Mutex
	active  bool
	order   []int
	cursor  int
	last    = -1
	lastAt  int64
	waiting = map[int]bool{}
	ids     = map[int64]int{}
	next    = 1
	tick    int64
	noise   bool
	skipped int
)

// Init must be called outside every bubble.
func Init() {
	go func() { // counts real time in fifths of a millisecond
		for {
			time.Sleep(200 * time.Microsecond)
			atomic.AddInt64(&tick, 1)
		}
	}()
}

func goid() int64 {
	var b [64]byte
	s := b[:runtime.Stack(b[:], false)]
	s = bytes.TrimPrefix(s, []byte("goroutine "))
	i := bytes.IndexByte(s, ' ')
	n, _ := strconv.ParseInt(string(s[:i]), 10, 64)
	return n
}

// Force sets the order; the calling goroutine is number 0.
func Force(o []int) {
	mu.Lock()
	ids[goid()] = 0
	order, cursor, last = o, 0, -1
	active = true
	lastAt = atomic.LoadInt64(&tick)
	mu.Unlock()
}

// Stop ends the forcing.
func Stop() {
	mu.Lock()
	active = false
	cursor = len(order)
	mu.Unlock()
}

// Noise delays goroutines at random instead, without synchronising them.
func Noise() { noise = true }

// fill, if set, gives the random values to use.
var fill func(kind string, b []byte) bool

// Random makes the code under test draw its random values from f.
func Random(f func(kind string, b []byte) bool) { fill = f }

// Fill replaces the code's own random bytes.
func Fill(kind string, b []byte) bool { return fill != nil && fill(kind, b) }

// UUID replaces the code's own unique ids.
func UUID() (b [16]byte, ok bool) {
	ok = Fill("uuid", b[:])
	return
}

// Skipped tells how many entries of the order were given up.
func Skipped() int { return skipped }

var rnd = uint64(time.Now().UnixNano())

func spin(n uint64) {
	for i := uint64(0); i < n; i++ {
		runtime.Gosched()
	}
}

// Point is passed before every synchronisation operation.
func Point() {
	if noise {
		var b byte
		// an unsynchronised source of noise: the address of a local and the clock
		x := uint64(time.Now().UnixNano())*0x9e3779b97f4a7c15 ^ uint64(goid())*0xbf58476d1ce4e5b9
		_ = b
		x ^= x >> 29
		switch x % 4 {
		case 0:
			spin(x >> 8 % 40)
		case 1:
			spin(3)
		}
		return
	}
	id := goid()
	mu.Lock()
	if !active {
		mu.Unlock()
		return
	}
	v, ok := ids[id]
	if !ok {
		mu.Unlock()
		return
	}
	waiting[v] = true
	mu.Unlock()
	for {
		mu.Lock()
		if cursor >= len(order) {
			waiting[v] = false
			mu.Unlock()
			return
		}
		idle := atomic.LoadInt64(&tick) - lastAt
		if order[cursor] == v {
			if last == v || last < 0 || waiting[last] || idle > 15 {
				cursor++
				last = v
				lastAt = atomic.LoadInt64(&tick)
				waiting[v] = false
				mu.Unlock()
				return
			}
		} else if idle > 100 {
			cursor++
			skipped++
			lastAt = atomic.LoadInt64(&tick)
		}
		mu.Unlock()
		runtime.Gosched()
	}
}

// P passes a point, then does f.
func P(f func()) {
	Point()
	f()
}

// GoP passes a point, then starts a numbered goroutine.
func GoP(f func()) {
	Point()
	Go(f)
}

// Go starts a numbered goroutine.
func Go(f func()) {
	if noise {
		go func() { Point(); f() }()
		return
	}
	mu.Lock()
	v := next
	next++
	mu.Unlock()
	go func() {
		id := goid()
		mu.Lock()
		ids[id] = v
		mu.Unlock()
		Point()
		defer func() {
			mu.Lock()
			waiting[v] = true // finished: nobody waits for it
			delete(ids, id)
			mu.Unlock()
		}()
		f()
	}()
}
