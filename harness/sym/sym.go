// Package sym is the interface between a harness and whoever runs it: the
// symbolic executor intercepts every function here; compiled natively the same
// functions read the solver's assignment, so that a counterexample replays
// against the real build.
package sym

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"
	"unsafe"

	"verif/harness/vrt"
)

// Vector is one concrete assignment.
type Vector struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Bounds  map[string]int    `json:"bounds"`
	Sched   []int             `json:"sched"`
	Race    bool              `json:"race"`
	Noise   bool              `json:"noise"`
	Uniq    bool              `json:"uniq"`
}

type state struct {
	mu    sync.Mutex
	vec   Vector
	names map[string]int
	obs   []string
	fails []string
	vac   bool
}

var st = &state{names: map[string]int{}}

// Load reads the vector of a native run.
func Load(file string) error {
	b, e := os.ReadFile(file)
	if e != nil {
		return e
	}
	return json.Unmarshal(b, &st.vec)
}

// Harness names the harness to run natively.
func Harness() string { return st.vec.Harness }

type infeasible struct{}

// Run executes f natively; the outcome is printed as one JSON line.
func Run(f func()) {
	out := map[string]any{}
	base = runtime.NumGoroutine()
	if st.vec.Noise {
		vrt.Noise()
	}
	if st.vec.Uniq {
		vrt.Random(random)
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(infeasible); ok {
					out["infeasible"] = true
					return
				}
				st.fails = append(st.fails, fmt.Sprint("panic: ", x))
			}
		}()
		f()
	}()
	st.mu.Lock()
	out["fails"] = st.fails
	out["obs"] = st.obs
	out["skipped"] = vrt.Skipped()
	b, _ := json.Marshal(out)
	fmt.Printf("\nSYMRESULT %s\n", b)
	os.Exit(0)
}

func in(n string) uint64 {
	st.mu.Lock()
	defer st.mu.Unlock()
	k := st.names[n]
	st.names[n] = k + 1
	if k > 0 {
		n = fmt.Sprintf("%s#%d", n, k)
	}
	return st.vec.Inputs[n]
}

// random hands the code under test the random values of the assignment, as far
// as it has any.
func random(kind string, b []byte) bool {
	st.mu.Lock()
	defer st.mu.Unlock()
	n := fmt.Sprintf("%s.0", kind)
	if k := st.names[n]; k > 0 {
		n = fmt.Sprintf("%s#%d", n, k)
	}
	if _, ok := st.vec.Inputs[n]; !ok {
		return false
	}
	for i := range b {
		n := fmt.Sprintf("%s.%d", kind, i)
		k := st.names[n]
		st.names[n] = k + 1
		if k > 0 {
			n = fmt.Sprintf("%s#%d", n, k)
		}
		b[i] = byte(st.vec.Inputs[n])
	}
	return true
}

// Bound is a size bound of the exploration; it is reported as evidence.
func Bound(name string, quick, thorough int) int {
	if v, ok := st.vec.Bounds[name]; ok {
		return v
	}
	return quick
}

// Int is an arbitrary integer in [lo,hi].
func Int(name string, lo, hi int64) int64 { return int64(in(name)) }

// Choice is an arbitrary integer in [0,n); the paths are explored separately.
func Choice(name string, n int) int { return int(in(name)) }

// Bool is arbitrary.
func Bool(name string) bool { return in(name) != 0 }

// Byte is arbitrary.
func Byte(name string) byte { return byte(in(name)) }

// Bytes is n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(in(fmt.Sprintf("%s.%d", name, i)))
	}
	return b
}

// Str is an arbitrary string of length 0..max.
func Str(name string, max int) string {
	n := Choice(name+".len", max+1)
	return string(Bytes(name, n))
}

// Assume restricts the exploration.
func Assume(b bool) {
	if !b {
		panic(infeasible{})
	}
}

// Assert is the property.
func Assert(b bool, msg string) {
	if !b {
		st.mu.Lock()
		st.fails = append(st.fails, msg)
		st.mu.Unlock()
	}
}

// And is x && y, without telling the cases apart.
func And(x, y bool) bool { return x && y }

// Or is x || y, without telling the cases apart.
func Or(x, y bool) bool { return x || y }

// Sure tells whether b holds whatever the inputs are, as far as is plain.
func Sure(b bool) bool { return b }

// Reach marks a point the exploration must reach, against vacuity.
func Reach(label string) {}

// Observe records values; the native run of the same path must agree.
func Observe(label string, vals ...interface{}) {
	var sb strings.Builder
	sb.WriteString(label)
	for _, v := range vals {
		sb.WriteByte(' ')
		sb.WriteString(render(v))
	}
	st.mu.Lock()
	st.obs = append(st.obs, sb.String())
	st.mu.Unlock()
}

func render(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case error:
		return "error"
	case string:
		return fmt.Sprintf("%q", x)
	case []byte:
		return fmt.Sprintf("%q", string(x))
	case []string:
		var p []string
		for _, y := range x {
			p = append(p, fmt.Sprintf("%q", y))
		}
		return "[" + strings.Join(p, " ") + "]"
	}
	return fmt.Sprint(v)
}

// Quiesce waits until every other goroutine is blocked.
func Quiesce() { synctest.Wait() }

// Advance lets time pass.
func Advance(d time.Duration) {
	if d > 0 {
		time.Sleep(d)
	}
}

// Explore turns on the exploration of interleavings: at most preempt
// preemptions, every blocking choice, and data race detection.
func Explore(preempt int) {
	if !st.vec.Noise && len(st.vec.Sched) > 0 {
		vrt.Force(st.vec.Sched)
	}
}

// NoExplore turns it off again (for the checks after the concurrent part).
func NoExplore() { vrt.Stop() }

// Go starts a goroutine of the harness; Join waits for all of them.
func Go(f func()) {
	if wg == nil {
		wg = new(sync.WaitGroup)
	}
	wg := wg
	wg.Add(1)
	spawn(func() {
		defer wg.Done()
		f()
	})
}

// Join waits for every goroutine started by Go.
func Join() {
	if wg != nil {
		wg.Wait()
	}
}

// a pointer: a package level WaitGroup cannot belong to a bubble
var wg *sync.WaitGroup

func spawn(f func()) { vrt.Go(f) }

var base = 0

// Goroutines is the number of goroutines started since the harness began that
// have not ended.
func Goroutines() int { return runtime.NumGoroutine() - base }

// Sort sorts.
func Sort(s []string) { sort.Strings(s) }

// Holds reports whether the string s occurs anywhere in the memory reachable
// from v (map keys and values, slices up to their length, buffered channel
// elements are not followed).
func Holds(v interface{}, s string) bool {
	return holds(reflect.ValueOf(v), s, map[visit]bool{}, 0)
}

type visit struct {
	p unsafe.Pointer
	t reflect.Type
}

func holds(v reflect.Value, s string, seen map[visit]bool, d int) bool {
	if !v.IsValid() || d > 200 {
		return false
	}
	switch v.Kind() {
	case reflect.String:
		return strings.Contains(v.String(), s)
	case reflect.Pointer:
		if v.IsNil() {
			return false
		}
		k := visit{v.UnsafePointer(), v.Type()}
		if seen[k] {
			return false
		}
		seen[k] = true
		return holds(v.Elem(), s, seen, d+1)
	case reflect.Interface:
		return holds(v.Elem(), s, seen, d+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if holds(v.Field(i), s, seen, d+1) {
				return true
			}
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return strings.Contains(string(b), s)
		}
		for i := 0; i < v.Len(); i++ {
			if holds(v.Index(i), s, seen, d+1) {
				return true
			}
		}
	case reflect.Map:
		it := v.MapRange()
		for it.Next() {
			if holds(it.Key(), s, seen, d+1) || holds(it.Value(), s, seen, d+1) {
				return true
			}
		}
	}
	return false
}
