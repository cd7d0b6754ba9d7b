PROP = "S07"
NEEDS = "two session ids made in moments whose low clock bits agree"
BREAKS = "two bytes of the unique id are dropped, so ids repeat within minutes"
EDITS = [("coder.go", """	sessionid = encode(u[:])
""", """	sessionid = encode(u[2:]) // shorter
""")]
DEMO = '''
package sessionid

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var m sync.Mutex
	var w sync.WaitGroup
	seen := make(map[string]bool)
	twice := 0
	for g := 0; g < 4; g++ {
		w.Add(1)
		go func() {
			defer w.Done()
			ids := make([]string, 0, 200000)
			for i := 0; i < 200000; i++ {
				id, e := newSessionID()
				if e != nil {
					panic(e)
				}
				ids = append(ids, id)
			}
			m.Lock()
			defer m.Unlock()
			for _, id := range ids {
				if seen[id] {
					twice++
				}
				seen[id] = true
			}
		}()
	}
	w.Wait()
	if twice > 0 {
		t.Fatal("demo: session ids made twice:", twice)
	}
}
'''
