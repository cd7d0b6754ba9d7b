PROP = "E02"
FLAGS = "-race"
NEEDS = "two goroutines creating sessions of, or destroying, different users through one manager at the same time"
BREAKS = "the manager remembers the user it encoded last without a lock: a goroutine can act on another goroutine's user"
EDITS = [("manager.go", """type LocalManager struct {
	opts options
}""", """type LocalManager struct {
	opts options
	// the user seen last, who is likely to be seen again
	id, eid string
}

func (m *LocalManager) encode(id string) string {
	if m.eid == "" || m.id != id {
		m.id = id
		m.eid = encode([]byte(id))
	}
	return m.eid
}"""), ("manager.go", "	eid := encode([]byte(id))\n", "	eid := m.encode(id)\n"),
("manager.go", "	return m.opts.provider.Destroy(ctx, encode([]byte(id)))\n", "	return m.opts.provider.Destroy(ctx, m.encode(id))\n")]
DEMO = '''
package sessionid

import (
	"context"
	"strconv"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	p := NewProvider()
	defer p.Close()
	m := NewManager(WithProvider(p))
	var g sync.WaitGroup
	for i := 0; i < 4; i++ {
		id := strconv.Itoa(i)
		g.Add(1)
		go func() {
			defer g.Done()
			for n := 0; n < 5000; n++ {
				s, _, e := m.Create(context.Background(), id)
				if e != nil {
					t.Error(e)
					return
				}
				if s.ID() != encode([]byte(id)) {
					t.Error("demo: a session of another user")
					return
				}
			}
		}()
	}
	g.Wait()
}
'''
