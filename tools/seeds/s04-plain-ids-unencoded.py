PROP = "S04"
NEEDS = "one user whose id equals the encoded form of another's"
BREAKS = "ids that already look encoded are not encoded again, so user YQ is the same as user a"
EDITS = [("manager.go", """	eid := encode([]byte(id))
""", """	eid := m.encode(id)
"""), ("manager.go", """// Destroy a session by id
func (m *LocalManager) Destroy(ctx context.Context, id string) error {
	return m.opts.provider.Destroy(ctx, encode([]byte(id)))
""", """func (m *LocalManager) encode(id string) string {
	// already encoded
	if b, e := cryptoer.DecodeSegment(id); e == nil && len(b) != 0 && encode(b) == id {
		return id
	}
	return encode([]byte(id))
}

// Destroy a session by id
func (m *LocalManager) Destroy(ctx context.Context, id string) error {
	return m.opts.provider.Destroy(ctx, m.encode(id))
"""), ("manager.go", """	"context"
)""", """	"context"

	"github.com/powerpuffpenguin/sessionid/cryptoer"
)""")]
DEMO = '''
package sessionid

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	c := context.Background()
	m := NewManager(WithProvider(NewProvider()))
	s, _, e := m.Create(c, "-")
	if e != nil {
		t.Fatal(e)
	}
	m.Destroy(c, encode([]byte("-")))
	if e := s.Check(c); e != nil {
		t.Fatal("demo: destroying another user removed the session:", e)
	}
	a, _, _ := m.Create(c, "a")
	m.Destroy(c, encode([]byte("a")))
	if e := a.Check(c); e != nil {
		t.Fatal("demo: destroying another user removed the session:", e)
	}
}
'''
