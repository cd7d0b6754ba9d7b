PROP = "M02"
NEEDS = "a value handed in whose slice has no spare capacity, changed by the caller afterwards"
BREAKS = "a value without spare capacity is kept instead of copied, so the caller changing its slice changes the stored data"
EDITS = [("provider.go", """	if v == nil {
		t.data[k] = nil
	} else {
		val := make""", """	if v == nil {
		t.data[k] = nil
	} else if old, ok := t.data[k]; ok && len(v) != 0 && len(old) == len(v) && cap(v) == len(v) {
		t.data[k] = v
	} else {
		val := make""")]
DEMO = '''
package sessionid

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	c := context.Background()
	p := NewProvider()
	defer p.Close()
	p.Create(c, "a.0.s", "a.r.s", []PairBytes{{Key: "k", Value: []byte{1, 2}}})
	v := make([]byte, 2)
	v[0] = 3
	p.Put(c, "a.0.s", []PairBytes{{Key: "k", Value: v}})
	v[0] = 9
	got, e := p.Get(c, "a.0.s", []string{"k"})
	if e != nil {
		t.Fatal(e)
	}
	if got[0].Bytes[0] != 3 {
		t.Fatal("demo: the stored value changed with the caller's slice:", got[0].Bytes)
	}
}
'''
