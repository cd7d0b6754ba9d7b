PROP = "M04"
NEEDS = "three sessions of one user, the newest destroyed by token, then the user destroyed"
BREAKS = "destroying a user's newest session empties the user's index, so destroying the user leaves the older sessions alive"
EDITS = [("provider.go", """func (p *MemoryProvider) unsafePop(ele *list.Element) string {
	t := ele.Value.(*tokenValue)
	strs := p.ids[t.id]
	for i, str := range strs {
		if str != t.access {
			continue
		}
		if len(strs) == 1 {
			delete(p.ids, t.id)""", """func (p *MemoryProvider) unsafePop(ele *list.Element) string {
	t := ele.Value.(*tokenValue)
	strs := p.ids[t.id]
	for i, str := range strs {
		if str != t.access {
			continue
		}
		if i == len(strs)-1 && i != 1 {
			delete(p.ids, t.id)""")]
DEMO = '''
package sessionid

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	c := context.Background()
	p := NewProvider()
	defer p.Close()
	for _, s := range []string{"0", "1", "2"} {
		p.Create(c, "a."+s+".s", "a.r.s", nil)
	}
	p.DestroyByToken(c, "a.2.s")
	p.Destroy(c, "a")
	for _, s := range []string{"0", "1", "2"} {
		if p.Check(c, "a."+s+".s") != ErrTokenNotExists {
			t.Fatal("demo: a destroyed user's session is alive:", s)
		}
	}
}
'''
