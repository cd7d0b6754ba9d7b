PROP = "X01"
NEEDS = "a session write that the store refuses, followed by a read through the same session object"
BREAKS = "values are put in the session's cache while encoding, before the store accepted them"
EDITS = [("session.go", """	kv := make([]PairBytes, 0, count)
	var b []byte
	for i := 0; i < count; i++ {
		b, e = s.coder.Encode(pair[i].Value)
		if e != nil {
			return
		}
		kv = append(kv, PairBytes{
			Key:   pair[i].Key,
			Value: b,
		})
	}
	e = s.provider.Put(ctx, s.token, kv)
	if e != nil {
		return
	}
	if s.keys == nil {
		s.keys = make(map[string]Value)
	}
	for i := 0; i < count; i++ {
		s.keys[kv[i].Key] = Value{
			Exists: true,
			Bytes:  copyBytes(kv[i].Value),
		}
	}
	return
""", """	kv := make([]PairBytes, 0, count)
	if s.keys == nil {
		s.keys = make(map[string]Value)
	}
	var b []byte
	for i := 0; i < count; i++ {
		b, e = s.coder.Encode(pair[i].Value)
		if e != nil {
			return
		}
		kv = append(kv, PairBytes{
			Key:   pair[i].Key,
			Value: b,
		})
	}
	for i := 0; i < count; i++ {
		s.keys[kv[i].Key] = Value{
			Exists: true,
			Bytes:  copyBytes(kv[i].Value),
		}
	}
	e = s.provider.Put(ctx, s.token, kv)
	if e != nil {
		return
	}
	return
""")]
DEMO = '''
package sessionid

import (
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	c := context.Background()
	m := NewManager(WithProvider(NewProvider()))
	s, _, e := m.Create(c, "1", Pair{Key: "k", Value: "old"})
	if e != nil {
		t.Fatal(e)
	}
	other, _ := m.Get(c, s.Token())
	other.Destroy(c)
	if e := s.Put(c, Pair{Key: "k", Value: "new"}); e == nil {
		t.Fatal("put on a destroyed session works")
	}
	var v string
	if e := s.Get(c, "k", &v); e == nil && v == "new" {
		t.Fatal("demo: a value that was never stored is read back")
	}
}
'''
