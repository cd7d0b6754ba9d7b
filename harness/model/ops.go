package model

import (
	"sort"
	"strings"

	"github.com/powerpuffpenguin/sessionid"
	"verif/harness/sym"
)

// Op is one operation, for the comparison with sequential orders.
type Op struct {
	Kind                 int
	Tok, Ref, NTok, NRef string
	Key                  string
	Val                  string
}

// Kinds of Op.
const (
	KCreate = iota
	KRefresh
	KDestroy
	KDestroyByToken
	KCheck
	KPut
	KGet
	KKeys
	KDelete
	Kinds
)

// Do performs an operation on a provider.
func Do(p sessionid.Provider, o Op) string {
	switch o.Kind {
	case KCreate:
		return names[Class(p.Create(BG, o.Tok, o.Ref, []sessionid.PairBytes{{Key: o.Key, Value: []byte(o.Val)}}))]
	case KRefresh:
		return names[Class(p.Refresh(BG, o.Tok, o.Ref, o.NTok, o.NRef))]
	case KDestroy:
		id, _ := ID(o.Tok)
		return names[Class(p.Destroy(BG, id))]
	case KDestroyByToken:
		return names[Class(p.DestroyByToken(BG, o.Tok))]
	case KCheck:
		return names[Class(p.Check(BG, o.Tok))]
	case KPut:
		return names[Class(p.Put(BG, o.Tok, []sessionid.PairBytes{{Key: o.Key, Value: []byte(o.Val)}, {Key: o.Key + "2", Value: []byte(o.Val)}}))]
	case KGet:
		v, e := p.Get(BG, o.Tok, []string{o.Key, o.Key + "2"})
		s := names[Class(e)]
		for _, x := range v {
			if x.Exists {
				s += "=" + string(x.Bytes)
			} else if e == nil {
				s += "-"
			}
		}
		return s
	case KKeys:
		k, e := p.Keys(BG, o.Tok)
		sort.Strings(k)
		return names[Class(e)] + " " + strings.Join(k, ",")
	case KDelete:
		return names[Class(p.Delete(BG, o.Tok, []string{o.Key, o.Key + "2"}))]
	}
	return ""
}

// Apply performs it on the reference; any is the set of acceptable results.
func (m *Store) Apply(o Op) string {
	id, _ := ID(o.Tok)
	switch o.Kind {
	case KCreate:
		m.reap()
		if i := m.index(o.Tok); i >= 0 {
			m.remove(i)
		}
		if m.Max > 0 {
			for len(m.S) >= m.Max {
				m.remove(0)
			}
		}
		s := &Sess{ID: id, Access: o.Tok, Refresh: o.Ref, ADead: m.Now + m.A, RDead: m.Now + m.R}
		s.set(o.Key, []byte(o.Val))
		m.S = append(m.S, s)
		return names[OK]
	case KRefresh:
		m.reap()
		i := m.index(o.Tok)
		if i < 0 {
			return names[NotExists]
		}
		s := m.S[i]
		if s.Refresh != o.Ref {
			return names[RefreshNotMatched]
		}
		m.remove(i)
		if j := m.index(o.NTok); j >= 0 {
			m.remove(j)
		}
		n := &Sess{ID: id, Access: o.NTok, Refresh: o.NRef, ADead: m.Now + m.A, RDead: m.Now + m.R, Data: s.Data}
		m.S = append(m.S, n)
		return names[OK]
	case KDestroy:
		var n []*Sess
		for _, s := range m.S {
			if s.ID != id {
				n = append(n, s)
			}
		}
		m.S = n
		return names[OK]
	case KDestroyByToken:
		if i := m.index(o.Tok); i >= 0 {
			m.remove(i)
		}
		return names[OK]
	}
	s, c := m.Status(o.Tok)
	r := names[c]
	switch o.Kind {
	case KPut:
		if c == OK {
			s.set(o.Key, []byte(o.Val))
			s.set(o.Key+"2", []byte(o.Val))
		}
	case KGet:
		if c == OK {
			for _, k := range []string{o.Key, o.Key + "2"} {
				if b, ok := s.Get(k); ok {
					r += "=" + string(b)
				} else {
					r += "-"
				}
			}
		}
	case KKeys:
		var ks []string
		if c == OK {
			for _, kv := range s.Data {
				ks = append(ks, kv.K)
			}
		}
		sort.Strings(ks)
		return r + " " + strings.Join(ks, ",")
	case KDelete:
		if c == OK {
			s.del(o.Key)
			s.del(o.Key + "2")
		}
	}
	return r
}

// Copy is a deep enough copy.
func (m *Store) Copy() *Store {
	n := *m
	n.S = nil
	for _, s := range m.S {
		t := *s
		t.Data = append([]KV(nil), s.Data...)
		n.S = append(n.S, &t)
	}
	return &n
}

// State describes everything observable of the tokens in a provider.
func State(p sessionid.Provider, toks []string, key string) string {
	s := ""
	for _, t := range toks {
		s += Do(p, Op{Kind: KGet, Tok: t, Key: key}) + " " + Do(p, Op{Kind: KKeys, Tok: t}) + "; "
	}
	return s
}

// State describes everything observable of the tokens in the reference.
func (m *Store) State(toks []string, key string) string {
	s := ""
	for _, t := range toks {
		s += m.Apply(Op{Kind: KGet, Tok: t, Key: key}) + " " + m.Apply(Op{Kind: KKeys, Tok: t}) + "; "
	}
	return s
}

// Linear tells whether the results and the final state are those of some
// sequential order that keeps each thread's own order. With closed set, an
// operation may instead report the closed error from some point of the order on.
func Linear(m *Store, thr [][]Op, res [][]string, final string, toks []string, key string) bool {
	pos := make([]int, len(thr))
	return linear(m, thr, res, pos, final, toks, key)
}

func linear(m *Store, thr [][]Op, res [][]string, pos []int, final string, toks []string, key string) bool {
	done, some := true, false
	for t := range thr {
		if pos[t] == len(thr[t]) {
			continue
		}
		done = false
		if o := thr[t][pos[t]]; m.Loose && o.Kind == KDestroy {
			// the user's sessions go one at a time
			id, _ := ID(o.Tok)
			for i, x := range m.S {
				if x.ID == id {
					n := m.Copy()
					n.remove(i)
					some = sym.Or(some, linear(n, thr, res, pos, final, toks, key))
					if sym.Sure(some) {
						return true
					}
				}
			}
		}
		n := m.Copy()
		same := n.Apply(thr[t][pos[t]]) == res[t][pos[t]]
		if sym.Sure(!same) {
			continue
		}
		p := append([]int(nil), pos...)
		p[t]++
		some = sym.Or(some, sym.And(same, linear(n, thr, res, p, final, toks, key)))
		if sym.Sure(some) {
			return true
		}
	}
	if done {
		return m.State(toks, key) == final
	}
	return some
}
