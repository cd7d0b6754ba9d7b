// Package model is the reference the session stores are compared with: a plain
// list of sessions in creation/refresh order, written from the documentation of
// the Provider interface and of its errors.
package model

import (
	"context"
	"errors"
	"strings"
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"verif/harness/sym"
)

// Outcome classes of an operation.
const (
	OK = iota
	Invalid
	NotExists
	Expired
	IDNotMatched
	RefreshNotMatched
	Closed
	Other
	Ended // the context has
)

var names = []string{"ok", "invalid", "not-exists", "expired", "id-not-matched", "refresh-not-matched", "closed", "other-error", "context-ended"}

// Name of a class.
func Name(c int) string { return names[c] }

// Class of an error.
func Class(e error) int {
	switch {
	case e == nil:
		return OK
	case errors.Is(e, sessionid.ErrTokenInvalid):
		return Invalid
	case errors.Is(e, sessionid.ErrTokenNotExists):
		return NotExists
	case errors.Is(e, sessionid.ErrTokenExpired):
		return Expired
	case errors.Is(e, sessionid.ErrTokenIDNotMatched):
		return IDNotMatched
	case errors.Is(e, sessionid.ErrRefreshTokenNotMatched):
		return RefreshNotMatched
	case errors.Is(e, sessionid.ErrProviderClosed):
		return Closed
	case errors.Is(e, context.Canceled), errors.Is(e, context.DeadlineExceeded):
		return Ended
	}
	return Other
}

// KV is one stored entry.
type KV struct {
	K string
	V []byte
}

// Sess is one session.
type Sess struct {
	ID, Access, Refresh string
	ADead, RDead        time.Duration
	Data                []KV
}

// Store is the reference store.
type Store struct {
	A, R time.Duration
	Max  int
	S    []*Sess // oldest first
	Now  time.Duration
	// Loose: destroying a user takes its sessions away one at a time.
	Loose bool
}

// ID is the user part of a token.
func ID(tok string) (string, bool) {
	i := strings.IndexByte(tok, '.')
	if i < 0 || strings.LastIndexByte(tok, '.') == i {
		return "", false
	}
	return tok[:i], true
}

func (m *Store) index(tok string) int {
	for i, s := range m.S {
		if s.Access == tok {
			return i
		}
	}
	return -1
}

// Index of the session with an access token, or -1.
func (m *Store) Index(tok string) int { return m.index(tok) }

func (m *Store) remove(i int) {
	var n []*Sess
	for j, s := range m.S {
		if j != i {
			n = append(n, s)
		}
	}
	m.S = n
}

// reap forgets the sessions whose refresh lifetime has passed.
func (m *Store) reap() {
	var n []*Sess
	for _, s := range m.S {
		if m.Now < s.RDead {
			n = append(n, s)
		}
	}
	m.S = n
}

// Live returns the number of sessions whose refresh lifetime has not passed.
func (m *Store) Live() int {
	m.reap()
	return len(m.S)
}

// Status of a token at this instant.
func (m *Store) Status(tok string) (*Sess, int) {
	if _, ok := ID(tok); !ok {
		return nil, Invalid
	}
	i := m.index(tok)
	if i < 0 {
		return nil, NotExists
	}
	s := m.S[i]
	if m.Now < s.ADead {
		return s, OK
	}
	if m.Now < s.RDead {
		return s, Expired
	}
	m.remove(i)
	return nil, NotExists
}

func (s *Sess) set(k string, v []byte) {
	for i := range s.Data {
		if s.Data[i].K == k {
			s.Data[i].V = v
			return
		}
	}
	s.Data = append(s.Data, KV{k, v})
}

// Get looks a key up.
func (s *Sess) Get(k string) ([]byte, bool) {
	for i := range s.Data {
		if s.Data[i].K == k {
			return s.Data[i].V, true
		}
	}
	return nil, false
}

func (s *Sess) del(k string) {
	var n []KV
	for _, kv := range s.Data {
		if kv.K != k {
			n = append(n, kv)
		}
	}
	s.Data = n
}

func clone(b []byte) []byte { return append([]byte{}, b...) }

// Env drives a provider and the reference together.
type Env struct {
	P   sessionid.Provider
	M   *Store
	Tag string // property id, the prefix of every assertion message
}

// BG is the context every call gets.
var BG = context.Background()

func (v *Env) want(op string, e error, class int) {
	c := Class(e)
	sym.Observe(op, names[c])
	sym.Assert(c == class, v.Tag+": "+op+" reports "+names[c]+" where the history requires "+names[class])
}

// Advance lets time pass.
func (v *Env) Advance(d time.Duration) {
	sym.Advance(d)
	if d > 0 {
		v.M.Now += d
	}
}

// Create a session.
func (v *Env) Create(acc, ref string, pair []sessionid.PairBytes) {
	e := v.P.Create(BG, acc, ref, pair)
	id, ok := ID(acc)
	_, ok1 := ID(ref)
	if !ok || !ok1 {
		v.want("Create", e, Invalid)
		return
	}
	v.want("Create", e, OK)
	m := v.M
	m.reap()
	if i := m.index(acc); i >= 0 {
		m.remove(i)
	}
	if m.Max > 0 {
		for len(m.S) >= m.Max {
			m.remove(0)
		}
	}
	s := &Sess{ID: id, Access: acc, Refresh: ref, ADead: m.Now + m.A, RDead: m.Now + m.R}
	for _, p := range pair {
		s.set(p.Key, clone(p.Value))
	}
	m.S = append(m.S, s)
}

// Refresh a session.
func (v *Env) Refresh(acc, ref, nacc, nref string) bool {
	e := v.P.Refresh(BG, acc, ref, nacc, nref)
	c := Class(e)
	sym.Observe("Refresh", names[c])
	m := v.M
	m.reap()
	id, ok := ID(acc)
	var allowed [9]bool
	bad := false
	for _, t := range []string{ref, nacc, nref} {
		o, k := ID(t)
		if !k {
			ok = false
		} else if o != id {
			bad = true
		}
	}
	if !ok {
		allowed[Invalid] = true
		bad = bad || false
	}
	if bad {
		allowed[IDNotMatched] = true
	}
	var s *Sess
	if i := m.index(acc); i >= 0 {
		s = m.S[i]
		if s.Refresh != ref {
			allowed[RefreshNotMatched] = true
		}
	} else {
		allowed[NotExists] = true
	}
	if ok && !bad && s != nil && s.Refresh == ref {
		sym.Assert(c == OK, v.Tag+": Refresh with the current tokens reports "+names[c])
		i := m.index(acc)
		m.remove(i)
		if j := m.index(nacc); j >= 0 {
			m.remove(j)
		}
		s.Access, s.Refresh = nacc, nref
		s.ADead, s.RDead = m.Now+m.A, m.Now+m.R
		m.S = append(m.S, s)
		return true
	}
	if c == OK {
		sym.Assert(false, v.Tag+": Refresh succeeds although the tokens do not allow it")
	} else {
		sym.Assert(allowed[c], v.Tag+": Refresh reports "+names[c]+" which does not correspond")
	}
	return false
}

// Destroy every session of a user.
func (v *Env) Destroy(id string) {
	e := v.P.Destroy(BG, id)
	v.want("Destroy", e, OK)
	var n []*Sess
	for _, s := range v.M.S {
		if s.ID != id {
			n = append(n, s)
		}
	}
	v.M.S = n
}

// DestroyByToken destroys one session.
func (v *Env) DestroyByToken(tok string) {
	e := v.P.DestroyByToken(BG, tok)
	if _, ok := ID(tok); !ok {
		v.want("DestroyByToken", e, Invalid)
		return
	}
	v.want("DestroyByToken", e, OK)
	if i := v.M.index(tok); i >= 0 {
		v.M.remove(i)
	}
}

// Check a token.
func (v *Env) Check(tok string) int {
	e := v.P.Check(BG, tok)
	_, c := v.M.Status(tok)
	v.want("Check", e, c)
	return c
}

// Put writes entries.
func (v *Env) Put(tok string, pair []sessionid.PairBytes) int {
	e := v.P.Put(BG, tok, pair)
	s, c := v.M.Status(tok)
	v.want("Put", e, c)
	if c == OK {
		for _, p := range pair {
			s.set(p.Key, clone(p.Value))
		}
	}
	return c
}

// Get reads entries.
func (v *Env) Get(tok string, keys []string) []sessionid.Value {
	vals, e := v.P.Get(BG, tok, keys)
	s, c := v.M.Status(tok)
	v.want("Get", e, c)
	if c == OK && e == nil {
		sym.Assert(len(vals) == len(keys), v.Tag+": Get returns a wrong number of values")
		if len(vals) == len(keys) {
			for i, k := range keys {
				b, ok := s.Get(k)
				sym.Observe("value", vals[i].Exists, vals[i].Bytes)
				sym.Assert(vals[i].Exists == ok, v.Tag+": Get is wrong about whether a key exists")
				sym.Assert(string(vals[i].Bytes) == string(b), v.Tag+": Get returns other bytes than were written")
			}
		}
	} else if c != OK && e != nil {
		for i := range vals {
			sym.Assert(!vals[i].Exists && len(vals[i].Bytes) == 0, v.Tag+": Get returns values together with an error")
		}
	}
	return vals
}

// Keys lists the keys.
func (v *Env) Keys(tok string) {
	keys, e := v.P.Keys(BG, tok)
	s, c := v.M.Status(tok)
	v.want("Keys", e, c)
	if c == OK && e == nil {
		sym.Assert(len(keys) == len(s.Data), v.Tag+": Keys lists a wrong number of keys")
		for i, k := range keys {
			for j := 0; j < i; j++ {
				sym.Assert(keys[j] != k, v.Tag+": Keys lists a key twice")
			}
			_, ok := s.Get(k)
			sym.Assert(ok, v.Tag+": Keys lists a key that does not exist")
		}
	} else if c != OK && e != nil {
		sym.Assert(len(keys) == 0, v.Tag+": Keys returns keys together with an error")
	}
}

// Delete removes entries.
func (v *Env) Delete(tok string, keys []string) {
	e := v.P.Delete(BG, tok, keys)
	s, c := v.M.Status(tok)
	v.want("Delete", e, c)
	if c == OK {
		for _, k := range keys {
			s.del(k)
		}
	}
}

// Probe runs the k-th kind of operation on a token: every one must report the
// same status.
func (v *Env) Probe(k int, tok string, keys []string) {
	switch k {
	case 0:
		v.Check(tok)
	case 1:
		v.Get(tok, keys)
	case 2:
		v.Keys(tok)
	case 3:
		v.Put(tok, nil)
	case 4:
		v.Delete(tok, nil)
	case 5:
		v.Put(tok, []sessionid.PairBytes{{Key: "p", Value: []byte("q")}})
	case 6:
		v.Delete(tok, []string{"p", "k"})
	case 7:
		v.Get(tok, nil)
	}
}

// Probes is the number of kinds.
const Probes = 8

// All compares everything observable of the given tokens.
func (v *Env) All(toks, keys []string) {
	for _, t := range toks {
		if v.Check(t) == OK {
			v.Get(t, keys)
			v.Keys(t)
		}
	}
}
