package hcore

import (
	"context"
	"crypto/hmac"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"errors"
	"hash"
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"github.com/powerpuffpenguin/sessionid/cryptoer"
	"verif/harness/model"
	"verif/harness/sym"
)

func method(k int) (cryptoer.SigningMethod, func() hash.Hash) {
	switch k {
	case 0:
		return cryptoer.SigningMethodHS256, sha256.New
	case 1:
		return cryptoer.SigningMethodHMD5, md5.New
	case 2: // a signature of whole groups of letters
		return cryptoer.SigningMethodHS384, sha512.New384
	case 3:
		return cryptoer.SigningMethodHS1, sha1.New
	}
	return cryptoer.SigningMethodHS512, sha512.New
}

// refMAC is the keyed MAC, computed without the library.
func refMAC(h func() hash.Hash, key []byte, msg string) []byte {
	m := hmac.New(h, key)
	m.Write([]byte(msg))
	return m.Sum(nil)
}

// dots returns the positions of the first and last dot, and how many there are.
func dots(t string) (first, last, n int) {
	first, last = -1, -1
	for i := 0; i < len(t); i++ {
		if t[i] == '.' {
			if first < 0 {
				first = i
			}
			last = i
			n++
		}
	}
	return
}

// genuine decides, without the library, whether a manager with this key must
// accept t.
func genuine(h func() hash.Hash, key []byte, t string) bool {
	_, last, n := dots(t)
	if n < 2 {
		return false
	}
	b, e := base64.RawURLEncoding.DecodeString(t[last+1:])
	return e == nil && string(b) == string(refMAC(h, key, t[:last]))
}

// canonical decides whether t is spelt exactly as a manager with this key
// issues tokens: such a token must be accepted.
func canonical(h func() hash.Hash, key []byte, t string) bool {
	_, last, n := dots(t)
	return n >= 2 && t[last+1:] == base64.RawURLEncoding.EncodeToString(refMAC(h, key, t[:last]))
}

// forged makes a candidate token: an arbitrary signed text with a signature
// derived from a MAC of the same or another text under the same or another key.
func forged(tag string, h func() hash.Hash, key []byte) string {
	signed := sym.Str(tag+".signed", 3)
	msg := signed
	k := key
	var b []byte
	switch sym.Choice(tag+".kind", 8) {
	case 0: // genuine, or altered in any bits
		b = refMAC(h, k, msg)
		b[sym.Choice(tag+".at", len(b))] ^= sym.Byte(tag + ".mask")
	case 1: // of another text
		b = refMAC(h, k, sym.Str(tag+".msg", 3))
	case 2: // under another key
		b = refMAC(h, sym.Bytes(tag+".key", sym.Choice(tag+".keylen", 3)), msg)
	case 3: // truncated
		b = refMAC(h, k, msg)
		b = b[:len(b)-1-sym.Choice(tag+".cut", len(b))]
	case 4: // extended
		b = append(refMAC(h, k, msg), sym.Bytes(tag+".more", 1+sym.Choice(tag+".by", 2))...)
	case 5: // arbitrary and short
		return signed + "." + sym.Str(tag+".sig", 3)
	case 6: // nothing
		return signed
	case 7: // something put behind a genuine one
		return signed + "." + base64.RawURLEncoding.EncodeToString(refMAC(h, k, msg)) + sym.Str(tag+".tail", 2)
	}
	return signed + "." + base64.RawURLEncoding.EncodeToString(b)
}

// recorder is a store that accepts everything.
type recorder struct {
	sessionid.Provider
	calls                 int
	access, refresh, a, r string
	fail                  bool
	pairs                 []sessionid.PairBytes
	held                  []sessionid.PairBytes
}

func (p *recorder) Get(ctx context.Context, token string, keys []string) ([]sessionid.Value, error) {
	vs := make([]sessionid.Value, len(keys))
	if token == p.access {
		for i, k := range keys {
			for _, kv := range p.held {
				if kv.Key == k {
					vs[i] = sessionid.Value{Exists: true, Bytes: kv.Value}
				}
			}
		}
	}
	return vs, nil
}

var errRefused = errors.New("refused")

func (p *recorder) Create(ctx context.Context, access, refresh string, pair []sessionid.PairBytes) error {
	p.calls++
	p.access, p.refresh, p.pairs = access, refresh, pair
	if p.fail {
		return errRefused
	}
	return nil
}

func (p *recorder) Refresh(ctx context.Context, access, refresh, newAccess, newRefresh string) error {
	p.calls++
	p.access, p.refresh, p.a, p.r = access, refresh, newAccess, newRefresh
	if p.fail {
		return errRefused
	}
	return nil
}

// S01Forge: looking up accepts exactly the genuine tokens.
func S01Forge() {
	m, h := method(sym.Choice("method", sym.Bound("methods", 3, 5)))
	key := sym.Bytes("key", 2)
	mg := sessionid.NewManager(sessionid.WithMethod(m), sessionid.WithKey(key), sessionid.WithProvider(&recorder{}))
	t := forged("t", h, key)
	s, e := mg.Get(bg, t)
	ok := genuine(h, key, t)
	sym.Observe("get", ok, e)
	sym.Assert(e != nil || ok, "S01 only genuine tokens are accepted")
	sym.Assert(e == nil || !canonical(h, key, t), "S01 every issued token is accepted")
	sym.Assert((s != nil) == (e == nil), "S01 a rejected token yields no session")
	if e == nil && s != nil {
		first, _, _ := dots(t)
		sym.Assert(s.ID() == t[:first] && s.Token() == t, "S01 a session names the user of its token")
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

// S01Tamper: one byte of an issued token's signed part is changed.
func S01Tamper() {
	m, h := method(sym.Choice("method", sym.Bound("methods", 1, 5)))
	key := sym.Bytes("key", 1)
	mg := sessionid.NewManager(sessionid.WithMethod(m), sessionid.WithKey(key), sessionid.WithProvider(&recorder{}))
	s, _, e := mg.Create(bg, sym.Str("id", 1))
	sym.Assert(e == nil, "S01 create")
	t := s.Token()
	_, last, _ := dots(t)
	at := sym.Choice("at", last)
	b := []byte(t)
	switch sym.Choice("how", 3) {
	case 0:
		x := sym.Byte("mask")
		sym.Assume(x != 0)
		b[at] ^= x
	case 1: // a byte is dropped
		b = append(b[:at:at], b[at+1:]...)
	case 2: // a byte is inserted
		b = append(b[:at:at], append([]byte{sym.Byte("ins")}, b[at:]...)...)
	}
	u := string(b)
	_, e = mg.Get(bg, u)
	if genuine(h, key, u) {
		// only inserting or dropping cannot make one: the text differs
		sym.Assert(u == t, "S01 an altered token stays genuine")
	} else {
		sym.Assert(e != nil, "S01 an altered token is rejected")
	}
	sym.Reach("end")
}

// S01Refresh: refreshing verifies both tokens and their user.
func S01Refresh() {
	m, h := method(sym.Choice("method", sym.Bound("methods", 1, 5)))
	key := sym.Bytes("key", 1)
	p := &recorder{fail: sym.Bool("refused")}
	mg := sessionid.NewManager(sessionid.WithMethod(m), sessionid.WithKey(key), sessionid.WithProvider(p))
	mac := func(s string) string { return s + "." + base64.RawURLEncoding.EncodeToString(refMAC(h, key, s)) }
	pick := func(tag string) string {
		switch sym.Choice(tag, 3) {
		case 0:
			return mac("u." + sym.Str(tag+".sid", 1))
		case 1:
			return mac(sym.Str(tag+".signed", 2))
		}
		return forged(tag, h, key)
	}
	var a, r string
	if sym.Bool("which") {
		a, r = pick("access"), mac("u.r")
	} else {
		a, r = mac("u.a"), pick("refresh")
	}
	na, nr, e := mg.Refresh(bg, a, r)
	ok, must := genuine(h, key, a) && genuine(h, key, r), canonical(h, key, a) && canonical(h, key, r)
	if ok {
		fa, _, _ := dots(a)
		fr, _, _ := dots(r)
		ok = a[:fa] == r[:fr]
	}
	sym.Observe("refresh", ok, p.calls, e)
	if !ok {
		sym.Assert(e != nil && p.calls == 0, "S01 refreshing with a token that is not genuine or of another user is refused")
		sym.Reach("rejected")
		return
	}
	if !must && e != nil && p.calls == 0 {
		return // spelt differently: may be refused
	}
	sym.Assert(p.calls == 1 && p.access == a && p.refresh == r, "S01 refreshing with genuine tokens of one user gets to the store")
	sym.Assert((e != nil) == p.fail, "S01 refreshing fails exactly if the store refuses")
	if e == nil {
		sym.Assert(na == p.a && nr == p.r, "S01 refreshing returns the tokens it stored")
		for _, t := range []string{na, nr} {
			f, _, _ := dots(t)
			sym.Assert(genuine(h, key, t) && t[:f] == "u", "S01 refreshing issues genuine tokens of the same user")
		}
		sym.Assert(na != nr && na != a && nr != r, "S01 every token issued is new")
		sym.Reach("accepted")
	}
}

// S01Issue: issued tokens are good at every manager with the same key and
// method, and at no other.
func S01Issue() {
	k1, k2 := sym.Choice("method1", 2), sym.Choice("method2", sym.Bound("methods", 2, 5))
	m1, h1 := method(k1)
	m2, _ := method(k2)
	key1, key2 := sym.Bytes("key1", sym.Choice("len1", 3)), sym.Bytes("key2", sym.Choice("len2", 3))
	p := sessionid.NewProvider(sessionid.WithProviderClear(0), sessionid.WithProviderAccess(time.Hour))
	g1 := sessionid.NewManager(sessionid.WithMethod(m1), sessionid.WithKey(key1), sessionid.WithProvider(p))
	g2 := sessionid.NewManager(sessionid.WithKey(key2), sessionid.WithProvider(p), sessionid.WithMethod(m2))
	id := sym.Str("id", 2)
	s, r, e := g1.Create(bg, id)
	sym.Assert(e == nil && s != nil, "S01 create")
	a := s.Token()
	eid := base64.RawURLEncoding.EncodeToString([]byte(id))
	sym.Assert(genuine(h1, key1, a) && genuine(h1, key1, r) && a != r, "S01 issued tokens are genuine and distinct")
	sym.Assert(s.ID() == eid, "S01 a session names its user")
	// keys that differ in trailing zero bytes only are one and the same HMAC key
	same := k1 == k2 && trim(key1) == trim(key2)
	x, e := g2.Get(bg, a)
	sym.Assert((e == nil) == same, "S01 a token is accepted by managers with the same key and method only")
	if e == nil {
		sym.Assert(x.ID() == eid && x.Check(bg) == nil, "S01 a session names its user")
	}
	na, nr, e := g2.Refresh(bg, a, r)
	sym.Assert((e == nil) == same, "S01 tokens are refreshed by managers with the same key and method only")
	if e == nil {
		x, e = g1.Get(bg, na)
		sym.Assert(e == nil && x.ID() == eid && x.Check(bg) == nil, "S01 a refreshed token is accepted")
		_, _, e = g1.Refresh(bg, na, nr)
		sym.Assert(e == nil, "S01 refreshed tokens refresh again")
		sym.Reach("same")
	} else {
		sym.Assert(s.Check(bg) == nil, "S01 a refused refresh changes nothing")
		sym.Reach("different")
	}
	p.Close()
}

func trim(k []byte) string {
	n := len(k)
	for n > 0 && k[n-1] == 0 {
		n--
	}
	return string(k[:n])
}

// S01Two: tokens of two sessions and users cannot be mixed, and access and
// refresh tokens cannot stand in for each other.
func S01Two() {
	p := sessionid.NewProvider(sessionid.WithProviderClear(0), sessionid.WithProviderAccess(time.Hour))
	g := sessionid.NewManager(sessionid.WithProvider(p), sessionid.WithKey([]byte("k")))
	id1, id2 := sym.Str("id1", 2), sym.Str("id2", 2)
	s1, r1, _ := g.Create(bg, id1)
	s2, r2, _ := g.Create(bg, id2)
	tok := []string{s1.Token(), r1, s2.Token(), r2}
	i, j := sym.Choice("access", 4), sym.Choice("refresh", 4)
	na, nr, e := g.Refresh(bg, tok[i], tok[j])
	sym.Assert((e == nil) == (i == 0 && j == 1 || i == 2 && j == 3), "S01 a session is refreshed by its own pair of tokens only")
	x1, x2 := error(nil), error(nil)
	if e == nil && i == 0 {
		x1 = sessionid.ErrTokenNotExists
	}
	if e == nil && i == 2 {
		x2 = sessionid.ErrTokenNotExists
	}
	sym.Assert(s1.Check(bg) == x1 && s2.Check(bg) == x2, "S01 a refused refresh changes nothing")
	if e == nil {
		x, e := g.Get(bg, na)
		sym.Assert(e == nil && x.Check(bg) == nil, "S01 a refreshed token is accepted")
		_, _, e = g.Refresh(bg, na, tok[j])
		sym.Assert(e != nil, "S01 a used refresh token is refused")
		_, _, e = g.Refresh(bg, na, nr)
		sym.Assert(e == nil, "S01 refreshed tokens refresh again")
	}
	sym.Reach("end")
	p.Close()
}

// S02: what a token is.
func S02() {
	t := sym.Str("t", sym.Bound("length", 6, 8))
	first, last, n := dots(t)
	id, sid, sig, e := sessionid.Split(t)
	sym.Assert((e == nil) == (n >= 2), "S02 a token has at least two dots")
	if n >= 2 {
		sym.Assert(id == t[:first] && sig == t[last+1:] && sid == t[first+1:last], "S02 a token splits at its first and last dot")
		sym.Assert(sessionid.Join(id, sid, sig) == t, "S02 joining the parts gives the token back")
		sym.Reach("token")
	} else {
		sym.Assert(errors.Is(e, sessionid.ErrTokenInvalid), "S02 anything else is an invalid token")
		sym.Reach("other")
	}
	s, e := sessionid.NewSession(t, nil, nil)
	sym.Assert((e == nil) == (n >= 2), "S02 a session is made over tokens only")
	if n >= 2 && s != nil {
		sym.Assert(s.ID() == t[:first] && s.Token() == t, "S02 a session names the user of its token")
	}
}

// S02Parts: joining parts.
func S02Parts() {
	id, sid, sig := sym.Str("id", 2), sym.Str("sid", 2), sym.Str("sig", 2)
	t := sessionid.Join(id, sid, sig)
	sym.Assert(t == id+"."+sid+"."+sig, "S02 join puts one dot between the parts")
	a, b, c, e := sessionid.Split(t)
	sym.Assert(e == nil, "S02 joined parts are a token")
	_, _, ni := dots(id)
	_, _, ns := dots(sig)
	if ni == 0 && ns == 0 {
		sym.Assert(a == id && b == sid && c == sig, "S02 parts without dots come back")
	}
	sym.Assert(sessionid.Join(id) == id && sessionid.Join() == "" && sessionid.Join(id, sig) == id+"."+sig, "S02 join puts one dot between the parts")
	sym.Reach("end")
}

// S02List: a check over several strings.
func S02List() {
	n := sym.Choice("n", 4)
	var ts []string
	bad := false
	for i := 0; i < n; i++ {
		t := sym.Str("t", 3)
		_, _, d := dots(t)
		bad = bad || d < 2
		ts = append(ts, t)
	}
	e := sessionid.IsToken(ts...)
	sym.Assert((e != nil) == bad, "S02 a check over several strings fails exactly if one is no token")
	if e != nil {
		sym.Assert(errors.Is(e, sessionid.ErrTokenInvalid), "S02 anything else is an invalid token")
	}
	sym.Reach("end")
}

// S02Store: every operation of a store refuses what is no token, and nothing
// changes.
func S02Store() { storeRefuses(memFix("S02", 0)) }

func storeRefuses(v *model.Env) {
	v.Create("u.0.s", "u.r.s", []sessionid.PairBytes{{Key: "k", Value: []byte("v")}})
	t := sym.Str("t", 3)
	_, _, n := dots(t)
	sym.Assume(n < 2)
	p, kv := v.P, []sessionid.PairBytes{{Key: "k", Value: []byte("w")}}
	var e error
	switch sym.Choice("op", 12) {
	case 0:
		e = p.Create(bg, t, "u.q.s", kv)
	case 1:
		e = p.Create(bg, "u.1.s", t, kv)
	case 2:
		e = p.Check(bg, t)
	case 3:
		e = p.Put(bg, t, kv)
	case 4:
		var vs []sessionid.Value
		vs, e = p.Get(bg, t, []string{"k"})
		sym.Assert(len(vs) == 0, "S02 a refused read gives nothing")
	case 5:
		var ks []string
		ks, e = p.Keys(bg, t)
		sym.Assert(len(ks) == 0, "S02 a refused listing gives nothing")
	case 6:
		e = p.Delete(bg, t, []string{"k"})
	case 7:
		e = p.DestroyByToken(bg, t)
	case 8:
		e = p.Refresh(bg, t, "u.r.s", "u.1.s", "u.q.s")
	case 9:
		e = p.Refresh(bg, "u.0.s", t, "u.1.s", "u.q.s")
	case 10:
		e = p.Refresh(bg, "u.0.s", "u.r.s", t, "u.q.s")
	case 11:
		e = p.Refresh(bg, "u.0.s", "u.r.s", "u.1.s", t)
	}
	sym.Assert(errors.Is(e, sessionid.ErrTokenInvalid), "S02 an operation refuses what is no token")
	v.All([]string{"u.0.s", "u.1.s"}, []string{"k"})
	v.Refresh("u.0.s", "u.r.s", "u.1.s", "u.q.s")
	v.All([]string{"u.0.s", "u.1.s"}, []string{"k"})
	v.Destroy("u")
	v.All([]string{"u.0.s", "u.1.s"}, []string{"k"})
	sym.Reach("end")
	p.Close()
}

// S03: the standalone codec.
func S03() {
	m, h := method(sym.Choice("method", sym.Bound("methods", 2, 5)))
	key := sym.Bytes("key", 2)
	id, sid := sym.Str("id", 3), sym.Str("sid", 2)
	t, e := cryptoer.Encode(m, key, id, sid)
	sym.Assert(e == nil, "S03 encoding succeeds")
	sym.Assert(t == id+"."+sid+"."+base64.RawURLEncoding.EncodeToString(refMAC(h, key, id+"."+sid)), "S03 a token is the ids and their MAC")
	i, s, e := cryptoer.Decode(m, key, t)
	sym.Assert(e == nil, "S03 decoding an encoded token succeeds")
	if _, _, n := dots(sid); n == 0 {
		sym.Assert(i == id && s == sid, "S03 decoding gives back what was encoded")
		sym.Reach("round")
	}
	key2 := sym.Bytes("key2", 2)
	m2, h2 := method(sym.Choice("method2", sym.Bound("methods", 2, 5)))
	_, _, e = cryptoer.Decode(m2, key2, t)
	sym.Assert(e != nil || genuine(h2, key2, t), "S03 a token decodes under its own key and method only")
	sym.Reach("end")
}

// S03Forge: decoding succeeds for genuine tokens only.
func S03Forge() {
	m, h := method(sym.Choice("method", sym.Bound("methods", 3, 5)))
	key := sym.Bytes("key", 1)
	t := forged("t", h, key)
	id, sid, e := cryptoer.Decode(m, key, t)
	ok := genuine(h, key, t)
	sym.Observe("decode", ok, e)
	sym.Assert(e != nil || ok, "S03 decoding succeeds for genuine tokens only")
	sym.Assert(e == nil || !canonical(h, key, t), "S03 decoding succeeds for every encoded token")
	if e == nil {
		_, last, _ := dots(t)
		sym.Assert(id+"."+sid == t[:last], "S03 decoding splits the signed text")
		_, _, n := dots(sid)
		sym.Assert(n == 0, "S03 a decoded session id holds no dot")
		sym.Reach("accepted")
	}
	sym.Reach("end")
}

// S04: destroying by user id through a manager.
func S04() {
	p := sessionid.NewProvider(sessionid.WithProviderClear(0), sessionid.WithProviderAccess(time.Hour))
	g := sessionid.NewManager(sessionid.WithProvider(p), sessionid.WithKey([]byte("k")))
	ids := []string{sym.Str("id1", 2), sym.Str("id2", 2)}
	type sess struct {
		id, a, r string
		live     bool
	}
	var all []*sess
	create := func(id string) {
		s, r, e := g.Create(bg, id)
		sym.Assert(e == nil, "S04 create")
		all = append(all, &sess{id, s.Token(), r, true})
	}
	check := func() {
		for _, x := range all {
			s, e := g.Get(bg, x.a)
			sym.Assert(e == nil, "S04 an issued token is genuine")
			if x.live {
				sym.Assert(s.Check(bg) == nil, "S04 other users' tokens stay usable")
			} else {
				sym.Assert(s.Check(bg) == sessionid.ErrTokenNotExists, "S04 a destroyed user's tokens are not usable")
			}
		}
	}
	create(ids[0])
	create(ids[1])
	n := sym.Bound("operations", 2, 3)
	for i := 0; i < n; i++ {
		switch sym.Choice("op", 4) {
		case 0:
			create(ids[sym.Choice("who", 2)])
		case 1:
			x := all[sym.Choice("tok", len(all))]
			na, nr, e := g.Refresh(bg, x.a, x.r)
			sym.Assert((e == nil) == x.live, "S04 usable tokens refresh, others do not")
			if e == nil {
				x.live = false
				all = append(all, &sess{x.id, na, nr, true})
			}
		case 2:
			id := ""
			if k := sym.Choice("whom", 3); k < 2 {
				id = ids[k]
			} else {
				id = sym.Str("whom", 2)
			}
			sym.Assert(g.Destroy(bg, id) == nil, "S04 destroying a user succeeds")
			for _, x := range all {
				if x.id == id {
					x.live = false
				}
			}
		case 3:
			x := all[sym.Choice("tok", len(all))]
			sym.Assert(g.DestroyByToken(bg, x.a) == nil, "S04 destroying a token succeeds")
			x.live = false
		}
	}
	check()
	for _, x := range all {
		if !x.live {
			_, _, e := g.Refresh(bg, x.a, x.r)
			sym.Assert(e != nil, "S04 a destroyed user's tokens do not refresh")
		}
	}
	check()
	sym.Reach("end")
	p.Close()
}

// S06: what is given at creation is in the session, or there is no session.
func S06() {
	c := sym.Choice("coder", 3)
	coder := coderX(c)
	p := sessionid.NewProvider(sessionid.WithProviderClear(0), sessionid.WithProviderAccess(time.Hour))
	w := &watchS06{Provider: p}
	g := sessionid.NewManager(sessionid.WithProvider(w), sessionid.WithKey([]byte("k")), sessionid.WithCoder(coder))
	var pairs []sessionid.Pair
	want := map[string]string{}
	bad := false
	n := sym.Choice("n", 4)
	for i := 0; i < n; i++ {
		k := sym.Str("k", 1)
		v := string(sym.Bytes("v", 1))
		if sym.Bool("bad") {
			bad = true
			pairs = append(pairs, sessionid.Pair{Key: k, Value: make(chan int)})
		} else {
			pairs = append(pairs, sessionid.Pair{Key: k, Value: v})
			want[k] = v
		}
	}
	s, r, e := g.Create(bg, "u", pairs...)
	sym.Assert((e != nil) == bad, "S06 creation fails exactly if a value does not encode")
	if e != nil {
		sym.Assert(s == nil, "S06 a failed creation yields no session")
		for _, t := range w.tokens {
			sym.Assert(p.Check(bg, t) == sessionid.ErrTokenNotExists, "S06 a creation with a value that does not encode creates nothing")
		}
		sym.Reach("failed")
		p.Close()
		return
	}
	look := func(s *sessionid.Session) {
		ks, e := s.Keys(bg)
		sym.Assert(e == nil && len(ks) == len(want), "S06 a session holds exactly the given keys")
		for k, v := range want {
			var x string
			sym.Assert(s.Get(bg, k, &x) == nil && x == v, "S06 a session holds the given values")
		}
	}
	look(s)
	t, e := g.Get(bg, s.Token())
	sym.Assert(e == nil, "S06 the session is found by its token")
	look(t)
	na, _, e := g.Refresh(bg, s.Token(), r)
	sym.Assert(e == nil, "S06 the session refreshes")
	t, e = g.Get(bg, na)
	sym.Assert(e == nil, "S06 the session is found by its new token")
	look(t)
	sym.Reach("created")
	p.Close()
}

// watchS06 records the access tokens of the sessions asked for.
type watchS06 struct {
	sessionid.Provider
	tokens []string
}

func (w *watchS06) Create(ctx context.Context, access, refresh string, pair []sessionid.PairBytes) error {
	w.tokens = append(w.tokens, access)
	return w.Provider.Create(ctx, access, refresh, pair)
}

// S06Store: the store's refusal is the creation's.
// stubborn signs with another method until it is told to fail.
type stubborn struct {
	cryptoer.SigningMethod
	n, at, to int
}

var errSign = errors.New("cannot sign")

func (m *stubborn) Sign(s string, key interface{}) (string, error) {
	m.n++
	if m.n > m.at && m.n <= m.to {
		return "", errSign
	}
	return m.SigningMethod.Sign(s, key)
}

// S06Sign: a token that cannot be signed ends a creation or a refresh before the store is asked.
func S06Sign() {
	m := &stubborn{SigningMethod: cryptoer.SigningMethodHS256}
	p := &recorder{}
	g := sessionid.NewManager(sessionid.WithProvider(p), sessionid.WithMethod(m), sessionid.WithKey(sym.Bytes("key", 1)), sessionid.WithCoder(rawCoder{}))
	id := sym.Str("id", 1)
	refresh := sym.Bool("refresh")
	var access, ref string
	if refresh {
		s, r, e := g.Create(bg, id)
		sym.Assert(e == nil, "S06 creation succeeds")
		access, ref = s.Token(), r
	}
	calls := p.calls
	m.n, m.at = 0, sym.Choice("at", 3)
	m.to = m.at + 1 + sym.Choice("times", 2)
	var e error
	if refresh {
		_, _, e = g.Refresh(bg, access, ref)
	} else {
		var s *sessionid.Session
		s, _, e = g.Create(bg, id, sessionid.Pair{Key: "a", Value: "v"})
		sym.Assert((s == nil) == (e != nil), "S06 a failed creation yields no session")
	}
	if m.n > m.at {
		sym.Assert(e == errSign && p.calls == calls, "S06 tokens that cannot be signed reach no store")
		sym.Reach("failed")
	} else {
		sym.Assert(e == nil && p.calls == calls+1, "S06 tokens that were signed reach the store once")
		sym.Reach("signed")
	}
}

func S06Store() {
	p := &recorder{fail: sym.Bool("refused")}
	g := sessionid.NewManager(sessionid.WithProvider(p), sessionid.WithKey([]byte("k")), sessionid.WithCoder(rawCoder{}))
	v := sym.Bytes("v", 1)
	s, r, e := g.Create(bg, "u", sessionid.Pair{Key: "a", Value: v}, sessionid.Pair{Key: "b", Value: "w"})
	sym.Assert((e != nil) == p.fail && (s == nil) == p.fail && p.calls == 1, "S06 creation fails exactly if the store refuses")
	sym.Assert(len(p.pairs) == 2 && p.pairs[0].Key == "a" && string(p.pairs[0].Value) == string(v) && p.pairs[1].Key == "b" && string(p.pairs[1].Value) == "w", "S06 the store gets the encoded pairs in order")
	if e == nil {
		sym.Assert(s.Token() == p.access && r == p.refresh && s.ID() == "dQ", "S06 the caller gets the tokens stored")
	}
	sym.Reach("end")
}

// S07: session ids.
func S07() {
	m, h := method(sym.Choice("method", sym.Bound("methods", 2, 5)))
	key := sym.Bytes("key", 1)
	n := 2 + sym.Choice("n", 2)
	var sids, toks []string
	for i := 0; i < n; i++ {
		sid, e := cryptoer.SessionID()
		sym.Assert(e == nil, "S07 making a session id succeeds")
		_, _, d := dots(sid)
		sym.Assert(d == 0 && sid != "", "S07 a session id holds no dot")
		for _, x := range sids {
			sym.Assert(x != sid, "S07 session ids are unique")
		}
		sids = append(sids, sid)
	}
	id := sym.Str("id", 3)
	for _, sid := range sids {
		t, e := cryptoer.Encode(m, key, id, sid)
		sym.Assert(e == nil && genuine(h, key, t), "S07 a token over a session id is made")
		i, s, e := cryptoer.Decode(m, key, t)
		sym.Assert(e == nil && i == id && s == sid, "S07 a token over a session id decodes to it")
		for _, x := range toks {
			sym.Assert(x != t, "S07 tokens of one user differ")
		}
		toks = append(toks, t)
	}
	sym.Reach("end")
}

// S07Create: the tokens made for one user.
func S07Create() {
	m, h := method(sym.Choice("method", sym.Bound("methods", 2, 5)))
	key := sym.Bytes("key", 1)
	id := sym.Str("id", 2)
	_, _, d := dots(id)
	var toks []string
	for i := 0; i < 2; i++ {
		a, r, e := sessionid.CreateToken(m, key, id)
		sym.Assert(e == nil, "S07 making tokens succeeds")
		for _, t := range []string{a, r} {
			sym.Assert(genuine(h, key, t), "S07 tokens made are genuine")
			i, sid, sig, e := sessionid.Split(t)
			sym.Assert(e == nil && sessionid.IsToken(t) == nil, "S07 tokens made are tokens")
			if d == 0 {
				_, _, x := dots(sid)
				sym.Assert(i == id && x == 0 && sid != "" && sig != "", "S07 tokens made split into their parts")
			}
			for _, x := range toks {
				sym.Assert(x != t, "S07 tokens made differ")
			}
			toks = append(toks, t)
		}
	}
	sym.Reach("end")
}
