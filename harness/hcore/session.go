package hcore

import (
	"context"
	"errors"
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"verif/harness/model"
	"verif/harness/sym"
)

var (
	errStore = errors.New("store failed")
	errCodec = errors.New("codec failed")
)

// flaky is a store whose calls may fail before they take effect; it remembers
// what it last handed to the session object.
type flaky struct {
	sessionid.Provider
	left   int // faults still allowed
	failed bool
	seen   map[string]sessionid.Value
	short  bool
}

func (f *flaky) fault() bool {
	if f.left > 0 && sym.Bool("fault") {
		f.left--
		f.failed = true
		return true
	}
	return false
}

func (f *flaky) Put(ctx context.Context, token string, pair []sessionid.PairBytes) error {
	if f.fault() {
		return errStore
	}
	return f.Provider.Put(ctx, token, pair)
}

func (f *flaky) Get(ctx context.Context, token string, keys []string) ([]sessionid.Value, error) {
	if f.fault() {
		if f.short && sym.Bool("short") {
			return nil, nil
		}
		return nil, errStore
	}
	vals, e := f.Provider.Get(ctx, token, keys)
	if e == nil {
		for i, k := range keys {
			f.seen[k] = sessionid.Value{Exists: vals[i].Exists, Bytes: append([]byte(nil), vals[i].Bytes...)}
		}
	}
	return vals, e
}

func (f *flaky) Delete(ctx context.Context, token string, keys []string) error {
	if f.fault() {
		return errStore
	}
	return f.Provider.Delete(ctx, token, keys)
}

func (f *flaky) Keys(ctx context.Context, token string) ([]string, error) {
	if f.fault() {
		return nil, errStore
	}
	return f.Provider.Keys(ctx, token)
}

// byteCoder stores one byte strings.
type byteCoder struct{ f *flaky }

func (c byteCoder) Encode(v interface{}) ([]byte, error) {
	s, ok := v.(string)
	if !ok || c.f.fault() {
		c.f.failed = true
		return nil, errCodec
	}
	return []byte(s), nil
}

func (c byteCoder) Decode(b []byte, p interface{}) error {
	if c.f.fault() {
		return errCodec
	}
	*p.(*string) = string(b)
	return nil
}

// X01: what a session object shows is what the store holds or held at the
// object's own last access.
func X01() {
	tok, other := "u.0.s", "u.1.s"
	p := sessionid.NewProvider(sessionid.WithProviderClear(0), sessionid.WithProviderAccess(time.Hour))
	f := &flaky{Provider: p, left: 1, seen: map[string]sessionid.Value{}, short: true}
	s, e := sessionid.NewSession(tok, f, byteCoder{f})
	sym.Assert(e == nil && s.ID() == "u" && s.Token() == tok, "X01 a session over a valid token")
	keys := []string{"a", "b"}
	store := map[string]string{}
	var init []sessionid.PairBytes
	if sym.Bool("init") {
		v := sym.Bytes("v", 1)
		init = append(init, sessionid.PairBytes{Key: "a", Value: v})
		store["a"] = string(v)
	}
	p.Create(bg, tok, "u.r.s", init)
	p.Create(bg, other, "u.q.s", nil)
	n := sym.Bound("operations", 3, 4)
	for i := 0; i < n; i++ {
		f.failed = false
		switch sym.Choice("op", 8) {
		case 0: // write one key
			k, v := keys[sym.Choice("k", 2)], string(sym.Bytes("v", 1))
			e = s.Put(bg, sessionid.Pair{Key: k, Value: v})
			sym.Assert((e != nil) == f.failed, "X01 a failed write is reported, another is not")
			if e == nil {
				store[k] = v
				f.seen[k] = sessionid.Value{Exists: true, Bytes: []byte(v)}
			}
		case 1: // write two
			k1, k2 := keys[sym.Choice("k", 2)], keys[sym.Choice("k", 2)]
			v1, v2 := string(sym.Bytes("v", 1)), string(sym.Bytes("v", 1))
			e = s.Put(bg, sessionid.Pair{Key: k1, Value: v1}, sessionid.Pair{Key: k2, Value: v2})
			sym.Assert((e != nil) == f.failed, "X01 a failed write is reported, another is not")
			if e == nil {
				store[k1] = v1
				store[k2] = v2
				f.seen[k1] = sessionid.Value{Exists: true, Bytes: []byte(v1)}
				f.seen[k2] = sessionid.Value{Exists: true, Bytes: []byte(v2)}
			}
		case 2: // a value that does not encode, after one that does
			k := keys[sym.Choice("k", 2)]
			e = s.Put(bg, sessionid.Pair{Key: k, Value: "zz"}, sessionid.Pair{Key: "b", Value: 3})
			sym.Assert(e != nil, "X01 an encoding failure is reported")
		case 3:
			set := [][]string{{"a"}, {"a", "b"}, {"b", "b"}}[sym.Choice("set", 3)]
			e = s.Prepare(bg, set...)
			sym.Assert((e != nil) == f.failed, "X01 a failed prepare is reported, another is not")
		case 4:
			readX01(s, f, keys[sym.Choice("k", 2)], store)
		case 5: // delete
			set := [][]string{{"a"}, {"b"}, {"a", "b"}}[sym.Choice("set", 3)]
			e = s.Delete(bg, tok, set...)
			sym.Assert((e != nil) == f.failed, "X01 a failed delete is reported, another is not")
			if e == nil {
				for _, k := range set {
					delete(store, k)
					f.seen[k] = sessionid.Value{}
				}
			}
		case 6: // delete of another session's keys
			e = s.Delete(bg, other, "a", "b")
			sym.Assert((e != nil) == f.failed, "X01 a failed delete is reported, another is not")
		case 7: // somebody else writes
			k := keys[sym.Choice("k", 2)]
			if sym.Bool("del") {
				p.Delete(bg, tok, []string{k})
				delete(store, k)
			} else {
				v := sym.Bytes("v", 1)
				p.Put(bg, tok, []sessionid.PairBytes{{Key: k, Value: v}})
				store[k] = string(v)
			}
		}
	}
	f.left, f.short = 0, false
	if sym.Bool("keysfail") {
		f.left = 1
	}
	f.failed = false
	ks, e := s.Keys(bg)
	sym.Assert((e != nil) == f.failed, "X01 a failed listing is reported, another is not")
	if e == nil {
		sym.Sort(ks)
		sym.Assert(len(ks) == len(store), "X01 keys lists what the store holds")
		for _, k := range ks {
			_, ok := store[k]
			sym.Assert(ok, "X01 keys lists what the store holds")
		}
	}
	f.left = 0
	for _, k := range keys {
		readX01(s, f, k, store)
	}
	sym.Reach("end")
	p.Close()
}

// X01Prepare: every prepared key reads as the store holds it, neighbours,
// repetitions, empty values and missing keys included.
func X01Prepare() {
	tok := "u.0.s"
	p := sessionid.NewProvider(sessionid.WithProviderClear(0), sessionid.WithProviderAccess(time.Hour))
	f := &flaky{Provider: p, seen: map[string]sessionid.Value{}}
	s, _ := sessionid.NewSession(tok, f, byteCoder{f})
	keys := []string{"a", "b", "c"}
	store := map[string]string{}
	var init []sessionid.PairBytes
	for _, k := range keys {
		if sym.Bool("held") {
			v := sym.Bytes("v", sym.Choice("len", 3))
			if len(v) == 0 && sym.Bool("nil") {
				v = nil
			}
			init = append(init, sessionid.PairBytes{Key: k, Value: v})
			store[k] = string(v)
		}
	}
	p.Create(bg, tok, "u.r.s", init)
	if sym.Bool("read") {
		readX01(s, f, keys[sym.Choice("k", 3)], store)
	}
	n := 1 + sym.Choice("n", 3)
	var set []string
	for i := 0; i < n; i++ {
		set = append(set, keys[sym.Choice("k", 3)])
	}
	sym.Assert(s.Prepare(bg, set...) == nil, "X01 a prepare with nothing failing succeeds")
	for _, k := range keys {
		readX01(s, f, k, store)
	}
	sym.Reach("end")
	p.Close()
}

func readX01(s *sessionid.Session, f *flaky, k string, store map[string]string) {
	f.failed = false
	var before sessionid.Value
	b, known := f.seen[k]
	before = b
	got := "untouched"
	e := s.Get(bg, k, &got)
	sym.Observe("get", k, got, e)
	if f.failed {
		sym.Assert(e != nil && e != sessionid.ErrKeyNotExists, "X01 a failed read is reported")
		return
	}
	now, has := store[k]
	if e == sessionid.ErrKeyNotExists {
		sym.Assert(!has || (known && !before.Exists), "X01 a key reported missing is missing")
		return
	}
	sym.Assert(e == nil, "X01 a read with nothing failing succeeds")
	if e == nil {
		ok := has && got == now
		if known && before.Exists {
			ok = ok || got == string(before.Bytes)
		}
		sym.Assert(ok, "X01 a value read is the one the store holds or held")
	}
}

// X01Gone: the store's own errors come through, for every operation.
func X01Gone() {
	tok := "u.0.s"
	p := sessionid.NewProvider(sessionid.WithProviderClear(0), sessionid.WithProviderAccess(time.Hour), sessionid.WithProviderRefresh(2*time.Hour))
	f := &flaky{Provider: p, seen: map[string]sessionid.Value{}}
	s, _ := sessionid.NewSession(tok, f, byteCoder{f})
	p.Create(bg, tok, "u.r.s", []sessionid.PairBytes{{Key: "a", Value: []byte("1")}})
	if sym.Bool("read") {
		var x string
		sym.Assert(s.Get(bg, "b", &x) == sessionid.ErrKeyNotExists, "X01 missing key")
	}
	var want error
	switch sym.Choice("gone", 4) {
	case 0:
		sym.Assert(s.Destroy(bg) == nil, "X01 destroying a session")
		want = sessionid.ErrTokenNotExists
	case 1:
		sym.Advance(time.Hour)
		want = sessionid.ErrTokenExpired
	case 2:
		sym.Advance(2 * time.Hour)
		want = sessionid.ErrTokenNotExists
	case 3:
		p.Close()
		want = sessionid.ErrProviderClosed
	}
	var x string
	for i := 0; i < 2; i++ {
		sym.Assert(s.Get(bg, "a", &x) == want, "X01 the store's error is returned by get")
		sym.Assert(s.Check(bg) == want, "X01 the store's error is returned by check")
		sym.Assert(s.Prepare(bg, "a", "c") == want, "X01 the store's error is returned by prepare")
		sym.Assert(s.Put(bg, sessionid.Pair{Key: "a", Value: "2"}) == want, "X01 the store's error is returned by put")
		_, e := s.Keys(bg)
		sym.Assert(e == want, "X01 the store's error is returned by keys")
		e = s.Delete(bg, tok, "a")
		sym.Assert(e == want, "X01 the store's error is returned by delete")
	}
	sym.Reach("end")
	p.Close()
}

// ---- X02

type (
	nameT  string
	bytesT []byte
	sA     struct {
		A string
		B []byte
	}
	sB struct {
		A string
		C []byte
	}
	mapT map[string]string
)

// rawCoder keeps byte slices as they are, in both directions.
type rawCoder struct{}

func (rawCoder) Encode(v interface{}) ([]byte, error) {
	switch x := v.(type) {
	case []byte:
		return x, nil
	case bytesT:
		return x, nil
	case string:
		return []byte(x), nil
	}
	return nil, errCodec
}

func (rawCoder) Decode(b []byte, p interface{}) error {
	switch x := p.(type) {
	case *[]byte:
		*x = b
	case *bytesT:
		*x = b
	case *string:
		*x = string(b)
	case *nameT:
		*x = nameT(b)
	case *interface{}:
		*x = b
	default:
		return errCodec
	}
	return nil
}

func coderX(k int) sessionid.Coder {
	switch k {
	case 0:
		return sessionid.GOBCoder{}
	case 1:
		return sessionid.JSONCoder{}
	}
	return rawCoder{}
}

// target makes an empty or prefilled destination.
func target(k int, pre bool) interface{} {
	switch k {
	case 0:
		x := ""
		if pre {
			x = "pre"
		}
		return &x
	case 1:
		x := nameT("")
		if pre {
			x = "pre"
		}
		return &x
	case 2:
		var x []byte
		if pre {
			x = []byte{1, 2, 3, 4}[:1]
		}
		return &x
	case 3:
		var x bytesT
		if pre {
			x = bytesT{1, 2, 3}
		}
		return &x
	case 4:
		var x sA
		if pre {
			x = sA{"pre", []byte{9, 8, 7, 6}}
		}
		return &x
	case 5:
		var x sB
		if pre {
			x = sB{"pre", []byte{9}}
		}
		return &x
	case 6:
		var x map[string]string
		if pre {
			x = map[string]string{"p": "pre"}
		}
		return &x
	case 7:
		var x mapT
		return &x
	case 8:
		var x map[string]int
		return &x
	case 9:
		var x int
		if pre {
			x = 77
		}
		return &x
	case 10:
		var x int64
		return &x
	}
	var x interface{}
	if pre {
		x = "pre"
	}
	return &x
}

func same(a, b interface{}) bool {
	switch x := a.(type) {
	case *string:
		return *x == *b.(*string)
	case *nameT:
		return *x == *b.(*nameT)
	case *[]byte:
		y := b.(*[]byte)
		return string(*x) == string(*y)
	case *bytesT:
		y := b.(*bytesT)
		return string(*x) == string(*y)
	case *sA:
		y := b.(*sA)
		return x.A == y.A && string(x.B) == string(y.B)
	case *sB:
		y := b.(*sB)
		return x.A == y.A && string(x.C) == string(y.C)
	case *map[string]string:
		return sameMap(*x, *b.(*map[string]string))
	case *mapT:
		return sameMap(*x, *b.(*mapT))
	case *map[string]int:
		y := *b.(*map[string]int)
		if len(*x) != len(y) {
			return false
		}
		for k, v := range *x {
			if w, ok := y[k]; !ok || v != w {
				return false
			}
		}
		return true
	case *int:
		return *x == *b.(*int)
	case *int64:
		return *x == *b.(*int64)
	case *interface{}:
		y := b.(*interface{})
		switch v := (*x).(type) {
		case nil:
			return *y == nil
		case string:
			w, ok := (*y).(string)
			return ok && v == w
		case []byte:
			w, ok := (*y).([]byte)
			return ok && string(v) == string(w)
		}
		return *y != nil
	}
	return false
}

func sameMap(x, y map[string]string) bool {
	if len(x) != len(y) {
		return false
	}
	for k, v := range x {
		if w, ok := y[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// spoil changes everything reachable from a destination.
func spoil(a interface{}) {
	switch x := a.(type) {
	case *[]byte:
		scramble(*x)
	case *bytesT:
		scramble(*x)
	case *sA:
		scramble(x.B)
	case *sB:
		scramble(x.C)
	case *map[string]string:
		if *x != nil {
			(*x)["k"], (*x)["spoilt"] = "spoilt", "1"
		}
	case *mapT:
		if *x != nil {
			(*x)["k"], (*x)["spoilt"] = "spoilt", "1"
		}
	case *map[string]int:
		if *x != nil {
			(*x)["k"], (*x)["spoilt"] = 0, 1
		}
	case *interface{}:
		if b, ok := (*x).([]byte); ok {
			scramble(b)
		}
	}
}

const kindsX = 12

// X02: reads decode the stored bytes, whatever was read before, into memory of
// the reader's own.
func X02() {
	tok := "u.0.s"
	c := sym.Choice("coder", 3)
	coder := coderX(c)
	p := sessionid.NewProvider(sessionid.WithProviderClear(0), sessionid.WithProviderAccess(time.Hour))
	s, _ := sessionid.NewSession(tok, p, coder)
	var put, keep interface{}
	switch sym.Choice("stored", 5) {
	case 0:
		put = string(sym.Bytes("v", 1))
	case 1:
		put = sym.Bytes("v", 2)
	case 2:
		put = sA{string(sym.Bytes("v", 1)), sym.Bytes("w", 1)}
	case 3:
		put = map[string]string{"k": string(sym.Bytes("v", 1))}
	case 4:
		put = int(sym.Int("v", 0, 1000))
	}
	want, e := coder.Encode(put)
	want = append([]byte(nil), want...)
	if e != nil {
		e = s.Put(bg, sessionid.Pair{Key: "x", Value: put})
		sym.Assert(e != nil, "X02 a value that does not encode is refused")
		sym.Reach("refused")
		return
	}
	keep = put
	switch sym.Choice("via", 3) {
	case 0: // created by someone else
		p.Create(bg, tok, "u.r.s", []sessionid.PairBytes{{Key: "x", Value: want}})
	case 1: // prepared
		p.Create(bg, tok, "u.r.s", []sessionid.PairBytes{{Key: "x", Value: want}})
		s.Prepare(bg, "x")
	case 2: // written through the object, then changed by the caller
		p.Create(bg, tok, "u.r.s", nil)
		e = s.Put(bg, sessionid.Pair{Key: "x", Value: put})
		sym.Assert(e == nil, "X02 put")
		switch x := keep.(type) {
		case []byte:
			scramble(x)
		case sA:
			scramble(x.B)
		case map[string]string:
			x["k"] = "spoilt"
		}
	}
	n := sym.Bound("reads", 2, 3)
	for i := 0; i < n; i++ {
		k := sym.Choice("type", kindsX)
		pre := sym.Bool("prefilled")
		got, ref := target(k, pre), target(k, pre)
		e := s.Get(bg, "x", got)
		re := coder.Decode(append([]byte(nil), want...), ref)
		sym.Assert((e == nil) == (re == nil), "X02 a read succeeds exactly if decoding the stored bytes does")
		if e == nil {
			sym.Assert(same(got, ref), "X02 a read fills the target as decoding the stored bytes would")
		}
		spoil(got)
	}
	sym.Reach("end")
	p.Close()
}

// X02Bad: destinations that cannot be filled.
func X02Bad() {
	tok := "u.0.s"
	coder := coderX(sym.Choice("coder", 3))
	p := sessionid.NewProvider(sessionid.WithProviderClear(0), sessionid.WithProviderAccess(time.Hour))
	s, _ := sessionid.NewSession(tok, p, coder)
	b, _ := coder.Encode("v")
	p.Create(bg, tok, "u.r.s", []sessionid.PairBytes{{Key: "x", Value: b}})
	n := 2
	for i := 0; i < n; i++ {
		k := []string{"x", "missing"}[sym.Choice("k", 2)]
		var e error
		switch sym.Choice("bad", 7) {
		case 0:
			e = s.Get(bg, k, "text")
			sym.Assert(e != nil, "X02 a value is not a destination")
		case 1:
			e = s.Get(bg, k, nil)
			sym.Assert(e != nil, "X02 nil is not a destination")
		case 2:
			var x *string
			e = s.Get(bg, k, &x)
			sym.Assert(e != nil && x == nil, "X02 a pointer to a pointer is not a destination")
		case 3:
			y := "y"
			x := &y
			e = s.Get(bg, k, &x)
			sym.Assert(e != nil && y == "y", "X02 a pointer to a pointer is not a destination")
		case 4:
			e = s.Get(bg, k, 5)
			sym.Assert(e != nil, "X02 a value is not a destination")
		case 5:
			e = s.Get(bg, k, map[string]string{})
			sym.Assert(e != nil, "X02 a map is not a destination")
		case 6:
			x := "old"
			e = s.Get(bg, k, &x)
			if k == "x" {
				sym.Assert(e == nil && x == "v", "X02 a proper destination is filled")
			} else {
				sym.Assert(e == sessionid.ErrKeyNotExists && x == "old", "X02 a missing key leaves the destination alone")
			}
		}
	}
	sym.Reach("end")
	p.Close()
}

// ---- X03

type ctxX struct {
	context.Context
	mark string
}

func (c ctxX) Value(k interface{}) interface{} {
	if k == "mark" {
		return c.mark
	}
	return c.Context.Value(k)
}

// desk is a store that writes down what it is asked and answers as decided.
type desk struct {
	fail    bool
	keep    map[string]string
	checks  []string // tokens
	ends    []string
	listed  []string
	puts    []string
	written map[string]string
	gets    []string
	asked   map[string]bool
	dels    []string
	gone    map[string]bool
	strange int // calls a session object never makes
	foreign int // calls with another context
}

func (d *desk) saw(ctx context.Context) error {
	if ctx == nil || ctx.Value("mark") != "x" {
		d.foreign++
	}
	if d.fail {
		return errStore
	}
	return nil
}

func (d *desk) total() int {
	return len(d.checks) + len(d.ends) + len(d.listed) + len(d.puts) + len(d.gets) + len(d.dels) + d.strange
}

func (d *desk) Create(ctx context.Context, access, refresh string, pair []sessionid.PairBytes) error {
	d.strange++
	return d.saw(ctx)
}

func (d *desk) Destroy(ctx context.Context, id string) error {
	d.strange++
	return d.saw(ctx)
}

func (d *desk) Refresh(ctx context.Context, access, refresh, newAccess, newRefresh string) error {
	d.strange++
	return d.saw(ctx)
}

func (d *desk) Close() error {
	d.strange++
	return nil
}

func (d *desk) DestroyByToken(ctx context.Context, token string) error {
	d.ends = append(d.ends, token)
	return d.saw(ctx)
}

func (d *desk) Check(ctx context.Context, token string) error {
	d.checks = append(d.checks, token)
	return d.saw(ctx)
}

func (d *desk) Put(ctx context.Context, token string, pair []sessionid.PairBytes) error {
	d.puts = append(d.puts, token)
	for _, kv := range pair {
		d.written[kv.Key] = string(kv.Value)
	}
	return d.saw(ctx)
}

func (d *desk) Get(ctx context.Context, token string, key []string) ([]sessionid.Value, error) {
	d.gets = append(d.gets, token)
	vs := make([]sessionid.Value, len(key))
	for i, k := range key {
		d.asked[k] = true
		if v, ok := d.keep[k]; ok {
			vs[i] = sessionid.Value{Exists: true, Bytes: []byte(v)}
		}
	}
	if e := d.saw(ctx); e != nil {
		return nil, e
	}
	return vs, nil
}

func (d *desk) Keys(ctx context.Context, token string) ([]string, error) {
	d.listed = append(d.listed, token)
	if e := d.saw(ctx); e != nil {
		return nil, e
	}
	var ks []string
	for _, k := range []string{"a", "b"} {
		if _, ok := d.keep[k]; ok {
			ks = append(ks, k)
		}
	}
	return ks, nil
}

func (d *desk) Delete(ctx context.Context, token string, key []string) error {
	d.dels = append(d.dels, token)
	for _, k := range key {
		d.gone[k] = true
	}
	return d.saw(ctx)
}

func only(ts []string, t string) bool {
	for _, x := range ts {
		if x != t {
			return false
		}
	}
	return len(ts) > 0
}

// X03: what a session object asks its store, operation by operation.
func X03() {
	tok := sym.Str("id", 1) + "." + sym.Str("sid", 1) + "." + sym.Str("sig", 1)
	if sym.Bool("any") { // or any string
		tok = sym.Str("tok", 3)
	}
	first, _, n := dots(tok)
	d := &desk{fail: sym.Bool("fails"), written: map[string]string{}, asked: map[string]bool{}, gone: map[string]bool{}, keep: map[string]string{}}
	for _, k := range []string{"a", "b"} {
		if sym.Bool("held") {
			d.keep[k] = string(sym.Bytes("v", 1))
		}
	}
	s, e := sessionid.NewSession(tok, d, oneCoder{0})
	sym.Assert((e == nil) == (n >= 2) && (s != nil) == (n >= 2), "X03 a session is made over tokens only")
	sym.Assert(d.total() == 0, "X03 making a session object asks nothing of the store")
	if s == nil {
		sym.Assert(errors.Is(e, sessionid.ErrTokenInvalid), "X03 anything else is an invalid token")
		sym.Reach("none")
		return
	}
	sym.Assert(s.ID() == tok[:first] && s.Token() == tok, "X03 a session names its token and user")
	ctx := ctxX{bg, "x"}
	var mine []string
	nothing := false // the operation asks nothing of the store
	switch op := sym.Choice("op", 9); op {
	case 0:
		e = s.Check(ctx)
		mine = d.checks
		sym.Assert(only(d.checks, tok), "X03 checking asks the store about the session's own token")
	case 1:
		e = s.Destroy(ctx)
		mine = d.ends
		sym.Assert(only(d.ends, tok), "X03 destroying ends the session's own token")
	case 2:
		var ks []string
		ks, e = s.Keys(ctx)
		mine = d.listed
		sym.Assert(only(d.listed, tok), "X03 listing asks about the session's own token")
		if e == nil {
			sym.Sort(ks)
			ok := len(ks) == len(d.keep)
			for i, k := range ks {
				_, has := d.keep[k]
				ok = ok && has && (i == 0 || ks[i-1] != k)
			}
			sym.Assert(ok, "X03 listing returns the store's keys")
		}
	case 3: // pairs, keys repeated too
		n := sym.Choice("pairs", 4)
		var ps []sessionid.Pair
		want := map[string]string{}
		for i := 0; i < n; i++ {
			k, v := sym.Str("k", 1), string(sym.Bytes("w", 1))
			ps = append(ps, sessionid.Pair{Key: k, Value: v})
			want[k] = "\x00" + v
		}
		e = s.Put(ctx, ps...)
		mine, nothing = d.puts, n == 0
		if n > 0 {
			sym.Assert(only(d.puts, tok), "X03 writing changes the session's own token")
		}
		if !d.fail {
			ok := len(want) == len(d.written)
			for k, v := range want {
				w, has := d.written[k]
				ok = ok && has && v == w
			}
			sym.Assert(ok, "X03 writing stores exactly the pairs given, encoded, later ones last")
		}
	case 4:
		n := sym.Choice("keys", 3)
		var ks []string
		for i := 0; i < n; i++ {
			ks = append(ks, sym.Str("k", 1))
		}
		e = s.Prepare(ctx, ks...)
		mine, nothing = d.gets, n == 0
		if n > 0 {
			sym.Assert(only(d.gets, tok), "X03 preparing reads the session's own token")
		}
		given := map[string]bool{}
		for _, k := range ks {
			given[k] = true
			if !d.fail {
				sym.Assert(d.asked[k], "X03 preparing reads every key given")
			}
		}
		for k := range d.asked {
			sym.Assert(given[k], "X03 preparing reads the keys given only")
		}
	case 5:
		k := []string{"a", "b", "c", ""}[sym.Choice("k", 4)]
		x := "old"
		e = s.Get(ctx, k, &x)
		mine = d.gets
		sym.Assert(only(d.gets, tok) && d.asked[k], "X03 reading reads the key of the session's own token")
		if !d.fail {
			v, has := d.keep[k]
			switch {
			case !has:
				sym.Assert(errors.Is(e, sessionid.ErrKeyNotExists) && x == "old", "X03 a missing key is reported")
			case v[0] != 0:
				sym.Assert(e != nil && !errors.Is(e, sessionid.ErrKeyNotExists), "X03 a value that does not decode is reported")
			default:
				sym.Assert(e == nil && x == "", "X03 reading returns the store's value")
			}
			e = nil
		}
	case 6: // another token's keys, or its own
		t := tok
		if sym.Bool("other") {
			t = sym.Str("t", 3)
		}
		n := sym.Choice("keys", 3)
		var ks []string
		for i := 0; i < n; i++ {
			ks = append(ks, sym.Str("k", 1))
		}
		e = s.Delete(ctx, t, ks...)
		mine = d.dels
		if n > 0 {
			sym.Assert(only(d.dels, t), "X03 deleting acts on the token given")
		} else if len(d.dels) > 0 {
			sym.Assert(only(d.dels, t), "X03 deleting acts on the token given")
		} else {
			mine, nothing = nil, true
		}
		given := map[string]bool{}
		for _, k := range ks {
			given[k] = true
			sym.Assert(d.gone[k], "X03 deleting removes every key given")
		}
		for k := range d.gone {
			sym.Assert(given[k], "X03 deleting removes the keys given only")
		}
	case 7:
		e = s.Get(ctx, "a", []interface{}{nil, "x", 3, map[string]string{}}[sym.Choice("dst", 4)])
		sym.Assert(errors.Is(e, sessionid.ErrNeedsPointer), "X03 a destination must be a pointer")
		sym.Assert(d.total() == 0, "X03 a read without a proper destination asks nothing")
		e, nothing = nil, true
	case 8:
		y := "y"
		x := &y
		e = s.Get(ctx, "a", &x)
		sym.Assert(errors.Is(e, sessionid.ErrPointerToPointer) && y == "y", "X03 a destination must not be a pointer to a pointer")
		sym.Assert(d.total() == 0, "X03 a read without a proper destination asks nothing")
		e, nothing = nil, true
	}
	sym.Assert(d.total() == len(mine), "X03 an operation asks the store nothing else")
	sym.Assert(d.foreign == 0, "X03 the store gets the caller's context")
	if nothing {
		sym.Assert(e == nil && d.total() == 0, "X03 nothing to do is done")
	} else if d.fail {
		sym.Assert(errors.Is(e, errStore), "X03 the store's error is the caller's")
	} else {
		sym.Assert(e == nil, "X03 an operation the store performs succeeds")
	}
	sym.Reach("end")
}

// through does a session's operations through its object.
type through struct {
	sessionid.Provider
	s *sessionid.Session
}

func (t through) Check(ctx context.Context, token string) error { return t.s.Check(ctx) }

func (t through) DestroyByToken(ctx context.Context, token string) error { return t.s.Destroy(ctx) }

func (t through) Put(ctx context.Context, token string, pair []sessionid.PairBytes) error {
	var ps []sessionid.Pair
	for _, kv := range pair {
		ps = append(ps, sessionid.Pair{Key: kv.Key, Value: kv.Value})
	}
	return t.s.Put(ctx, ps...)
}

func (t through) Keys(ctx context.Context, token string) ([]string, error) { return t.s.Keys(ctx) }

func (t through) Delete(ctx context.Context, token string, key []string) error {
	return t.s.Delete(ctx, token, key...)
}

// X03Others: two sessions of a user and one of another, over one store.
func X03Others() {
	v := memFix("X03", 0)
	toks := []string{"u.0.s", "u.1.s", "w.2.s"}
	for _, t := range toks {
		v.Create(t, t[:1]+".r"+t[2:3]+".s", []sessionid.PairBytes{{Key: "a", Value: sym.Bytes("v", 1)}})
	}
	tok := toks[sym.Choice("own", 3)]
	s, _ := sessionid.NewSession(tok, v.P, rawCoder{})
	w := &model.Env{P: through{v.P, s}, M: v.M, Tag: "X03"}
	n := sym.Bound("operations", 2, 3)
	for k := 0; k < n; k++ {
		switch sym.Choice("op", 6) {
		case 0:
			w.DestroyByToken(tok)
		case 1:
			w.Put(tok, []sessionid.PairBytes{{Key: "b", Value: sym.Bytes("w", 1)}})
		case 2:
			w.Delete(toks[sym.Choice("whose", 3)], []string{"a"})
		case 3:
			w.Check(tok)
		case 4:
			w.Keys(tok)
		case 5:
			v.Advance(v.M.A)
		}
		v.All(toks, []string{"a", "b"})
	}
	sym.Reach("end")
	v.P.Close()
}

func (d *desk) clean() {
	*d = desk{fail: d.fail, keep: d.keep, written: map[string]string{}, asked: map[string]bool{}, gone: map[string]bool{}}
}

// X03Then: the same after the session object has been used: what it remembers
// of values never stands in for the store's word on the session.
func X03Then() {
	tok := "u.0.s"
	d := &desk{keep: map[string]string{}}
	d.clean()
	for _, k := range []string{"a", "b"} {
		if sym.Bool("held") {
			d.keep[k] = "\x00" + sym.Str("v", 1)
		}
	}
	s, _ := sessionid.NewSession(tok, d, oneCoder{0})
	ctx := ctxX{bg, "x"}
	var x string
	known := map[string]bool{} // keys it may answer for
	n := 1 + sym.Choice("before", sym.Bound("operations", 2, 3))
	for i := 0; i < n; i++ {
		d.fail = sym.Bool("failed")
		k := []string{"a", "b", "c"}[sym.Choice("k", 3)]
		switch sym.Choice("use", 7) {
		case 0:
			s.Get(ctx, k, &x)
			known[k] = true
		case 1:
			s.Prepare(ctx, k)
			known[k] = true
		case 2:
			s.Put(ctx, sessionid.Pair{Key: k, Value: "w"})
			known[k] = true
		case 3:
			s.Delete(ctx, tok, k)
		case 4:
			s.Keys(ctx)
		case 5:
			s.Check(ctx)
		case 6:
			s.Destroy(ctx)
		}
	}
	d.clean()
	d.fail = sym.Bool("fails")
	var e error
	var mine []string
	switch sym.Choice("op", 7) {
	case 0:
		e, mine = s.Check(ctx), d.checks
	case 1:
		e, mine = s.Destroy(ctx), d.ends
	case 2:
		_, e = s.Keys(ctx)
		mine = d.listed
	case 3:
		e, mine = s.Put(ctx, sessionid.Pair{Key: "a", Value: "z"}, sessionid.Pair{Key: "c", Value: ""}), d.puts
		sym.Assert(len(d.written) == 2 && d.written["a"] == "\x00z" && d.written["c"] == "\x00", "X03 writing stores exactly the pairs given after any use")
	case 4:
		e, mine = s.Delete(ctx, tok, "a", "c"), d.dels
		sym.Assert(len(d.gone) == 2 && d.gone["a"] && d.gone["c"], "X03 deleting removes exactly the keys given after any use")
	case 5:
		if known["b"] {
			sym.Reach("end")
			return
		}
		e, mine = s.Prepare(ctx, "b"), d.gets
		sym.Assert(len(d.asked) == 1 && d.asked["b"], "X03 preparing reads exactly the key given after any use")
	case 6:
		if known["b"] {
			sym.Reach("end")
			return
		}
		e, mine = s.Get(ctx, "b", &x), d.gets
		sym.Assert(len(d.asked) == 1 && d.asked["b"], "X03 reading reads exactly the key given after any use")
		if _, has := d.keep["b"]; !d.fail && !has {
			sym.Assert(errors.Is(e, sessionid.ErrKeyNotExists), "X03 a missing key is reported after any use")
			e = nil
		}
	}
	sym.Assert(only(mine, tok) && d.total() == len(mine), "X03 an operation asks the store, and nothing else, after any use")
	sym.Assert(d.foreign == 0, "X03 the store gets the caller's context after any use")
	sym.Assert(d.fail == (e != nil) && (e == nil || errors.Is(e, errStore)), "X03 the store's word is the caller's after any use")
	sym.Reach("end")
}
