package store

import (
	"context"
	"errors"
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"verif/harness/model"
	"verif/harness/sym"
)

var errPlain = errors.New("not text")

// plain keeps strings as they are.
type plain struct{}

func (plain) Encode(v interface{}) ([]byte, error) {
	s, ok := v.(string)
	if !ok {
		return nil, errPlain
	}
	return []byte(s), nil
}

func (plain) Decode(b []byte, p interface{}) error {
	s, ok := p.(*string)
	if !ok {
		return errPlain
	}
	*s = string(b)
	return nil
}

type lived struct {
	id, a, r string
	ad, rd   time.Duration
	data     map[string]string
	gone     bool
	s        *sessionid.Session // the caller's own object, if it kept one
}

// Life drives sessions through a manager and their objects, over one kind of
// store.
func (k Kit) Life(quick, thorough int) {
	ctx := context.Background()
	al := k.Dur("access", 1, Far)
	rl := k.Dur("refresh", 1, Far)
	sym.Assume(al <= rl)
	p := k.Make(al, rl, 0)
	g := sessionid.NewManager(sessionid.WithProvider(p), sessionid.WithKey([]byte("k")), sessionid.WithCoder(plain{}))
	ids := []string{"u", "u.v"}
	var all []*lived
	var now time.Duration
	create := func(id string) {
		v := sym.Str("v", 1)
		s, r, e := g.Create(ctx, id, sessionid.Pair{Key: "a", Value: v})
		sym.Assert(e == nil && s != nil, "E01 creation succeeds")
		all = append(all, &lived{id: id, a: s.Token(), r: r, ad: now + al, rd: now + rl, data: map[string]string{"a": v}, s: s})
	}
	// state: 0 alive, 1 expired, 2 dead
	state := func(x *lived) int {
		if x.gone || now >= x.rd {
			return 2
		}
		if now >= x.ad {
			return 1
		}
		return 0
	}
	want := []int{model.OK, model.Expired, model.NotExists}
	at := func(x *lived) *sessionid.Session {
		if x.s != nil && sym.Bool("kept") {
			return x.s
		}
		s, e := g.Get(ctx, x.a)
		sym.Assert(e == nil, "E01 an issued token stays genuine")
		return s
	}
	look := func() {
		for _, x := range all {
			s, e := g.Get(ctx, x.a)
			sym.Assert(e == nil && s.Token() == x.a, "E01 an issued token stays genuine")
			st := state(x)
			sym.Assert(model.Class(s.Check(ctx)) == want[st], "E01 a token's status follows its life")
			if st != 0 {
				var v string
				sym.Assert(model.Class(s.Get(ctx, "a", &v)) == want[st] && v == "", "E01 a token that is not alive reads nothing")
				continue
			}
			ks, e := s.Keys(ctx)
			sym.Assert(e == nil && len(ks) == len(x.data), "E01 a session has the keys written")
			for _, k := range []string{"a", "b"} {
				var v string
				e := s.Get(ctx, k, &v)
				if w, ok := x.data[k]; ok {
					sym.Assert(e == nil && v == w, "E01 a session has the values written")
				} else {
					sym.Assert(e == sessionid.ErrKeyNotExists, "E01 a session has no other values")
				}
			}
		}
	}
	create(ids[0])
	create(ids[sym.Choice("other", 2)])
	n := sym.Bound("operations", quick, thorough)
	for i := 0; i < n; i++ {
		x := all[0]
		op := sym.Choice("op", 8)
		if op > 0 && op < 7 && op != 5 {
			x = all[sym.Choice("tok", len(all))]
		}
		switch op {
		case 0:
			create(ids[0])
		case 1: // the pair of tokens, or those of two sessions
			r := x.r
			if sym.Bool("mixed") {
				r = all[0].r
				if x == all[0] {
					r = all[1].r
				}
			}
			na, nr, e := g.Refresh(ctx, x.a, r)
			ok := r == x.r && state(x) < 2
			sym.Assert((e == nil) == ok, "E01 a refresh succeeds exactly with the tokens of one session that is not dead")
			if e == nil {
				y := &lived{id: x.id, a: na, r: nr, ad: now + al, rd: now + rl, data: x.data}
				x.gone = true
				all = append(all, y)
			}
		case 2:
			e := at(x).Put(ctx, sessionid.Pair{Key: "b", Value: "w"})
			sym.Assert(model.Class(e) == want[state(x)], "E01 writing follows the token's status")
			if e == nil {
				x.data["b"] = "w"
			}
		case 3:
			e := at(x).Delete(ctx, x.a, "a")
			sym.Assert(model.Class(e) == want[state(x)], "E01 removing follows the token's status")
			if e == nil {
				delete(x.data, "a")
			}
		case 4:
			if sym.Bool("object") {
				sym.Assert(at(x).Destroy(ctx) == nil, "E01 destroying a session succeeds")
			} else {
				sym.Assert(g.DestroyByToken(ctx, x.a) == nil, "E01 destroying a token succeeds")
			}
			x.gone = true
		case 5:
			id := ids[sym.Choice("whom", 2)]
			sym.Assert(g.Destroy(ctx, id) == nil, "E01 destroying a user succeeds")
			for _, y := range all {
				if y.id == id {
					y.gone = true
				}
			}
		case 6: // its own object shows what was written through it
			s := at(x)
			if st := state(x); st == 0 {
				e := s.Prepare(ctx, "a", "b")
				sym.Assert(e == nil, "E01 preparing follows the token's status")
				s.Put(ctx, sessionid.Pair{Key: "b", Value: "z"})
				x.data["b"] = "z"
				var v string
				sym.Assert(s.Get(ctx, "b", &v) == nil && v == "z", "E01 an object shows its own write")
			}
		case 7:
			d := k.Dur("dt", 0, Far)
			sym.Advance(d)
			now += d
		}
		look()
	}
	sym.Reach("end")
	p.Close()
}
