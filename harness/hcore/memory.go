package hcore

import (
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"verif/harness/model"
	"verif/harness/store"
	"verif/harness/sym"
)

const (
	far  = int64(1) << 40 // about 18 minutes; lifetimes and steps are arbitrary below it
	farD = time.Duration(far)
)

// tokens of three users; "u" is a prefix of "uv", the third identity is empty.
var (
	tokA = []string{"u.0.s", "u.1.s", "uv.0.s"}
	tokR = []string{"u.r.s", "u.q.s", "uv.r.s"}
)

func idOf(t string) string { i, _ := model.ID(t); return i }

// mem makes a provider with arbitrary lifetimes access<=refresh.
func mem(tag string, max int, opt ...sessionid.ProviderOption) *model.Env {
	a := time.Duration(sym.Int("access", 1, far))
	r := time.Duration(sym.Int("refresh", 1, far))
	sym.Assume(a <= r)
	opts := []sessionid.ProviderOption{
		sessionid.WithProviderAccess(a), sessionid.WithProviderRefresh(r),
		sessionid.WithProviderMaxSize(max), sessionid.WithProviderClear(0),
	}
	p := sessionid.NewProvider(append(opts, opt...)...)
	return &model.Env{P: p, M: &model.Store{A: a, R: r, Max: max}, Tag: tag}
}

// memFix makes a provider with fixed long lifetimes.
func memFix(tag string, max int, opt ...sessionid.ProviderOption) *model.Env {
	opts := []sessionid.ProviderOption{
		sessionid.WithProviderAccess(time.Hour), sessionid.WithProviderRefresh(2 * time.Hour),
		sessionid.WithProviderMaxSize(max), sessionid.WithProviderClear(0),
	}
	p := sessionid.NewProvider(append(opts, opt...)...)
	return &model.Env{P: p, M: &model.Store{A: time.Hour, R: 2 * time.Hour, Max: max}, Tag: tag}
}

func step(v *model.Env) {
	v.Advance(time.Duration(sym.Int("dt", 0, far)))
}

// M01 status follows deadlines and history.
func M01() {
	v := mem("M01", 0)
	n := sym.Bound("operations", 2, 3)
	v.Create(tokA[0], tokR[0], nil)
	for i := 0; i < n; i++ {
		step(v)
		switch sym.Choice("op", 5) {
		case 0:
			t := sym.Choice("tok", 3)
			v.Create(tokA[t], tokR[t], nil)
		case 1:
			v.Refresh(tokA[0], tokR[0], tokA[sym.Choice("to", 2)], tokR[sym.Choice("ro", 2)])
		case 2:
			v.DestroyByToken(tokA[sym.Choice("tok", 3)])
		case 3:
			v.Destroy("u")
		case 4:
			v.Probe(sym.Choice("probe", model.Probes), tokA[0], []string{"k"})
		}
	}
	step(v)
	k := sym.Choice("probe", model.Probes)
	for _, t := range tokA {
		v.Probe(k, t, []string{"k", "p"})
	}
	sym.Reach("probed")
	v.All(tokA, []string{"k", "p"})
	v.Check("never.created.x")
	v.Probe(k, "notoken.x", nil)
	v.P.Close()
}

// M01Replace: creating under an existing access token replaces it completely.
func M01Replace() {
	v := mem("M01", 0)
	k1, k2 := sym.Str("k1", 1), sym.Str("k2", 1)
	v.Create("u.0.s", "u.r.s", []sessionid.PairBytes{{Key: k1, Value: sym.Bytes("v1", 1)}})
	step(v)
	v.Create("u.0.s", "u.q.s", []sessionid.PairBytes{{Key: k2, Value: sym.Bytes("v2", 1)}})
	step(v)
	v.All([]string{"u.0.s"}, []string{k1, k2})
	v.Refresh("u.0.s", "u.r.s", "u.1.s", "u.x.s")
	v.Refresh("u.0.s", "u.q.s", "u.1.s", "u.x.s")
	v.All([]string{"u.0.s", "u.1.s"}, []string{k1, k2})
	v.Destroy("u")
	v.All([]string{"u.0.s", "u.1.s"}, []string{k1, k2})
	sym.Reach("end")
	v.P.Close()
}

func val(name string) []byte {
	switch sym.Choice(name+".kind", 3) {
	case 0:
		return nil
	case 1:
		return []byte{}
	}
	return sym.Bytes(name, 2)
}

func scramble(b []byte) {
	for i := range b {
		b[i] ^= 0x5a
	}
	if cap(b) > len(b) {
		c := b[:cap(b)]
		for i := len(b); i < len(c); i++ {
			c[i] ^= 0x33
		}
	}
}

// M02 data reads back exactly and is never shared.
func M02() {
	v := memFix("M02", 0)
	ks := []string{sym.Str("ka", 1), sym.Str("kb", 1)}
	toks := []string{"u.0.s", "u.1.s"}
	v0 := val("v0")
	v.Create(toks[0], "u.r.s", []sessionid.PairBytes{{Key: ks[0], Value: v0}})
	scramble(v0)
	v.Create(toks[1], "u.r.s", nil)
	n := sym.Bound("operations", 2, 3)
	var old []sessionid.Value
	var want []string
	for i := 0; i < n; i++ {
		t := toks[sym.Choice("tok", 2)]
		switch sym.Choice("op", 4) {
		case 0:
			b, c := val("v"), []byte{7}
			k := sym.Choice("k", 2)
			v.Put(t, []sessionid.PairBytes{{Key: ks[k], Value: b}, {Key: ks[1-k], Value: c}})
			scramble(b)
			scramble(c)
		case 1:
			b := val("v")
			v.Put(t, []sessionid.PairBytes{{Key: ks[sym.Choice("k", 2)], Value: b}})
			scramble(b)
		case 2:
			v.Delete(t, ks[sym.Choice("from", 2):])
		case 3:
			got := v.Get(t, ks)
			more := v.Get(t, []string{ks[1], ks[0], ks[1]})
			for _, x := range got {
				scramble(x.Bytes)
			}
			for _, x := range more {
				old = append(old, x)
				want = append(want, string(x.Bytes))
			}
		}
	}
	v.All(toks, ks)
	for i := range old {
		sym.Assert(string(old[i].Bytes) == want[i], "M02: a value read earlier changed later")
	}
	sym.Reach("end")
	v.P.Close()
}

// M02Wide many entries in many sessions.
func M02Wide() { kit("M02").Wide() }

func kit(tag string) store.Kit {
	return store.Kit{Tag: tag, Make: func(a, r time.Duration, max int) sessionid.Provider {
		return sessionid.NewProvider(sessionid.WithProviderAccess(a), sessionid.WithProviderRefresh(r),
			sessionid.WithProviderMaxSize(max), sessionid.WithProviderClear(0))
	}}
}

// M03 refreshing rotates once.
func M03() {
	v := mem("M03", 0)
	acc := []string{"u.0.s", "u.1.s", "v.0.s", "u.2.s"}
	ref := []string{"u.r0.s", "u.r1.s", "v.r0.s", "u.r2.s"}
	for i := 0; i < 3; i++ {
		v.Create(acc[i], ref[i], []sessionid.PairBytes{{Key: "k", Value: []byte{byte(i)}}, {Key: string(rune('a' + i)), Value: []byte("own")}})
	}
	keys := []string{"k", "a", "b", "c"}
	step(v)
	v.Refresh(acc[sym.Choice("a", 4)], ref[sym.Choice("r", 4)], acc[sym.Choice("na", 4)], ref[sym.Choice("nr", 4)])
	if sym.Bound("refreshes", 1, 2) > 1 {
		step(v)
		v.Refresh(acc[sym.Choice("a", 2)], ref[sym.Choice("r", 4)], acc[sym.Choice("na", 4)], "u.r9.s")
	}
	v.All(acc, keys)
	switch sym.Choice("after", 3) {
	case 0:
		v.Destroy("u")
	case 1:
		v.DestroyByToken(acc[sym.Choice("d", 4)])
	case 2:
		v.Advance(farD)
		for _, t := range acc {
			v.Put(t, nil)
		}
	}
	v.All(acc, keys)
	sym.Reach("end")
	v.P.Close()
}

// M03Again: the tokens a refresh used up stay used up.
func M03Again() {
	v := mem("M03", 0)
	acc := []string{"u.0.s", "u.1.s", "u.2.s"}
	ref := []string{"u.r0.s", "u.r1.s", "u.r2.s"}
	k, b := sym.Str("k", 1), sym.Bytes("v", 1)
	v.Create(acc[0], ref[0], []sessionid.PairBytes{{Key: k, Value: b}})
	step(v)
	if !v.Refresh(acc[0], ref[0], acc[1], ref[1]) {
		return
	}
	v.All(acc, []string{k})
	step(v)
	v.Refresh(acc[sym.Choice("a", 2)], ref[sym.Choice("r", 2)], acc[2], ref[2])
	v.All(acc, []string{k})
	step(v)
	v.All(acc, []string{k})
	sym.Reach("end")
	v.P.Close()
}

// M04 destruction.
func M04() {
	v := mem("M04", 0)
	ids := []string{"u", "uv", ""}
	acc := []string{"u.0.s", "u.1.s", "uv.0.s", ".0.s", "u.2.s"}
	ref := []string{"u.r.s", "u.r.s", "uv.r.s", ".r.s", "u.r.s"}
	for i := 0; i < 4; i++ {
		if sym.Bool("held") {
			v.Create(acc[i], ref[i], nil)
		}
	}
	n := sym.Bound("operations", 3, 4)
	for i := 0; i < n; i++ {
		if i == 0 {
			step(v)
		}
		switch sym.Choice("op", 4) {
		case 0:
			v.Destroy(ids[sym.Choice("id", 3)])
		case 1:
			v.DestroyByToken(acc[sym.Choice("tok", 5)])
		case 2:
			v.Refresh(acc[0], ref[0], acc[4], ref[4])
		case 3:
			k := sym.Choice("new", 2) * 4
			v.Create(acc[k], ref[k], nil)
		}
	}
	v.All(acc, nil)
	v.Destroy(ids[sym.Choice("last", 3)])
	v.All(acc, nil)
	sym.Reach("end")
	v.P.Close()
}

// M05 capacity.
func M05() {
	max := sym.Choice("max", 5) - 1
	v := mem("M05", max)
	acc := []string{"u.0.s", "u.1.s", "v.0.s", "w.0.s"}
	n := sym.Bound("operations", 4, 5)
	for i := 0; i < n; i++ {
		switch sym.Choice("op", 4) {
		case 0, 1:
			k := sym.Choice("tok", 4)
			if max < 0 {
				sym.Assume(k == i%4)
			}
			v.Create(acc[k], acc[k]+"r", nil)
		case 2:
			k := sym.Choice("from", 2)
			to := sym.Choice("to", 2)
			v.Refresh(acc[k], acc[k]+"r", acc[to], acc[to]+"r")
		case 3:
			v.DestroyByToken(acc[0])
		}
	}
	if max > 0 {
		held := 0
		for _, t := range acc {
			if v.P.Check(model.BG, t) == nil {
				held++
			}
		}
		sym.Assert(held <= max, "M05: more sessions held than the capacity")
	}
	v.All(acc, nil)
	sym.Reach("end")
	v.P.Close()
}
