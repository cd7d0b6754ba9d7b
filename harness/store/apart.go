package store

import (
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"verif/harness/model"
	"verif/harness/sym"
)

// Apart drives two stores of one kind with the same tokens: neither sees what
// is done to the other. intact looks after whatever else the database holds.
func Apart(a, b *model.Env, quick, thorough int, intact func()) {
	toks := []string{"u.0.s", "u.1.s", "w.0.s"}
	refs := []string{"u.r.s", "u.q.s", "w.r.s"}
	keys := []string{"k", "p"}
	val := func(n string) []sessionid.PairBytes {
		return []sessionid.PairBytes{{Key: "k", Value: sym.Bytes(n, 1)}}
	}
	look := func() {
		a.All(toks, keys)
		b.All(toks, keys)
		intact()
	}
	a.Create(toks[0], refs[0], val("va"))
	b.Create(toks[0], refs[0], val("vb"))
	if sym.Bool("more") {
		b.Create(toks[2], refs[2], nil)
	}
	look()
	n := sym.Bound("operations", quick, thorough)
	for i := 0; i < n; i++ {
		v := a
		if i > 0 && sym.Bool("other") {
			v = b
		}
		kinds := 8
		c, ok := v.P.(interface{ Clear() error })
		if ok {
			kinds = 9
		}
		switch sym.Choice("op", kinds) {
		case 0:
			j := sym.Choice("tok", 3)
			v.Create(toks[j], refs[j], val("w"))
		case 1:
			to := sym.Choice("to", 2)
			v.Refresh(toks[0], refs[0], toks[to], refs[to])
		case 2:
			v.Destroy([]string{"u", "w"}[sym.Choice("id", 2)])
		case 3:
			v.DestroyByToken(toks[sym.Choice("tok", 3)])
		case 4:
			v.Put(toks[0], []sessionid.PairBytes{{Key: "p", Value: sym.Bytes("w", 1)}})
		case 5:
			v.Delete(toks[0], []string{"k"})
		case 6: // time passes for both
			d := []time.Duration{time.Hour, 2 * time.Hour}[sym.Choice("dt", 2)]
			a.Advance(d)
			b.M.Now += d
		case 7: // somebody asks
			v.Probe(sym.Choice("probe", model.Probes), toks[0], keys)
		case 8:
			e := c.Clear()
			sym.Assert(e == nil, v.Tag+": Clear fails")
			v.M.S = nil
		}
		look()
	}
	sym.Assert(a.P.Close() == nil, a.Tag+": Close fails")
	b.All(toks, keys)
	b.Create(toks[1], refs[1], val("x"))
	b.Refresh(toks[1], refs[1], toks[0], refs[0])
	b.All(toks, keys)
	intact()
	sym.Assert(a.P.Close() == sessionid.ErrProviderClosed, a.Tag+": a second Close does not report the closed error")
	sym.Assert(b.P.Close() == nil, b.Tag+": Close fails")
	intact()
	sym.Reach("end")
}
