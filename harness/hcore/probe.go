package hcore

import (
	"context"
	"time"

	"github.com/powerpuffpenguin/sessionid"
	"verif/harness/sym"
)

var bg = context.Background()

// Probe is a smoke test of the engine.
func Probe() {
	a := time.Duration(sym.Int("access", 1, 100e9))
	p := sessionid.NewProvider(sessionid.WithProviderAccess(a), sessionid.WithProviderRefresh(2*a))
	e := p.Create(bg, "u.a.s", "u.r.s", []sessionid.PairBytes{{Key: "k", Value: []byte("v")}})
	sym.Assert(e == nil, "create")
	d := time.Duration(sym.Int("d", 0, 300e9))
	sym.Advance(d)
	e = p.Check(bg, "u.a.s")
	sym.Observe("check", e)
	switch {
	case d < a:
		sym.Assert(e == nil, "live")
	case d < 2*a:
		sym.Assert(e == sessionid.ErrTokenExpired, "expired")
	default:
		sym.Assert(e == sessionid.ErrTokenNotExists, "gone")
	}
	sym.Reach("end")
	p.Close()
}
