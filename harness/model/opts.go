package model

import (
	"time"

	"verif/harness/sym"
)

// Dur is one duration option.
type Dur struct {
	Access bool
	D      time.Duration
}

// Durations chooses up to n duration options; the lifetimes they ask for, by
// the rules: the one given last counts as given, the other keeps its value
// unless that contradicts access <= refresh, then it follows.
func Durations(n int) (opts []Dur, access, refresh time.Duration) {
	access, refresh = time.Hour, 24*time.Hour
	k := sym.Choice("options", n+1)
	for i := 0; i < k; i++ {
		d := time.Duration(sym.Int("duration", 1, 1<<60))
		if sym.Bool("access") {
			opts = append(opts, Dur{true, d})
			access = d
			if refresh < access {
				refresh = access
			}
		} else {
			opts = append(opts, Dur{false, d})
			refresh = d
			if access > refresh {
				access = refresh
			}
		}
	}
	return
}

// Lifetimes checks which lifetimes a provider works with.
func (v *Env) Lifetimes(tok, ref string) {
	v.Create(tok, ref, nil)
	v.Advance(time.Duration(sym.Int("dt", 0, 1<<61)))
	v.Check(tok)
}
