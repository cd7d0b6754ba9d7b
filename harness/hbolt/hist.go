package hbolt

import (
	"time"

	"github.com/powerpuffpenguin/sessionid"
	bolt "github.com/powerpuffpenguin/sessionid/provider/bolt"
	_ "verif/harness/boltm"
	"verif/harness/model"
	"verif/harness/store"
	"verif/harness/sym"
)

const sec = store.Sec

func open(a, r time.Duration, max int, opt ...bolt.Option) sessionid.Provider {
	p, e := bolt.New(append([]bolt.Option{bolt.WithFilename("s.db"), bolt.WithAccess(a), bolt.WithRefresh(r), bolt.WithMaxSize(max), bolt.WithClear(0)}, opt...)...)
	if e != nil {
		panic(e)
	}
	return p
}

func kit(tag string) store.Kit {
	return store.Kit{Tag: tag, Make: func(a, r time.Duration, max int) sessionid.Provider { return open(a, r, max) }}
}

// All lists the harnesses.
var All = map[string]func(){
	"B01": B01, "B01Replace": B01Replace, "B02": B02, "B02Wide": B02Wide, "B03": B03, "B03Again": B03Again, "B04": B04, "B05": B05,
	"S02Bolt": S02Bolt,
}

// B01 status follows deadlines and history.
func B01()        { kit("B01").Status(2, 3) }
func B01Replace() { kit("B01").Replace() }

// B02 data reads back exactly, and stays valid.
func B02() {
	kit("B02").Data(2, 3, func(v *model.Env) {
		switch sym.Choice("after", 3) {
		case 0:
			v.Put("u.0.s", []sessionid.PairBytes{{Key: "zz", Value: []byte("zzzz")}})
			v.Destroy("u")
			v.Create("u.5.s", "u.r.s", []sessionid.PairBytes{{Key: "zz", Value: []byte("yyyy")}})
		case 1:
			v.P.Close()
		}
	})
}

// B02Wide many entries in many sessions.
func B02Wide() { kit("B02").Wide() }

// B03 refreshing rotates once.
func B03()      { kit("B03").Rotate(1, 2) }
func B03Again() { kit("B03").Again() }

// B04 destruction.
func B04() { kit("B04").Destroy(3, 4, []string{"u", "uv", "none"}, nil) }

// B05 capacity.
func B05() {
	kit("B05").Capacity(3, 4, func(v *model.Env) {
		v.P.Close()
		v.M.Max = sym.Choice("newmax", 4)
		v.P = open(v.M.A, v.M.R, v.M.Max)
	})
}

func S02Bolt() { kit("S02").Refuses() }
