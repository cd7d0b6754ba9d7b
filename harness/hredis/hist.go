package hredis

import (
	"time"

	"github.com/powerpuffpenguin/sessionid"
	redis "github.com/powerpuffpenguin/sessionid/provider/redis"
	"verif/harness/redism"
	"verif/harness/store"
)

const sec = store.Sec

// srv is the server of the store opened last.
var srv *redism.Server

func open(s *redism.Server, a, r time.Duration, opt ...redis.Option) sessionid.Provider {
	p, e := redis.New(append([]redis.Option{redis.WithClient(s.Client()), redis.WithAccess(a), redis.WithRefresh(r)}, opt...)...)
	if e != nil {
		panic(e)
	}
	return p
}

func kit(tag string) store.Kit {
	return store.Kit{Tag: tag, Make: func(a, r time.Duration, max int) sessionid.Provider {
		srv = redism.New()
		return open(srv, a, r)
	}}
}

// All lists the harnesses.
var All = map[string]func(){
	"R01": R01, "R01Replace": R01Replace, "R02": R02, "R02Wide": R02Wide, "R03": R03, "R03Again": R03Again,
}

// R01 status follows deadlines and history.
func R01()        { kit("R01").Status(1, 2) }
func R01Replace() { kit("R01").Replace() }

// R02 data reads back exactly.
func R02() { kit("R02").Data(2, 3, nil) }

// R02Wide many entries in many sessions.
func R02Wide() { kit("R02").Wide() }

// R03 refreshing rotates once.
func R03()      { kit("R03").Rotate(1, 2) }
func R03Again() { kit("R03").Again() }
