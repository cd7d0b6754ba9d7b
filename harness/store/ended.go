package store

import (
	"context"
	"time"

	"verif/harness/model"
	"verif/harness/sym"
)

// patience is a context that ends once it has been asked about that often.
type patience struct {
	context.Context
	left int
}

func (p *patience) ended() bool {
	if p.left > 0 {
		p.left--
		return false
	}
	return true
}

// Err of the context.
func (p *patience) Err() error {
	if p.ended() {
		return context.Canceled
	}
	return nil
}

// Done of the context.
func (p *patience) Done() <-chan struct{} {
	c := make(chan struct{})
	if p.ended() {
		close(c)
	}
	return c
}

// Ending makes a context that has ended, or ends while it is used.
func Ending(asks int) context.Context {
	switch k := sym.Choice("context", 2+asks); k {
	case 0:
		c, cancel := context.WithCancel(context.Background())
		cancel()
		return c
	case 1:
		c, _ := context.WithDeadline(context.Background(), time.Now().Add(-time.Second))
		return c
	default:
		return &patience{context.Background(), k - 2}
	}
}

// EndToks are the tokens the sessions of Populate can have.
var EndToks = []string{"u.0.s", "u.1.s", "v.0.s", "u.5.s", "u.9.s"}

// Populate makes three sessions, some time ago.
func Populate(v *model.Env, age time.Duration) {
	for i, t := range EndToks[:3] {
		id, _ := model.ID(t)
		o := model.Op{Kind: model.KCreate, Tok: t, Ref: id + ".r.s", Key: "k", Val: string(rune('0' + i))}
		model.Do(v.P, o)
		v.M.Apply(o)
	}
	v.Advance(age)
}

// EndOps is the number of operations EndOp makes.
const EndOps = 11

// EndOp is the i-th operation on the sessions of Populate.
func EndOp(i int, val string) model.Op {
	o := model.Op{Tok: "u.0.s", Ref: "u.r.s", NTok: "u.9.s", NRef: "u.q9.s", Key: "k", Val: val}
	switch i {
	case 0:
		o.Kind, o.Tok = model.KCreate, "u.5.s"
	case 1:
		o.Kind = model.KCreate // replaces
	case 2:
		o.Kind = model.KRefresh
	case 3:
		o.Kind = model.KDestroy
	case 4:
		o.Kind = model.KDestroyByToken
	case 5:
		o.Kind = model.KPut
	case 6:
		o.Kind = model.KDelete
	case 7:
		o.Kind, o.NTok = model.KRefresh, "u.1.s" // onto a live one
	case 8:
		o.Kind = model.KGet
	case 9:
		o.Kind = model.KKeys
	case 10:
		o.Kind = model.KCheck
	}
	return o
}

// Ended runs operations whose contexts have ended or end meanwhile: each takes
// effect, or reports the end and changes nothing.
func (k Kit) Ended() {
	v := k.Fix(sym.Choice("max", 2) * 3)
	Populate(v, k.Dur("age", 0, 3*int64(time.Hour)))
	n := sym.Bound("operations", 1, 2)
	for i := 0; i < n; i++ {
		o := EndOp(sym.Choice("op", EndOps), string(sym.Bytes("v", 1)))
		after := v.M.Copy()
		want := after.Apply(o)
		model.BG = Ending(sym.Bound("asks", 3, 4))
		got := model.Do(v.P, o)
		model.BG = context.Background()
		if name := model.Name(model.Ended); len(got) >= len(name) && got[:len(name)] == name {
			rest := got[len(name):]
			sym.Assert(rest == "" || rest == " ", k.Tag+": an operation gives results together with the end of its context")
		} else {
			sym.Assert(got == want, k.Tag+": an operation whose context ends reports "+got)
			v.M = after
		}
		sym.Assert(model.State(v.P, EndToks, "k") == v.M.State(EndToks, "k"), k.Tag+": an operation whose context ends takes effect in part")
	}
	o := EndOp(sym.Choice("last", EndOps), "z")
	sym.Assert(model.Do(v.P, o) == v.M.Apply(o), k.Tag+": a store goes on after contexts ended")
	sym.Assert(model.State(v.P, EndToks, "k") == v.M.State(EndToks, "k"), k.Tag+": a store goes on after contexts ended")
	sym.Reach("end")
	sym.Assert(v.P.Close() == nil, k.Tag+": a store closes after contexts ended")
}
