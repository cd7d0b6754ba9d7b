package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// instrument writes copies of the code under test in which every
// synchronisation operation is preceded by vrt.Point, and an overlay naming
// them. The replay of a schedule is built with it; the symbolic execution is
// not.
func (P *Prog) instrument(work string, repl map[string]string) error {
	n := 0
	for _, p := range P.repoPkgs {
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			src, err := os.ReadFile(name)
			if err != nil {
				return err
			}
			out, changed := instrumentFile(P.fset, p.TypesInfo, f, src)
			if !changed {
				continue
			}
			n++
			o := filepath.Join(work, fmt.Sprintf("%d_%s", n, filepath.Base(name)))
			if err := os.WriteFile(o, out, 0o644); err != nil {
				return err
			}
			repl[name] = o
		}
	}
	return nil
}

type edit struct {
	off, end int
	text     string
	seq      int
}

// dbMethods are library calls that count as one point.
var dbMethods = map[string]bool{
	"(*github.com/boltdb/bolt.DB).Update": true, "(*github.com/boltdb/bolt.DB).View": true,
	"(*github.com/boltdb/bolt.DB).Begin": true, "(*github.com/boltdb/bolt.DB).Batch": true, "(*github.com/boltdb/bolt.DB).Close": true,
}

func instrumentFile(fset *token.FileSet, info *types.Info, f *ast.File, src []byte) ([]byte, bool) {
	var edits []edit
	pos := func(p token.Pos) int { return fset.Position(p).Offset }
	ins := func(p token.Pos, s string) { edits = append(edits, edit{pos(p), pos(p), s, len(edits)}) }
	rep := func(a, b token.Pos, s string) { edits = append(edits, edit{pos(a), pos(b), s, len(edits)}) }
	text := func(n ast.Node) string { return string(src[pos(n.Pos()):pos(n.End())]) }
	parents := map[ast.Node]ast.Node{}
	var stack []ast.Node
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		if len(stack) > 0 {
			parents[n] = stack[len(stack)-1]
		}
		stack = append(stack, n)
		return true
	})
	// the statement directly inside a block that contains n
	outer := func(n ast.Node) (ast.Node, bool) {
		for n != nil {
			p := parents[n]
			switch q := p.(type) {
			case *ast.BlockStmt, *ast.CaseClause:
				if _, ok := n.(ast.Stmt); ok {
					return n, true
				}
			case *ast.CommClause:
				if q.Comm == n {
					return nil, false
				}
				return n, true
			case *ast.FuncLit, *ast.FuncDecl, nil:
				return nil, false
			}
			n = p
		}
		return nil, false
	}
	inComm := func(n ast.Node) bool {
		for n != nil {
			p := parents[n]
			if c, ok := p.(*ast.CommClause); ok {
				return c.Comm == n
			}
			if _, ok := p.(*ast.BlockStmt); ok {
				return false
			}
			n = p
		}
		return false
	}
	basic := func(t types.Type) (string, bool) {
		switch t := t.(type) {
		case *types.Basic:
			if t.Info()&types.IsUntyped == 0 && t.Kind() != types.UnsafePointer {
				return t.Name(), true
			}
		case *types.Named:
			if t.String() == "error" {
				return "error", true
			}
		}
		return "", false
	}
	callee := func(c *ast.CallExpr) *types.Func {
		switch x := ast.Unparen(c.Fun).(type) {
		case *ast.SelectorExpr:
			f, _ := info.Uses[x.Sel].(*types.Func)
			return f
		case *ast.Ident:
			f, _ := info.Uses[x].(*types.Func)
			return f
		}
		return nil
	}
	wrap := func(c *ast.CallExpr) {
		t := info.TypeOf(c)
		if tp, ok := t.(*types.Tuple); ok && tp.Len() == 0 || t == nil {
			ins(c.Pos(), "func() { vrt.Point(); ")
			ins(c.End(), " }()")
			return
		}
		if s, ok := basic(t); ok {
			ins(c.Pos(), "func() "+s+" { vrt.Point(); return ")
			ins(c.End(), " }()")
			return
		}
		if st, ok := outer(c); ok {
			ins(st.Pos(), "vrt.Point(); ")
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok && id.Name == "close" {
				if _, ok := info.Uses[id].(*types.Builtin); ok {
					ins(x.Pos(), "vrt.P(func() { ")
					ins(x.End(), " })")
				}
				return true
			}
			fn := callee(x)
			if fn == nil || fn.Pkg() == nil {
				return true
			}
			switch fn.FullName() {
			case "github.com/google/uuid.NewUUID", "github.com/google/uuid.NewRandom":
				t := text(x.Fun)
				rep(x.Fun.Pos(), x.Fun.End(), "(func() ("+strings.TrimSuffix(t, fn.Name())+"UUID, error) { if b, ok := vrt.UUID(); ok { return b, nil }; return "+t+"() })")
			case "github.com/google/uuid.New":
				t := text(x.Fun)
				rep(x.Fun.Pos(), x.Fun.End(), "(func() "+strings.TrimSuffix(t, fn.Name())+"UUID { if b, ok := vrt.UUID(); ok { return b }; return "+t+"() })")
			case "crypto/rand.Read", "math/rand.Read":
				t := text(x.Fun)
				rep(x.Fun.Pos(), x.Fun.End(), "(func(b []byte) (int, error) { if vrt.Fill(\"rand\", b) { return len(b), nil }; return "+t+"(b) })")
			}
			switch fn.Pkg().Path() {
			case "sync":
				recv := fn.Type().(*types.Signature).Recv()
				if recv == nil {
					return true
				}
				rt := recv.Type().String()
				switch fn.Name() {
				case "Lock", "Unlock", "RLock", "RUnlock", "Wait", "Done":
					if strings.HasSuffix(rt, "Mutex") || strings.HasSuffix(rt, "WaitGroup") || strings.HasSuffix(rt, "Locker") {
						ins(x.Pos(), "vrt.P(")
						rep(x.Lparen, x.Rparen+1, ")")
					}
				case "TryLock", "TryRLock", "Add":
					if strings.HasSuffix(rt, "Mutex") || strings.HasSuffix(rt, "WaitGroup") {
						wrap(x)
					}
				}
			case "sync/atomic":
				wrap(x)
			default:
				if dbMethods[fn.FullName()] {
					wrap(x)
				}
			}
		case *ast.SendStmt:
			if !inComm(x) {
				if st, ok := outer(x); ok {
					ins(st.Pos(), "vrt.Point(); ")
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !inComm(x) {
				if s, ok := basic(info.TypeOf(x)); ok {
					ins(x.Pos(), "func() "+s+" { vrt.Point(); return ")
					ins(x.End(), " }()")
				} else if st, ok := outer(x); ok {
					ins(st.Pos(), "vrt.Point(); ")
				}
			}
		case *ast.SelectStmt:
			if st, ok := outer(x); ok {
				ins(st.Pos(), "vrt.Point(); ")
			}
		case *ast.RangeStmt:
			if _, ok := info.TypeOf(x.X).Underlying().(*types.Chan); ok {
				if st, ok := outer(x); ok {
					ins(st.Pos(), "vrt.Point(); ")
					ins(x.Body.Lbrace+1, " vrt.Point(); ")
				}
			}
		case *ast.GoStmt:
			c := x.Call
			if len(c.Args) == 0 {
				rep(x.Go, c.Pos(), "vrt.GoP(func() { ")
				ins(c.End(), " })")
				return true
			}
			pre := "{ "
			for i, a := range c.Args {
				tv := info.Types[a]
				if tv.Value != nil || tv.IsNil() {
					continue
				}
				v := fmt.Sprintf("vrt%d_%d", pos(x.Pos()), i)
				pre += v + " := " + text(a) + "; "
				rep(a.Pos(), a.End(), v)
			}
			rep(x.Go, c.Pos(), pre+"vrt.GoP(func() { ")
			ins(c.End(), " }) }")
		}
		return true
	})
	if len(edits) == 0 {
		return src, false
	}
	ins(f.Name.End(), `; import vrt "`+harnessPath+`/vrt"`)
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	// of insertions at one place, the outermost node's goes first at a start
	// and last at an end; edits were collected outermost first
	var out []byte
	at := 0
	for i := 0; i < len(edits); {
		j := i
		for j < len(edits) && edits[j].off == edits[i].off {
			j++
		}
		grp := edits[i:j]
		closing := func(e edit) bool { return strings.HasPrefix(e.text, " }") }
		var o []edit
		for k := len(grp) - 1; k >= 0; k-- {
			if closing(grp[k]) {
				o = append(o, grp[k])
			}
		}
		for _, e := range grp {
			if !closing(e) && e.end == e.off {
				o = append(o, e)
			}
		}
		for _, e := range grp {
			if e.end > e.off {
				o = append(o, e)
			}
		}
		for _, e := range o {
			if e.off < at {
				continue // inside text already replaced
			}
			out = append(out, src[at:e.off]...)
			at = e.off
			out = append(out, e.text...)
			if e.end > at {
				at = e.end
			}
		}
		i = j
	}
	out = append(out, src[at:]...)
	return out, true
}
