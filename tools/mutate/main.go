// mutate lists small changes of a Go file, one per directory under an output directory:
//
//	go run . FILE OUTDIR PREFIX
//
// each OUTDIR/PREFIX-NNN.go is the file with one change; OUTDIR/PREFIX-NNN.txt says which. A development aid
// (tools/sweep.sh builds them, runs the stable tests and then the checks); no check uses it.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	from, to int
	text     string
	what     string
}

func main() {
	file, out, prefix := os.Args[1], os.Args[2], os.Args[3]
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var es []edit
	add := func(from, to token.Pos, text, what string) {
		es = append(es, edit{off(from), off(to), text, what})
	}
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	one := func(s string) string {
		s = strings.Join(strings.Fields(s), " ")
		if len(s) > 90 {
			s = s[:90] + "…"
		}
		return s
	}
	stmts := func(list []ast.Stmt) {
		for i, s := range list {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt, *ast.BranchStmt:
				add(s.Pos(), s.End(), "", "drop "+one(txt(s)))
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					blank := make([]string, len(s.Lhs))
					for i := range blank {
						blank[i] = "_"
					}
					rhs := string(src[off(s.Rhs[0].Pos()):off(s.Rhs[len(s.Rhs)-1].End())])
					if len(s.Lhs) == len(s.Rhs) || len(s.Rhs) == 1 {
						add(s.Pos(), s.End(), strings.Join(blank, ", ")+" = "+rhs, "drop "+one(txt(s)))
					}
				}
			case *ast.IfStmt:
				if s.Else == nil {
					if s.Init == nil {
						add(s.Cond.Pos(), s.Cond.End(), "false && ("+txt(s.Cond)+")", "never "+one(txt(s)))
						add(s.Cond.Pos(), s.Cond.End(), "true || ("+txt(s.Cond)+")", "always "+one(txt(s)))
					} else {
						add(s.Cond.Pos(), s.Cond.End(), "false && ("+txt(s.Cond)+")", "never "+one(txt(s)))
					}
				} else {
					add(s.Cond.Pos(), s.Cond.End(), "false && ("+txt(s.Cond)+")", "never "+one(txt(s)))
					add(s.Cond.Pos(), s.Cond.End(), "true || ("+txt(s.Cond)+")", "always "+one(txt(s)))
				}
			case *ast.ReturnStmt:
				if i == 0 && len(s.Results) > 0 {
					if id, ok := s.Results[len(s.Results)-1].(*ast.Ident); ok && (id.Name == "err" || id.Name == "e") {
						add(id.Pos(), id.End(), "nil", "nil for "+one(txt(s)))
					}
				}
			}
			// swap neighbours
			if i+1 < len(list) {
				_, a := s.(*ast.ExprStmt)
				_, b := list[i+1].(*ast.ExprStmt)
				if as, ok := s.(*ast.AssignStmt); ok && as.Tok != token.DEFINE {
					a = true
				}
				if as, ok := list[i+1].(*ast.AssignStmt); ok && as.Tok != token.DEFINE {
					b = true
				}
				if a && b {
					add(s.Pos(), list[i+1].End(), txt(list[i+1])+"\n"+txt(s), "swap "+one(txt(s))+" / "+one(txt(list[i+1])))
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			return n.Tok != token.IMPORT
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
			if len(n.Body) > 0 {
				add(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "empty case "+one(txt(n)))
			}
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.BinaryExpr:
			swap := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.ADD: "-", token.SUB: "+", token.EQL: "!=", token.NEQ: "=="}
			if t, ok := swap[n.Op]; ok {
				if n.Op == token.ADD && strings.Contains(txt(n), "\"") {
					return true
				}
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t, n.Op.String()+" to "+t+" in "+one(txt(n)))
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				add(n.Pos(), n.End(), "("+txt(n.X)+")", "left of "+one(txt(n)))
				add(n.Pos(), n.End(), "("+txt(n.Y)+")", "right of "+one(txt(n)))
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				add(n.Pos(), n.End(), n.Value+"+1", "+1 at "+n.Value+" line "+fmt.Sprint(fs.Position(n.Pos()).Line))
			}
		case *ast.Ident:
			if n.Name == "true" {
				add(n.Pos(), n.End(), "false", "true to false")
			}
			if n.Name == "false" {
				add(n.Pos(), n.End(), "true", "false to true")
			}
		case *ast.CallExpr:
			// swap two plain arguments
			if len(n.Args) >= 2 {
				for i := 0; i+1 < len(n.Args); i++ {
					_, a := n.Args[i].(*ast.Ident)
					_, b := n.Args[i+1].(*ast.Ident)
					if a && b && txt(n.Args[i]) != "ctx" {
						add(n.Args[i].Pos(), n.Args[i+1].End(), txt(n.Args[i+1])+", "+txt(n.Args[i]), "arguments swapped in "+one(txt(n)))
					}
				}
			}
		}
		return true
	})
	sort.SliceStable(es, func(i, j int) bool { return es[i].from < es[j].from })
	for i, e := range es {
		var b bytes.Buffer
		b.Write(src[:e.from])
		b.WriteString(e.text)
		b.Write(src[e.to:])
		base := filepath.Join(out, fmt.Sprintf("%s-%03d", prefix, i))
		line := bytes.Count(src[:e.from], []byte("\n")) + 1
		os.WriteFile(base+".go", b.Bytes(), 0o644)
		os.WriteFile(base+".txt", []byte(fmt.Sprintf("%s:%d %s\n", filepath.Base(file), line, e.what)), 0o644)
	}
	fmt.Println(file, len(es))
}
