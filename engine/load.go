package main

import (
	_ "embed"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// library code too low-level to execute is replaced by its documented
// behaviour, written in Go.
//
//go:embed std/sync_map.go.txt
var stdSyncMap []byte

const (
	repoPath    = "github.com/powerpuffpenguin/sessionid"
	harnessPath = "verif/harness"
)

type progOpts struct {
	mapOrder bool
}

type Prog struct {
	repoPkgs []*packages.Package
	prog     *ssa.Program
	fset     *token.FileSet
	pkgs     map[string]*ssa.Package
	closure  map[string]bool // packages linked by importing the library's signing package alone
	redirect map[string]*ssa.Function
	opt      progOpts

	rtErr     types.Type
	hostErr   types.Type
	hostHash  types.Type
	hostRType types.Type
	anyT      types.Type
	ioWrite   *types.Func
	ioRead    *types.Func

	inits  sync.Map // *ssa.Package -> *shared
	ninits uint32
	lookMu sync.Mutex
	look   map[lookKey]*ssa.Function
	msets  map[types.Type]*types.MethodSet
}

type lookKey struct {
	t    types.Type
	name string
}

func (P *Prog) isRepo(path string) bool {
	return path == repoPath || strings.HasPrefix(path, repoPath+"/")
}

func (P *Prog) isModel(path string) bool { return strings.HasPrefix(path, harnessPath) }

// eager: initialisers of these packages run with their importer's.
func (P *Prog) eager(path string) bool { return P.isRepo(path) || P.isModel(path) }

func hostNamed(name string) types.Type {
	pkg := types.NewPackage("verif/host", "host")
	return types.NewNamed(types.NewTypeName(token.NoPos, pkg, name, nil), types.NewStruct(nil, nil), nil)
}

func load(dir string, patterns ...string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  dir,
		Env:  append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=readonly"),
	}
	if out, err := exec.Command("go", "env", "GOROOT").Output(); err == nil {
		src := filepath.Join(strings.TrimSpace(string(out)), "src")
		cfg.Overlay = map[string][]byte{filepath.Join(src, "sync", "map.go"): stdSyncMap}
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	P := &Prog{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, closure: map[string]bool{}, redirect: map[string]*ssa.Function{}, look: map[lookKey]*ssa.Function{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	packages.Visit(ps, nil, func(p *packages.Package) {
		if P.isRepo(p.PkgPath) {
			P.repoPkgs = append(P.repoPkgs, p)
		}
	})
	packages.Visit(ps, nil, func(p *packages.Package) {
		if p.PkgPath == repoPath+"/cryptoer" {
			packages.Visit([]*packages.Package{p}, nil, func(q *packages.Package) { P.closure[q.PkgPath] = true })
		}
	})
	P.rtErr = hostNamed("runtimeError")
	P.hostErr = hostNamed("hostError")
	P.hostHash = hostNamed("hostHash")
	P.hostRType = hostNamed("hostRType")
	P.anyT = types.NewInterfaceType(nil, nil)
	if io := P.pkgs["io"]; io != nil {
		m := func(n string) *types.Func {
			return io.Pkg.Scope().Lookup(n).Type().Underlying().(*types.Interface).Method(0)
		}
		P.ioWrite, P.ioRead = m("Writer"), m("Reader")
	}
	// models standing in for a library: function Bucket_Put replaces
	// (*pkg.Bucket).Put, function Open replaces pkg.Open, and so on.
	for _, rd := range []struct{ model, lib string }{
		{harnessPath + "/boltm", "github.com/boltdb/bolt"},
	} {
		mp := P.pkgs[rd.model]
		if mp == nil {
			continue
		}
		for name, m := range mp.Members {
			f, ok := m.(*ssa.Function)
			if !ok || name == "init" || !token.IsExported(name) {
				continue
			}
			if t, meth, ok := strings.Cut(name, "_"); ok {
				P.redirect["(*"+rd.lib+"."+t+")."+meth] = f
			} else {
				P.redirect[rd.lib+"."+name] = f
			}
		}
	}
	return P, nil
}

func (P *Prog) timeType(name string) types.Type {
	return P.pkgs["time"].Pkg.Scope().Lookup(name).Type()
}

// lookup finds the method name on the concrete type t.
func (P *Prog) lookup(t types.Type, pkg *types.Package, name string) *ssa.Function {
	key := lookKey{t, name}
	if pkg != nil && !token.IsExported(name) {
		key.name = pkg.Path() + "." + name
	}
	P.lookMu.Lock()
	defer P.lookMu.Unlock()
	if f, ok := P.look[key]; ok {
		return f
	}
	var f *ssa.Function
	ms := P.prog.MethodSets.MethodSet(t)
	if sel := ms.Lookup(pkg, name); sel != nil {
		f = P.prog.MethodValue(sel)
	}
	P.look[key] = f
	return f
}
