package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"time"
)

func main() {
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(12 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: symgo run|list|check|selftest")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "list":
		var ids []string
		for id := range table {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "selftest":
		os.Exit(cmdSelftest(os.Args[2:]))
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	dir := fs.String("dir", "/verif/harness", "")
	pkg := fs.String("pkg", "verif/harness/hcore", "")
	fn := fs.String("fn", "", "")
	tmo := fs.Duration("t", 60*time.Second, "")
	workers := fs.Int("w", 8, "")
	verbose := fs.Bool("v", false, "")
	thorough := fs.Bool("thorough", false, "")
	mapOrder := fs.Bool("maporder", false, "")
	prof := fs.String("prof", "", "")
	maxp := fs.Int64("n", 0, "")
	fs.Parse(args)
	t0 := time.Now()
	P, err := load(*dir, *pkg)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	P.opt.mapOrder = *mapOrder
	t1 := time.Now()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	f := P.pkgs[*pkg].Func(*fn)
	if f == nil {
		fmt.Fprintln(os.Stderr, "no such harness")
		os.Exit(2)
	}
	X := newExplorer(P, *fn, f)
	X.thorough = *thorough
	X.verbose = *verbose
	X.maxPaths = *maxp
	X.deadline = time.Now().Add(*tmo)
	X.run(*workers, z3bin(), nil)
	X.report(t1.Sub(t0), time.Since(t1))
}

func (X *Explorer) report(ld, ex time.Duration) {
	fmt.Printf("%s: paths %d (%v) left %d, steps %d, asserts %d (trivial %d), load %v explore %v\n", X.name, X.paths, endCounts(X.ends[:]), X.left, X.steps, X.asserts, X.trivial, ld.Round(time.Millisecond), ex.Round(time.Millisecond))
	fmt.Printf("  solver: queries %d cache %d sat %d unsat %d unknown %d lia %d bv %d cross %d disagree %d time %v\n", gStats.Queries, gStats.CacheHits, gStats.Sat, gStats.Unsat, gStats.Unknown, gStats.LIA, gStats.BV, gStats.Cross, gStats.Disagree, time.Duration(gStats.Nanos).Round(time.Millisecond))
	fmt.Printf("  bounds %v reach %v\n", X.bounds, sortedStrs(X.reach))
	for _, k := range sortedKeys(X.endMsgs) {
		fmt.Printf("  end %d x %s\n", X.endMsgs[k], k)
	}
	for _, k := range sortedKeys(X.notes) {
		fmt.Printf("  note %d x %s\n", X.notes[k], k)
	}
	for _, k := range sortedKeys(X.unknowns) {
		fmt.Printf("  unknown %d x %s\n", X.unknowns[k], k)
	}
	for _, e := range X.hostErrs {
		fmt.Println("  HOST", e)
	}
	sort.Slice(X.viols, func(i, j int) bool { return X.viols[i].Msg < X.viols[j].Msg })
	seen := map[string]bool{}
	for _, v := range X.viols {
		if seen[v.Msg] {
			continue
		}
		seen[v.Msg] = true
		fmt.Printf("  VIOL (%d) %s: %s\n    at %s\n    %v\n", X.violSeen[v.Kind+"|"+v.Msg], v.Kind, v.Msg, v.Where, v.Model)
		for _, o := range v.Obs {
			fmt.Println("      ", o)
		}
	}
	if len(X.viols) == 0 {
		for i, w := range X.witnesses {
			if i < 2 {
				fmt.Println("  witness", w.Model, w.Obs)
			}
		}
	}
}

func endCounts(e []int64) string {
	s := ""
	for i, n := range e {
		if n > 0 {
			s += fmt.Sprintf(" %s:%d", endName[i], n)
		}
	}
	return s
}
