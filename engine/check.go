package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// hspec is one harness run of a property's check.
type hspec struct {
	pkg   string // under verif/harness
	fn    string
	share int // weight in the time budget
	quick bool
	opt   hopt
}

type hopt struct {
	mapOrder bool
	reach    []string
	real     bool // replays use the real clock (schedules)
	quickly  int  // seconds
}

type replayResult struct {
	Fails      []string `json:"fails"`
	Obs        []string `json:"obs"`
	Infeasible bool     `json:"infeasible"`
	Crash      string   `json:"crash,omitempty"`
	Skipped    int      `json:"skipped"`
	Out        string   `json:"-"`
}

type vector struct {
	Harness string            `json:"harness"`
	Pkg     string            `json:"pkg"`
	Inputs  map[string]uint64 `json:"inputs"`
	Bounds  map[string]int    `json:"bounds"`
	Sched   []int             `json:"sched,omitempty"`
	Race    bool              `json:"race,omitempty"`
	Noise   bool              `json:"noise,omitempty"`
	Uniq    bool              `json:"uniq,omitempty"`
	Msg     string            `json:"msg,omitempty"`
	Kind    string            `json:"kind,omitempty"`
	Where   string            `json:"where,omitempty"`
}

type native struct {
	P    *Prog
	dir  string
	work string
	mu   sync.Mutex
	bins map[string]*nbin

	ready sync.WaitGroup // until P is set
}

type nbin struct {
	once sync.Once
	path string
	err  error
}

func newNative(dir, work string) *native {
	return &native{dir: dir, work: work, bins: map[string]*nbin{}}
}

// bin builds the replay binary of a harness package.
func (n *native) bin(pkg string, sched, race bool) (string, error) {
	key := fmt.Sprintf("%s-%v-%v", filepath.Base(pkg), sched, race)
	n.mu.Lock()
	b := n.bins[key]
	if b == nil {
		b = &nbin{}
		n.bins[key] = b
	}
	n.mu.Unlock()
	b.once.Do(func() {
		b.path = filepath.Join(n.work, key+".test")
		args := []string{"test", "-c", "-vet=off", "-o", b.path}
		if strings.HasSuffix(pkg, "/hsign") { // a program of its own
			args = []string{"build", "-o", b.path}
		}
		if fault := strings.HasSuffix(pkg, "/hbolt"); sched || fault {
			repl := map[string]string{}
			dir := filepath.Join(n.work, "overlay-"+key)
			if err := os.MkdirAll(dir, 0o755); err != nil {
				b.err = err
				return
			}
			if sched {
				n.ready.Wait()
				if err := n.P.instrument(dir, repl); err != nil {
					b.err = err
					return
				}
			}
			if fault {
				mf, err := n.boltFaults(dir, repl)
				if err != nil {
					b.err = err
					return
				}
				args = append(args, "-modfile", mf)
			}
			ov := filepath.Join(dir, "overlay.json")
			js, _ := json.Marshal(map[string]any{"Replace": repl})
			if err := os.WriteFile(ov, js, 0o644); err != nil {
				b.err = err
				return
			}
			args = append(args, "-overlay", ov)
		}
		if race {
			args = append(args, "-race", "-gcflags=all=-d=checkptr=0")
		}
		args = append(args, pkg)
		cmd := exec.Command("go", args...)
		cmd.Dir = n.dir
		cmd.Env = os.Environ()
		if race {
			cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
		}
		out, err := cmd.CombinedOutput()
		if err != nil {
			b.err = fmt.Errorf("building the replay binary: %v\n%s", err, out)
		}
	})
	return b.path, b.err
}

// boltFaults copies the real bolt library and adds to Commit that it can be made
// to fail, or the process to stop around it, where the model does the same. It
// returns a go.mod that uses the copy.
func (n *native) boltFaults(dir string, repl map[string]string) (string, error) {
	cmd := exec.Command("go", "list", "-f", "{{.Dir}}", "github.com/boltdb/bolt")
	cmd.Dir = n.dir
	out, err := cmd.Output()
	if err != nil {
		return "", fmt.Errorf("locating bolt: %v", err)
	}
	lib := strings.TrimSpace(string(out))
	src, err := os.ReadFile(filepath.Join(lib, "tx.go"))
	if err != nil {
		return "", err
	}
	t := string(src)
	a := strings.Replace(t, "	// TODO(benbjohnson): Use vectorized I/O to write out dirty pages.\n", `	vk := 0
	if VerifFault != nil {
		vk = VerifFault()
	}
	if vk == 1 {
		tx.rollback()
		return VerifErr
	} else if vk == 2 {
		panic(VerifStop)
	}
`, 1)
	a = strings.Replace(a, "	// Execute commit handlers now that the locks have been removed.\n", `	if vk == 3 {
		panic(VerifStop)
	}
`, 1)
	a = strings.Replace(a, "	// Clear all references.\n	tx.db = nil\n", `	for _, b := range tx.lent {
		for i := range b {
			b[i] ^= 0xa5
		}
	}
	tx.lent = nil
	tx.db = nil
`, 1)
	a = strings.Replace(a, "	stats          TxStats\n", "	stats          TxStats\n	lent           [][]byte\n", 1)
	if strings.Count(a, "VerifStop") != 2 || strings.Count(a, "lent ") != 3 || strings.Count(a, "tx.lent") != 2 {
		return "", fmt.Errorf("bolt's Commit is not as expected")
	}
	a += `
// VerifFault is asked before every commit.
var VerifFault func() int

// VerifErr is the error of a failed commit, VerifStop the panic of a stop.
var (
	VerifErr  error
	VerifStop interface{}
)

// lend hands a copy out that is spoilt when the transaction ends, as the
// memory map may be.
func (tx *Tx) lend(b []byte) []byte {
	if len(b) == 0 {
		return b
	}
	c := append([]byte(nil), b...)
	tx.lent = append(tx.lent, c)
	return c
}
`
	cp := filepath.Join(dir, "bolt")
	if err := os.MkdirAll(cp, 0o755); err != nil {
		return "", err
	}
	fs, err := os.ReadDir(lib)
	if err != nil {
		return "", err
	}
	for _, f := range fs {
		if !strings.HasSuffix(f.Name(), ".go") || strings.HasSuffix(f.Name(), "_test.go") {
			continue
		}
		c, err := os.ReadFile(filepath.Join(lib, f.Name()))
		if err != nil {
			return "", err
		}
		switch f.Name() {
		case "tx.go":
			c = []byte(a)
		case "cursor.go", "bucket.go":
			var ok bool
			if c, ok = lend(string(c)); !ok {
				return "", fmt.Errorf("bolt's %s is not as expected", f.Name())
			}
		}
		if err := os.WriteFile(filepath.Join(cp, f.Name()), c, 0o644); err != nil {
			return "", err
		}
	}
	if err := os.WriteFile(filepath.Join(cp, "go.mod"), []byte("module github.com/boltdb/bolt\n"), 0o644); err != nil {
		return "", err
	}
	g := filepath.Join(dir, "boltm_native.go")
	err = os.WriteFile(g, []byte(`package boltm

import "github.com/boltdb/bolt"

func init() {
	Native = true
	bolt.VerifErr, bolt.VerifStop = ErrFault, Stopped{}
	bolt.VerifFault = func() int {
		if Fault == nil {
			return 0
		}
		return Fault()
	}
}
`), 0o644)
	if err != nil {
		return "", err
	}
	repl[filepath.Join(n.dir, "boltm", "zz_native.go")] = g
	mod, err := os.ReadFile(filepath.Join(n.dir, "go.mod"))
	if err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(n.dir, "go.sum"))
	if err != nil {
		return "", err
	}
	mf := filepath.Join(dir, "go.mod")
	if err := os.WriteFile(mf, append(mod, ("\nreplace github.com/boltdb/bolt => "+cp+"\n")...), 0o644); err != nil {
		return "", err
	}
	return mf, os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644)
}

// lend makes bolt's public reads hand out memory that does not outlive the
// transaction: exactly what bolt promises.
func lend(src string) ([]byte, bool) {
	n := 0
	var out []string
	in := ""
	for _, l := range strings.Split(src, "\n") {
		if strings.HasPrefix(l, "func ") {
			in = l
		}
		for _, f := range []string{"(c *Cursor) First()", "(c *Cursor) Last()", "(c *Cursor) Next()", "(c *Cursor) Prev()", "(c *Cursor) Seek("} {
			if strings.HasPrefix(in, "func "+f) {
				switch strings.TrimSpace(l) {
				case "return k, v":
					l = "	return c.bucket.tx.lend(k), c.bucket.tx.lend(v)"
					n++
				case "return k, nil":
					l = "		return c.bucket.tx.lend(k), nil"
				}
			}
		}
		if strings.HasPrefix(in, "func (b *Bucket) Get(") && strings.TrimSpace(l) == "return v" {
			l = "	return b.tx.lend(v)"
			n += 5
		}
		out = append(out, l)
	}
	return []byte(strings.Join(out, "\n")), n == 5
}

// run replays one vector natively.
func (n *native) run(v *vector, tmo time.Duration) (*replayResult, error) {
	bin, err := n.bin(v.Pkg, len(v.Sched) > 0 || v.Noise || v.Uniq, v.Race)
	if err != nil {
		return nil, err
	}
	f, err := os.CreateTemp(n.work, "vec*.json")
	if err != nil {
		return nil, err
	}
	json.NewEncoder(f).Encode(v)
	f.Close()
	defer os.Remove(f.Name())
	sc, err := os.MkdirTemp(n.work, "scratch")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(sc)
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "TestReplay$", "-test.timeout", "10m")
	cmd.Dir = sc
	cmd.Env = append(os.Environ(), "SYM_VECTOR="+f.Name(), "TMPDIR="+sc, "GORACE=halt_on_error=1", "GOTRACEBACK=all")
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	cmd.WaitDelay = time.Second
	err = cmd.Run()
	out := buf.String()
	res := &replayResult{Out: out}
	if i := strings.LastIndex(out, "\nSYMRESULT "); i >= 0 {
		l := out[i+len("\nSYMRESULT "):]
		if j := strings.IndexByte(l, '\n'); j >= 0 {
			l = l[:j]
		}
		json.Unmarshal([]byte(l), res)
		if err == nil {
			return res, nil
		}
	}
	if ctx.Err() != nil {
		res.Crash = "hang"
		return res, nil
	}
	switch {
	case strings.Contains(out, "DATA RACE"):
		res.Crash = "data race"
	case strings.Contains(out, "deadlock"):
		res.Crash = "deadlock"
	case strings.Contains(out, "panic:"):
		i := strings.Index(out, "panic:")
		res.Crash = firstLine(out[i:])
	case strings.Contains(out, "fatal error:"):
		i := strings.Index(out, "fatal error:")
		res.Crash = firstLine(out[i:])
	default:
		return nil, fmt.Errorf("native run failed: %v: %s", err, tail(out, 2000))
	}
	return res, nil
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}
func tail(s string, n int) string {
	if len(s) > n {
		s = s[len(s)-n:]
	}
	return s
}

func (res *replayResult) bad() bool {
	return !res.Infeasible && (len(res.Fails) > 0 || res.Crash != "")
}

type checkReport struct {
	Harness     string         `json:"harness"`
	Bounds      map[string]int `json:"bounds"`
	Paths       int64          `json:"paths"`
	Ends        string         `json:"ends"`
	Left        int            `json:"paths_left_when_time_ran_out"`
	Steps       int64          `json:"ssa_instructions"`
	Asserts     int64          `json:"assertions_decided"`
	Trivial     int64          `json:"assertions_decided_by_simplification"`
	Functions   int            `json:"functions_encoded"`
	Repo        []string       `json:"repo_functions_encoded"`
	Unknown     map[string]int `json:"unknown,omitempty"`
	Incomplete  map[string]int `json:"incomplete_paths,omitempty"`
	Missing     []string       `json:"unreached_labels,omitempty"`
	Seconds     float64        `json:"seconds"`
	Violations  []string       `json:"violations,omitempty"`
	Inconcl     []string       `json:"inconclusive,omitempty"`
	Validated   int            `json:"traces_validated"`
	Mismatch    []string       `json:"trace_mismatches,omitempty"`
	Preemptions int            `json:"preemption_bound,omitempty"`
}

func cmdCheck(args []string) int {
	if len(args) < 1 {
		fmt.Println("usage: symgo check <property> [quick|thorough]")
		return 2
	}
	id := args[0]
	tier := os.Getenv("VERIF_TIER")
	if len(args) > 1 {
		tier = args[1]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	specs, ok := table[id]
	if !ok {
		fmt.Println("unknown property", id)
		return 2
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	t0 := time.Now()
	work, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(work)
	nat := newNative(filepath.Join(root, "harness"), work)
	nat.ready.Add(1)
	budget := 100 * time.Second
	if tier == "thorough" {
		budget = 720 * time.Second
	}
	if s := os.Getenv("SYMGO_BUDGET"); s != "" {
		if d, e := time.ParseDuration(s); e == nil {
			budget = d
		}
	}
	var pkgs []string
	seen := map[string]bool{}
	total := 0
	for _, s := range specs {
		if !seen[s.pkg] {
			seen[s.pkg] = true
			pkgs = append(pkgs, harnessPath[:len(harnessPath)]+"/"+s.pkg)
		}
		if s.share == 0 {
			s.share = 1
		}
		total += s.share
	}
	// the replay binaries are built while the exploration runs
	for _, p := range pkgs {
		go nat.bin(p, false, false)
	}
	known := loadKnown(filepath.Join(root, "known-findings.txt"), id)
	evdir := filepath.Join(root, "evidence")
	os.MkdirAll(evdir, 0o755)
	if old, _ := filepath.Glob(filepath.Join(evdir, id+"-*.json")); old != nil { // counterexamples of earlier runs
		for _, f := range old {
			os.Remove(f)
		}
	}
	var reports []*checkReport
	var samples []any
	var states, trans int64
	validated, nviol := 0, 0
	printed := map[string]bool{}
	bad := false
	P, err := load(filepath.Join(root, "harness"), pkgs...)
	if err != nil {
		fmt.Printf("NOT-ENCODED property=%s %v\n", id, err)
		// the tree does not load: nothing was decided
		return 2
	}
	loadT := time.Since(t0)
	nat.P = P
	nat.ready.Done()
	deadline := t0.Add(budget)
	for i, s := range specs {
		share := s.share
		if share == 0 {
			share = 1
		}
		left := time.Until(deadline)
		mine := left * time.Duration(share) / time.Duration(max(total, 1))
		if i == len(specs)-1 {
			mine = left
		}
		total -= share
		if mine < 5*time.Second {
			mine = 5 * time.Second
		}
		full := harnessPath + "/" + s.pkg
		P.opt.mapOrder = s.opt.mapOrder
		fn := P.pkgs[full].Func(s.fn)
		if fn == nil {
			fmt.Println("no harness", s.fn)
			return 2
		}
		X := newExplorer(P, s.fn, fn)
		X.thorough = tier == "thorough"
		X.deadline = time.Now().Add(mine)
		ht := time.Now()
		var cross []string
		if os.Getenv("SYMGO_CROSS") != "0" {
			cross = cvc5bin()
		}
		X.run(8, z3bin(), cross)
		r := &checkReport{Harness: s.pkg + "." + s.fn, Bounds: X.bounds, Paths: X.paths, Ends: strings.TrimSpace(endCounts(X.ends[:])), Left: X.left, Steps: X.steps, Asserts: X.asserts, Trivial: X.trivial,
			Functions: len(X.funcs), Unknown: X.unknowns, Incomplete: X.endMsgs, Seconds: time.Since(ht).Seconds(), Preemptions: X.preempts}
		for f := range X.funcs {
			if strings.Contains(f, "powerpuffpenguin/sessionid") {
				r.Repo = append(r.Repo, f)
			}
		}
		sort.Strings(r.Repo)
		for _, l := range s.opt.reach {
			if !X.reach[l] {
				r.Missing = append(r.Missing, l)
			}
		}
		for _, h := range X.hostErrs {
			fmt.Println("ENGINE-ERROR", h)
		}
		reports = append(reports, r)
		states += X.paths
		trans += X.steps
		// counterexamples
		byMsg := map[string][]*violation{}
		var order []string
		for _, v := range X.viols {
			k := v.Kind + "|" + v.Msg
			if byMsg[k] == nil {
				order = append(order, k)
			}
			byMsg[k] = append(byMsg[k], v)
		}
		sort.Strings(order)
		nrep := 0
		for _, k := range order {
			if nrep >= 12 {
				break
			}
			done := false
			var last string
			for _, v := range byMsg[k] {
				vec := &vector{Harness: s.fn, Pkg: full, Inputs: v.Model, Bounds: X.bounds, Msg: v.Msg, Kind: v.Kind, Where: v.Where}
				for _, e := range v.Sched {
					vec.Sched = append(vec.Sched, e.G)
				}
				nrep++
				res, how := replay(nat, vec, v, s)
				if res == nil {
					last = how
					continue
				}
				done = true
				if kf := known.match(v.Msg, s.fn); kf != "" {
					if !printed[kf] {
						printed[kf] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, kf)
					}
					break
				}
				nviol++
				bad = true
				file := filepath.Join(evdir, fmt.Sprintf("%s-%s-%d.json", id, s.fn, nviol))
				b, _ := json.MarshalIndent(vec, "", " ")
				os.WriteFile(file, b, 0o644)
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
				fmt.Printf("  %s.%s: %s: %s\n  at %s\n  confirmed natively: %s\n", s.pkg, s.fn, v.Kind, v.Msg, v.Where, how)
				r.Violations = append(r.Violations, v.Kind+": "+v.Msg)
				break
			}
			if !done {
				r.Inconcl = append(r.Inconcl, k+": "+last)
				fmt.Printf("INCONCLUSIVE property=%s %s.%s: %s did not reproduce natively: %s\n", id, s.pkg, s.fn, k, last)
			}
		}
		// sampled paths: the native run must observe the same
		var wg sync.WaitGroup
		var mu sync.Mutex
		sem := make(chan bool, 8)
		for _, w := range X.witnesses {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				res, err := nat.run(&vector{Harness: s.fn, Pkg: full, Inputs: w.Model, Bounds: X.bounds}, 60*time.Second)
				mu.Lock()
				defer mu.Unlock()
				if err != nil {
					r.Mismatch = append(r.Mismatch, err.Error())
					return
				}
				if res.bad() || res.Infeasible || strings.Join(res.Obs, "\n") != strings.Join(w.Obs, "\n") {
					r.Mismatch = append(r.Mismatch, fmt.Sprintf("inputs %v: symbolic %q native %q fails %q %s", w.Model, w.Obs, res.Obs, res.Fails, res.Crash))
					return
				}
				r.Validated++
			}()
		}
		wg.Wait()
		for i, m := range r.Mismatch {
			if i < 3 {
				fmt.Printf("ENGINE-MISMATCH %s.%s %s\n", s.pkg, s.fn, m)
			}
		}
		validated += r.Validated
		for i, w := range X.witnesses {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": s.fn, "inputs": w.Model, "observed": w.Obs})
			}
		}
		fmt.Printf("%s.%s: paths %d (%s) left %d, asserts %d, violations %d, validated %d, %.1fs\n", s.pkg, s.fn, X.paths, r.Ends, X.left, X.asserts, len(r.Violations), r.Validated, r.Seconds)
		for _, m := range sortedKeys(X.endMsgs) {
			fmt.Printf("  incomplete: %d x %s\n", X.endMsgs[m], m)
		}
		for _, m := range sortedKeys(X.unknowns) {
			fmt.Printf("  solver gave up: %d x %s\n", X.unknowns[m], m)
		}
		if len(r.Missing) > 0 {
			fmt.Printf("  VACUOUS: never reached %v\n", r.Missing)
		}
	}
	if samples == nil {
		samples = []any{}
	}
	if len(samples) == 0 {
		for _, r := range reports {
			samples = append(samples, map[string]any{"harness": r.Harness, "paths": r.Paths, "ends": r.Ends})
		}
	}
	exhaustive := true
	for _, r := range reports {
		if r.Left > 0 || len(r.Incomplete) > 0 || len(r.Unknown) > 0 {
			exhaustive = false
		}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": time.Since(t0).Seconds(), "violations": nviol,
		"assumptions": assumptions(specs),
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
			"states_are":                 "symbolic paths explored to their end (each stands for every input satisfying its path condition)",
			"transitions_are":            "SSA instructions executed symbolically",
			"harnesses":                  reports,
			"all_paths_within_bounds":    exhaustive,
			"solver":                     "z3-new -in, one process per worker; about every 97th query and every 23rd unsat one repeated with cvc5",
			"queries":                    gStats.Queries,
			"queries_answered_by_cache":  gStats.CacheHits,
			"sat":                        gStats.Sat,
			"unsat":                      gStats.Unsat,
			"unknown":                    gStats.Unknown,
			"integer_encoding":           gStats.LIA,
			"bitvector_encoding":         gStats.BV,
			"cross_checked_with_cvc5":    gStats.Cross,
			"cross_check_disagreements":  gStats.Disagree,
			"solver_seconds":             time.Duration(gStats.Nanos).Seconds(),
			"load_and_ssa_build_seconds": loadT.Seconds(),
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	if bad {
		return 1
	}
	return 0
}

// replay decides whether a counterexample is real.
func replay(nat *native, vec *vector, v *violation, s hspec) (*replayResult, string) {
	if len(vec.Sched) > 0 || v.Kind == "race" {
		return replaySched(nat, vec, v)
	}
	res, err := nat.run(vec, 20*time.Second)
	if err != nil {
		return nil, err.Error()
	}
	if res.bad() {
		return res, describe(res)
	}
	for n := range vec.Inputs {
		if strings.HasPrefix(n, "uuid.") || strings.HasPrefix(n, "rand.") {
			// again, with the random values the solver chose
			vec.Uniq = true
			if res, err = nat.run(vec, 20*time.Second); err != nil {
				return nil, err.Error()
			}
			if res.bad() {
				return res, describe(res)
			}
			break
		}
	}
	return nil, fmt.Sprintf("fails %q obs %q", res.Fails, tail(strings.Join(res.Obs, " | "), 300))
}

func describe(res *replayResult) string {
	if res.Crash != "" {
		return res.Crash
	}
	s := strings.Join(res.Fails, "; ")
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

// replaySched replays a schedule: first forced, point by point, then, if the
// forced run does not fail, under random delays at the same points.
func replaySched(nat *native, vec *vector, v *violation) (*replayResult, string) {
	last := ""
	if v.Kind != "race" {
		for i := 0; i < 4; i++ {
			res, err := nat.run(vec, 20*time.Second)
			if err != nil {
				return nil, err.Error()
			}
			if res.bad() && (res.Crash != "hang" || v.Kind == "deadlock") {
				return res, "forced schedule: " + describe(res)
			}
			last = fmt.Sprintf("forced schedule passed, %d entries skipped, obs %q", res.Skipped, tail(strings.Join(res.Obs, " | "), 300))
		}
	}
	nv := *vec
	nv.Noise, nv.Race = true, v.Kind == "race"
	if _, err := nat.bin(vec.Pkg, true, nv.Race); err != nil {
		return nil, err.Error()
	}
	var mu sync.Mutex
	var got *replayResult
	stop := time.Now().Add(25 * time.Second)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 60; i++ {
				mu.Lock()
				done := got != nil || time.Now().After(stop)
				mu.Unlock()
				if done {
					return
				}
				res, err := nat.run(&nv, 20*time.Second)
				if err == nil && res.bad() && (res.Crash != "hang" || v.Kind == "deadlock") {
					mu.Lock()
					got = res
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	if got != nil {
		vec.Noise, vec.Race = nv.Noise, nv.Race
		return got, "random delays: " + describe(got)
	}
	return nil, last
}

type knownSet struct{ ents []knownEnt }
type knownEnt struct{ harness, msg, text string }

// loadKnown reads lines "finding: property=<id> harness=<h> msg=<substring> | <what fails>".
func loadKnown(file, id string) *knownSet {
	k := &knownSet{}
	b, err := os.ReadFile(file)
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+id+" ")
		i := strings.Index(l, " | ")
		if i < 0 {
			continue
		}
		e := knownEnt{text: l[i+3:]}
		spec := l[:i]
		if j := strings.Index(spec, "msg="); j >= 0 {
			e.msg = spec[j+4:]
			spec = spec[:j]
		}
		if j := strings.Index(spec, "harness="); j >= 0 {
			e.harness = strings.TrimSpace(spec[j+8:])
		}
		k.ents = append(k.ents, e)
	}
	return k
}

func (k *knownSet) match(msg, harness string) string {
	for _, e := range k.ents {
		if e.msg != "" && strings.Contains(msg, e.msg) && (e.harness == "" || e.harness == harness) {
			return e.text
		}
	}
	return ""
}
