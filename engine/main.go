package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func fatal(f string, a ...any) {
	fmt.Printf("ERROR: "+f+"\n", a...)
	os.Exit(2)
}

// RunSpec is one harness with its bounds.
type RunSpec struct {
	Pkg     string
	Harness string
	Params  map[string]int
	Reach   []string // tags that must be reached (vacuity)
	Budget  int      // seconds
	Steps   int64
	Samples int
	Bounds  string
	Race    bool // violations are reproduced with the race detector
}

func (s *RunSpec) budget() time.Duration {
	if s.Budget == 0 {
		return 120 * time.Second
	}
	return time.Duration(s.Budget) * time.Second
}

func (s *RunSpec) steps() int64 {
	if s.Steps == 0 {
		return 3_000_000
	}
	return s.Steps
}

type Check struct {
	ID       string
	Quick    []*RunSpec
	Thorough []*RunSpec
}

type Case struct {
	Harness string         `json:"harness"` // pkg.Func
	Params  map[string]int `json:"params"`
	Vals    []NDJSON       `json:"vals"`
	Msg     string         `json:"msg,omitempty"`
	Prop    string         `json:"property,omitempty"`
	Kind    string         `json:"kind,omitempty"`
	Race    bool           `json:"race,omitempty"`
}

type CaseResult struct {
	I      int      `json:"i"`
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Known  []string `json:"known"`
}

type Native struct {
	bin     string
	build   func(bin string, flags ...string) error
	race    sync.Once
	scratch string
	mu      sync.Mutex
	n       int
}

// buildNative builds the harnesses for native runs; those on PDF output come
// in a build of their own.
func buildNative(root, scratch, modfile string, pdf bool) (*Native, error) {
	files, err := overlayFiles(root)
	if err != nil {
		return nil, err
	}
	ov, _ := json.Marshal(map[string]any{"Replace": files})
	ovf := filepath.Join(scratch, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return nil, err
	}
	n := &Native{bin: filepath.Join(scratch, "native"), scratch: scratch}
	n.build = func(bin string, flags ...string) error {
		args := append([]string{"build", "-overlay", ovf, "-modfile", modfile, "-o", bin}, flags...)
		if pdf {
			args = append(args, "-tags", "verif_pdf")
		}
		cmd := exec.Command("/opt/veriftools/go1.23.12/bin/go", append(args, "./internal/verifrun")...)
		cmd.Dir = repoDir
		cmd.Env = goEnv()
		if len(flags) > 0 {
			cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
		}
		if out, err := cmd.CombinedOutput(); err != nil {
			return fmt.Errorf("native build: %v\n%s", err, out)
		}
		return nil
	}
	if err := n.build(n.bin); err != nil {
		return nil, err
	}
	return n, nil
}

// run executes cases natively, one process for as many as survive.
func (n *Native) run(cases []*Case) []CaseResult {
	n.mu.Lock()
	n.n++
	id := n.n
	n.mu.Unlock()
	res := make([]CaseResult, len(cases))
	for i := range res {
		res[i] = CaseResult{I: i, Status: "none"}
	}
	bin := n.bin
	if len(cases) > 0 && cases[0].Race {
		bin += "-race"
		n.race.Do(func() {
			if err := n.build(bin, "-race"); err != nil {
				fatal("%v", err)
			}
		})
	}
	from := 0
	for from < len(cases) {
		f := filepath.Join(n.scratch, fmt.Sprintf("cases%d.json", id))
		b, _ := json.Marshal(cases[from:])
		os.WriteFile(f, b, 0o644)
		cmd := exec.Command(bin, f)
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB", "GORACE=halt_on_error=1 exitcode=66")
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		done := make(chan error, 1)
		if err := cmd.Start(); err != nil {
			break
		}
		go func() { done <- cmd.Wait() }()
		select {
		case <-done:
		case <-time.After(60*time.Second + time.Duration(len(cases)-from)*50*time.Millisecond):
			cmd.Process.Kill()
			<-done
		}
		got := 0
		for _, l := range strings.Split(so.String(), "\n") {
			if !strings.HasPrefix(l, "{") {
				continue
			}
			var r CaseResult
			if json.Unmarshal([]byte(l), &r) != nil {
				continue
			}
			if from+r.I < len(cases) {
				k := from + r.I
				r.I = k
				res[k] = r
				got = max(got, k-from+1)
			}
		}
		if from+got < len(cases) && (got == 0 || res[from+got-1].Status != "hang") {
			// the process died on this case
			msg := se.String()
			if i := strings.Index(msg, "DATA RACE"); i >= 0 {
				msg = strings.Join(strings.Fields(msg[i:min(len(msg), i+400)]), " ")
			}
			if i := strings.Index(msg, "\n"); i > 0 {
				msg = msg[:i]
			}
			res[from+got] = CaseResult{I: from + got, Status: "crash", Msg: msg}
			got++
		}
		from += got
	}
	return res
}

type knownEntry struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	What     string `json:"what"`
	Status   string `json:"status"` // "open" or "fixed"
	Commit   string `json:"commit,omitempty"`
}

func main() {
	// the go command that builds the repository, looked up by exec and go/packages
	os.Setenv("PATH", goPath)
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(22 << 30)
	if len(os.Args) < 2 {
		fatal("usage: engine check|replay|list")
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	if r := os.Getenv("VERIF_REPO"); r != "" {
		repoDir = r
	}
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(root, os.Args[2]))
	case "replay":
		os.Exit(replay(root, os.Args[2]))
	case "list":
		for _, c := range checks {
			fmt.Println(c.ID)
		}
	default:
		fatal("unknown command")
	}
}

func replay(root, file string) int {
	scratch, err := os.MkdirTemp("", "verif-replay")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(scratch)
	mf, err := writeModfile(root, scratch)
	if err != nil {
		fatal("%v", err)
	}
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		fatal("%v", err)
	}
	nat, err := buildNative(root, scratch, mf, strings.HasPrefix(c.Harness, "pdf."))
	if err != nil {
		fatal("%v", err)
	}
	r := nat.run([]*Case{&c})[0]
	fmt.Printf("%s: %s\n", r.Status, r.Msg)
	for _, o := range r.Obs {
		fmt.Println("  observed:", strings.ReplaceAll(o, "\x1f", " "))
	}
	for _, k := range r.Known {
		fmt.Println("  known finding:", k)
	}
	if r.Status == "ok" || r.Status == "assume" {
		return 0
	}
	return 1
}

func workers() int {
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		n, _ := strconv.Atoi(s)
		return max(1, n)
	}
	return min(8, runtime.NumCPU())
}

func runCheck(root, id string) int {
	t0 := time.Now()
	if pf := os.Getenv("VERIF_PROFILE"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if os.Getenv("VERIF_SEED") == "" {
		seed = 1
	}
	var ck *Check
	for _, c := range checks {
		if c.ID == id {
			ck = c
		}
	}
	if ck == nil {
		fatal("no check %s", id)
	}
	specs := ck.Quick
	if tier == "thorough" && ck.Thorough != nil {
		specs = ck.Thorough
	}
	if f := os.Getenv("VERIF_ONLY"); f != "" {
		var ss []*RunSpec
		for _, s := range specs {
			params, _ := json.Marshal(s.Params)
			if ok, _ := regexp.MatchString(f, s.Harness+" "+string(params)); ok {
				ss = append(ss, s)
			}
		}
		specs = ss
	}
	scratch, err := os.MkdirTemp("", "verif-"+id)
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(scratch)
	mf, err := writeModfile(root, scratch)
	if err != nil {
		fatal("%v", err)
	}
	natC := make(chan any, 1)
	go func() {
		n, err := buildNative(root, scratch, mf, len(specs) > 0 && specs[0].Pkg == "pdf")
		if err != nil {
			natC <- err
			return
		}
		natC <- n
	}()
	pk := map[string]bool{}
	var pats []string
	for _, s := range specs {
		if !pk[s.Pkg] {
			pk[s.Pkg] = true
			pats = append(pats, "./internal/verifh/"+s.Pkg)
		}
	}
	pats = append(pats, "./internal/verifshim")
	var nat *Native
	natReady := sync.OnceFunc(func() {
		switch n := (<-natC).(type) {
		case *Native:
			nat = n
		case error:
			fmt.Printf("ERROR: %v\n", n)
			os.RemoveAll(scratch)
			os.Exit(2)
		}
	})
	prog, err := Load(root, mf, pats, modPath+"/internal/verifh/"+specs[0].Pkg)
	if err != nil {
		// the sources may not compile at all: nothing can be said
		fatal("%v", err)
	}
	tl := time.Since(t0)
	ms := make([]*Machine, workers())
	var wg sync.WaitGroup
	errs := make([]error, len(ms))
	for i := range ms {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ms[i] = NewMachine(prog)
			for p := range pk {
				prog2 := *prog
				prog2.harness = prog.pkgs[modPath+"/internal/verifh/"+p]
				if err := ms[i].Init(&prog2); err != nil {
					errs[i] = err
				}
			}
			ms[i].markShared()
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			fatal("%v", e)
		}
	}
	fmt.Printf("%s %s: loaded in %.1fs, init %.1fs, %d workers\n", id, tier, tl.Seconds(), time.Since(t0).Seconds()-tl.Seconds(), len(ms))

	known := loadKnown(root, id)
	outDir := filepath.Join(root, "out", "replay")
	os.MkdirAll(outDir, 0o755)
	var results []*RunResult
	var confirmed []*Case
	var confMsg []string
	knownSeen := map[string]*Case{}
	unconf := 0
	validated, mismatched, fallbackRuns := 0, 0, 0
	var mismatches []string
	var firstSamples []any
	var cmu sync.Mutex
	tryConfirm := func(s *RunSpec, v *Violation) bool {
		natReady()
		c := &Case{Harness: s.Pkg + "." + s.Harness, Params: s.Params, Vals: v.Vals, Msg: v.Msg, Prop: id, Kind: v.Kind, Race: s.Race}
		r := nat.run([]*Case{c})[0]
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Printf("  candidate %s %q vals %s -> native %s %q known %v\n", v.Kind, v.Msg, toJSON(v.Vals), r.Status, r.Msg, r.Known)
		}
		cmu.Lock()
		defer cmu.Unlock()
		for _, k := range r.Known {
			if e := known[k]; e != nil && e.Status == "open" {
				if knownSeen[k] == nil {
					knownSeen[k] = c
				}
			} else {
				c.Msg = "deviation " + k + " (not listed): " + v.Msg
				confirmed = append(confirmed, c)
				confMsg = append(confMsg, c.Msg)
				return true
			}
		}
		switch r.Status {
		case "fail", "panic", "crash", "hang":
			c.Msg = r.Msg
			if r.Status != "fail" {
				c.Msg = r.Status + ": " + r.Msg
			}
			confirmed = append(confirmed, c)
			confMsg = append(confMsg, c.Msg)
			return true
		}
		if v.Kind != "known" {
			unconf++
			mismatches = append(mismatches, fmt.Sprintf("candidate not reproduced (%s): %s %s", r.Status, v.Msg, toJSON(v.Vals)))
		}
		return false
	}
	total := 420 * time.Second
	if tier == "thorough" {
		total = 6 * time.Hour
	}
	for _, s := range specs {
		ns := s.Samples
		if ns == 0 {
			ns = 24
			if tier == "thorough" {
				ns = 100
			}
		}
		if d := os.Getenv("VERIF_DUMP"); d != "" {
			ns, _ = strconv.Atoi(d)
		}
		if left := total - time.Since(t0); left < s.budget() {
			s.Budget = max(10, int(left.Seconds()))
		}
		ex := &Explorer{p: prog, spec: s, seed: seed, nSamp: ns}
		ex.onViol = func(v *Violation) bool { return tryConfirm(s, v) }
		r := ex.Run(ms)
		results = append(results, r)
		fmt.Printf("%s.%s %s: %d paths, %d branches (%d forced), %d asserts (%d queried), %d queries (%.1fs solver), left %d, unknown %d, ended %v, max decisions %d, %.1fs\n",
			s.Pkg, s.Harness, toJSON(s.Params), r.Paths, r.Stats.Branches, r.Stats.Forced, r.Stats.Asserts, r.Stats.AssertQ, r.Solver.Queries, r.Solver.Time.Seconds(), r.Left, r.Stats.Unknown, r.Ended, r.MaxDec, r.Wall.Seconds())
		var mk []string
		for k := range r.Msgs {
			mk = append(mk, k)
		}
		sort.Slice(mk, func(i, j int) bool { return r.Msgs[mk[i]] > r.Msgs[mk[j]] })
		for i, k := range mk {
			if i >= 8 {
				break
			}
			fmt.Printf("    %d x %s\n", r.Msgs[k], k)
		}
		if len(confirmed) > 0 {
			break
		}
		// run the inputs of unfinished paths on the real build
		if len(r.Fallback) > 0 {
			natReady()
			var cs []*Case
			for _, v := range r.Fallback {
				cs = append(cs, &Case{Harness: s.Pkg + "." + s.Harness, Params: s.Params, Vals: v.Vals, Prop: id, Kind: "fallback", Race: s.Race})
			}
			for i, cr := range nat.run(cs) {
				bad := ""
				for _, k := range cr.Known {
					if e := known[k]; e == nil || e.Status != "open" {
						bad = "deviation " + k + " (not listed)"
					}
				}
				if bad == "" && (cr.Status == "fail" || cr.Status == "panic" || cr.Status == "crash" || cr.Status == "hang") {
					bad = cr.Msg
				}
				if bad != "" {
					cs[i].Msg = bad
					confirmed = append(confirmed, cs[i])
					confMsg = append(confMsg, bad)
				} else if cr.Status == "ok" {
					fallbackRuns++
				}
			}
		}
		if len(confirmed) > 0 {
			break
		}
		// validate sampled paths against the real build
		natReady()
		var cs []*Case
		for _, sm := range r.Samples {
			if os.Getenv("VERIF_DUMP") != "" {
				fmt.Printf("    path %q\n", obsText(sm.Obs))
			}
			cs = append(cs, &Case{Harness: s.Pkg + "." + s.Harness, Params: s.Params, Vals: sm.Vals, Prop: id, Kind: "sample"})
		}
		if len(cs) > 0 {
			for i, cr := range nat.run(cs) {
				sm := r.Samples[i]
				if len(firstSamples) < 6 && i < 2 {
					firstSamples = append(firstSamples, map[string]any{"harness": s.Harness, "inputs": sm.Vals, "observed": obsText(sm.Obs)})
				}
				bad := ""
				for _, k := range cr.Known {
					if e := known[k]; e == nil || e.Status != "open" {
						bad = "deviation " + k + " (not listed)"
					}
				}
				switch {
				case bad != "" || cr.Status == "fail" || cr.Status == "panic" || cr.Status == "crash" || cr.Status == "hang":
					c := cs[i]
					c.Msg = bad
					if bad == "" {
						c.Msg = cr.Msg
					}
					confirmed = append(confirmed, c)
					confMsg = append(confMsg, c.Msg)
				case cr.Status != "ok":
					mismatched++
					mismatches = append(mismatches, fmt.Sprintf("sample ended natively with %s %s: %s", cr.Status, cr.Msg, toJSON(sm.Vals)))
				default:
					same := len(cr.Obs) == len(sm.Obs)
					for j := range sm.Obs {
						if same && !obsEqual(sm.Obs[j], cr.Obs[j]) {
							same = false
						}
					}
					if !same {
						mismatched++
						mismatches = append(mismatches, fmt.Sprintf("sample observations differ: encoding %q native %q: %s", sm.Obs, cr.Obs, toJSON(sm.Vals)))
					} else {
						validated++
					}
				}
			}
		}
		if len(confirmed) > 0 {
			break
		}
	}
	for i, mm := range mismatches {
		if i < 5 {
			fmt.Println("  NOTE:", mm)
		}
	}
	// report
	rc := 0
	for i, c := range confirmed {
		if i > 0 {
			break
		}
		f := filepath.Join(outDir, fmt.Sprintf("%s.json", id))
		b, _ := json.MarshalIndent(c, "", " ")
		os.WriteFile(f, b, 0o644)
		fmt.Printf("violation: %s [%s] %s\n", confMsg[i], c.Harness, toJSON(c.Vals))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
		rc = 1
	}
	var kf []string
	for k := range knownSeen {
		kf = append(kf, k)
	}
	sort.Strings(kf)
	for _, k := range kf {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k, known[k].What)
	}
	vac := []string{}
	if rc == 0 {
		for _, r := range results {
			if r.Left > 0 || r.Stats.Unknown > 0 || r.Ended["unsupported"]+r.Ended["unknown"]+r.Ended["limit"] > 0 {
				continue // not explored completely
			}
			for _, tag := range r.Spec.Reach {
				if !r.Reach[tag] {
					vac = append(vac, r.Spec.Harness+":"+tag)
				}
			}
		}
	}
	writeEvidence(root, id, tier, seed, ck, results, validated, mismatched, fallbackRuns, unconf, mismatches, firstSamples, kf, vac, rc, time.Since(t0))
	if len(vac) > 0 {
		fmt.Printf("ERROR: never reached: %v\n", vac)
		return 2
	}
	fmt.Printf("%s: %s in %.1fs (%d sampled paths agree with the real build, %d differ)\n", id, map[int]string{0: "held", 1: "VIOLATED"}[rc], time.Since(t0).Seconds(), validated, mismatched)
	return rc
}

func obsText(o []string) []string {
	var r []string
	for _, s := range o {
		r = append(r, strings.ReplaceAll(s, "\x1f", " | "))
	}
	return r
}

func loadKnown(root, id string) map[string]*knownEntry {
	var es []*knownEntry
	b, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &es); err != nil {
			fatal("known_findings.json: %v", err)
		}
	}
	r := map[string]*knownEntry{}
	for _, e := range es {
		if e.Property == id && e.ID != "" {
			r[e.ID] = e
		}
	}
	return r
}

func writeEvidence(root, id, tier string, seed int64, ck *Check, results []*RunResult, validated, mismatched, fallbackRuns, unconf int, mm []string, samples []any, kf, vac []string, rc int, wall time.Duration) {
	var states, trans, queries, sat, unsat, unk, asserts, assertQ, left, steps int64
	var stime float64
	funcs := map[string]bool{}
	var runs []any
	inconc := int64(0)
	for _, r := range results {
		states += r.Paths
		trans += r.Stats.Branches
		queries += r.Solver.Queries
		sat += r.Solver.Sat
		unsat += r.Solver.Unsat
		unk += r.Solver.Unknown
		stime += r.Solver.Time.Seconds()
		asserts += r.Stats.Asserts
		assertQ += r.Stats.AssertQ
		left += r.Left
		steps += r.Stats.Steps
		for k, v := range r.Ended {
			if k == "unsupported" || k == "unknown" || k == "limit" {
				inconc += v
			}
		}
		for f := range r.Funcs {
			funcs[f] = true
		}
		runs = append(runs, map[string]any{
			"harness": r.Spec.Pkg + "." + r.Spec.Harness, "bounds": r.Spec.Bounds, "parameters": r.Spec.Params,
			"paths": r.Paths, "path_ends": r.Ended, "branch_points": r.Stats.Branches, "forced_branches": r.Stats.Forced,
			"merged_regions": r.Stats.Merged, "assertions_checked": r.Stats.Asserts, "assertions_sent_to_solver": r.Stats.AssertQ,
			"solver_queries": r.Solver.Queries, "solver_sat": r.Solver.Sat, "solver_unsat": r.Solver.Unsat, "solver_unknown": r.Solver.Unknown, "answered_by_cvc5": r.Solver.Second,
			"solver_cache_hits": r.Solver.CacheHits, "branches_decided_on_byte_sets": r.Solver.ByteSets, "solver_seconds": round(r.Solver.Time.Seconds()),
			"unexplored_branches_at_time_limit": r.Left, "unsupported": r.Msgs, "wall_s": round(r.Wall.Seconds()),
			"exhaustive_within_bounds": r.Left == 0 && r.Stats.Unknown == 0 && r.Ended["unsupported"]+r.Ended["unknown"]+r.Ended["limit"] == 0,
		})
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, strings.ReplaceAll(f, modPath, "latex"))
	}
	sort.Strings(fl)
	if len(samples) == 0 {
		samples = []any{"none"}
	}
	if len(mm) > 10 {
		mm = mm[:10]
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated,
			"samples":           samples,
			"exhaustive":        left == 0 && unk == 0 && inconc == 0 && rc == 0,
			"functions_encoded": fl, "runs": runs,
			"solver_queries": queries, "solver_sat": sat, "solver_unsat": unsat, "solver_unknown": unk, "solver_seconds": round(stime),
			"assertions_checked": asserts, "assertions_sent_to_solver": assertQ,
			"inconclusive_paths": inconc, "unexplored_branches": left, "interpreted_instructions": steps,
			"traces_differing_from_impl": mismatched, "candidates_not_reproduced": unconf, "unfinished_paths_run_natively": fallbackRuns, "notes": mm,
			"known_findings_seen": kf, "vacuous": vac,
		},
		"assumptions": assume(ck), "wall_s": round(wall.Seconds()), "violations": rc,
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(root, "evidence", id+".json"), b, 0o644)
}

func round(f float64) float64 { return float64(int64(f*100+0.5)) / 100 }
