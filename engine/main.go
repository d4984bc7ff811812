package main

import (
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	prop := flag.String("prop", "", "property id")
	only := flag.String("only", "", "run only this entry")
	budget := flag.Int("budget", 0, "seconds of exploration")
	workers := flag.Int("j", 0, "workers")
	verbose := flag.Bool("v", false, "verbose")
	replayF := flag.String("replay", "", "replay a recorded violation natively")
	flag.Parse()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	t0 := time.Now()
	for _, e := range goEnv() {
		k, v, _ := strings.Cut(e, "=")
		os.Setenv(k, v)
	}
	tmp, err := os.MkdirTemp("", "gosymx-")
	if err != nil {
		fmt.Println("cannot create a scratch directory:", err)
		os.Exit(2)
	}
	cleanup := func() { os.RemoveAll(tmp) }
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	go func() { <-sig; cleanup(); os.Exit(2) }()
	code := check(*repo, *verif, *prop, *only, *budget, *workers, *verbose, *replayF, tier, seed, tmp, t0)
	cleanup()
	os.Exit(code)
}

func check(repo, verif, prop, only string, budget, workers int, verbose bool, replayF, tier string, seed int64, tmp string, t0 time.Time) int {
	r := &Run{prop: prop, tier: tier, seed: seed, repo: repo, verif: verif, tmp: tmp, verbose: verbose,
		solverMS: 10000, maxSteps: 3000000, workers: workers,
		binDone: make(chan bool), entries: map[string]*EntryStat{}, samples: map[string][]*Cand{}, unsup: map[string]int{},
		cuts: map[string]int{}, bounds: map[string]bool{}, assumps: map[string]bool{}, funcs: map[string]bool{},
		asserts: map[string]*assertStat{}, candN: map[string]int{}, rng: rand.New(rand.NewSource(seed + 7))}
	if tier == "thorough" {
		r.solverMS = 60000
		r.maxSteps = 20000000
	}
	if r.workers == 0 {
		r.workers = runtime.NumCPU()
		if r.workers > 8 {
			r.workers = 8
		}
	}
	kf, err := readFindings(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	r.kf = kf
	l, err := load(repo, verif, tmp, prop)
	if err != nil {
		fmt.Println("load:", err)
		return r.incomplete(t0, "the packages could not be loaded: "+err.Error())
	}
	if len(l.errs) > 0 {
		for _, e := range l.errs {
			fmt.Println("type error:", e)
		}
		return r.incomplete(t0, "type errors: "+l.errs[0])
	}
	r.l = l
	if l.degraded != "" {
		fmt.Println("note: entries needing internals of the repository left out:", l.degraded)
		r.assumption("entries that reach into the repository's internals were left out on this tree: " + l.degraded)
	}
	if only != "" {
		l.entries = strings.Split(only, ",")
	}
	go r.buildBin()
	if replayF != "" {
		return r.replayOnly(replayF)
	}
	if budget == 0 {
		budget = 240
		if tier == "thorough" {
			budget = 720
		}
	}
	r.deadline = t0.Add(time.Duration(budget) * time.Second)
	if verbose {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs, %d entries\n", time.Since(t0).Seconds(), len(l.entries))
	}
	r.runAll()
	explored := time.Since(t0)
	validated, mismatch := 0, []string{}
	if len(r.confirmed) == 0 {
		validated, mismatch = r.validate()
	}
	return r.finish(t0, explored, validated, mismatch)
}

// validate replays sampled paths and compares observations.
func (r *Run) validate() (int, []string) {
	var cs []*Cand
	keys := []string{}
	for k := range r.samples {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		for _, c := range r.samples[k] {
			if c != nil {
				r.nid++
				c.ID = r.nid
				cs = append(cs, c)
			}
		}
	}
	for _, c := range cs {
		c.Sched = false // one run each; any schedule must pass
	}
	res := r.replay(cs, 1)
	n := 0
	var bad []string
	for _, c := range cs {
		x := res[c.ID]
		if x == nil || !x.started {
			continue
		}
		if f := x.failure(); f != "" {
			r.judge(c, x)
			continue
		}
		if c.Kind == "unsupported" {
			continue
		}
		if x.Diverged != "" {
			bad = append(bad, c.Task+": "+x.Diverged)
			continue
		}
		same := len(x.Obs) == len(c.Obs)
		why := "number of observations"
		for i := 0; same && i < len(c.Obs); i++ {
			if x.Obs[i].N != c.Obs[i][0] || x.Obs[i].V != c.Obs[i][1] {
				same = false
				why = fmt.Sprintf("%s: engine %s, compiled %s=%s", c.Obs[i][0], c.Obs[i][1], x.Obs[i].N, x.Obs[i].V)
			}
		}
		if !same {
			bad = append(bad, c.Task+": "+why)
			if r.verbose {
				fmt.Fprintln(os.Stderr, "mismatch", c.Task, why, c.Vals)
			}
			continue
		}
		c.Matched = true
		n++
	}
	return n, bad
}

func (r *Run) replayOnly(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var c Cand
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Println(err)
		return 2
	}
	if !r.waitBin() {
		fmt.Println(r.binErr)
		return 2
	}
	res := r.replay([]*Cand{&c}, 300)
	if f := res[c.ID].failure(); f != "" {
		fmt.Println("reproduced:", f)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

func (r *Run) incomplete(t0 time.Time, why string) int {
	ev := map[string]interface{}{
		"property": r.prop, "tier": r.tier, "seed": r.seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []string{},
			"incomplete": why,
		},
		"wall_s": time.Since(t0).Seconds(), "violations": 0,
	}
	r.writeEvidence(ev)
	fmt.Println("INCOMPLETE", why)
	return 0
}

func (r *Run) writeEvidence(ev map[string]interface{}) {
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(r.verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(r.verif, "evidence", r.prop+".json"), append(js, '\n'), 0o644)
}

func (r *Run) finish(t0 time.Time, explored time.Duration, validated int, mismatch []string) int {
	writeCover()
	states, trans, paths := 0, 0, 0
	unfinished := 0
	ents := map[string]interface{}{}
	for k, e := range r.entries {
		paths += e.Paths
		states += e.Paths + e.Infeasible + e.Violating + e.Unsupported + e.Panics + e.Deadlocks + e.Cut + e.Steps + e.Forks
		trans += e.Insns
		unfinished += e.Unfinished
		ents[k] = e
	}
	samples := []interface{}{}
	keys := []string{}
	for k := range r.samples {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		for i, c := range r.samples[k] {
			if c != nil && i < 2 && len(samples) < 40 && c.Kind == "sample" {
				samples = append(samples, map[string]interface{}{"task": c.Task, "inputs": shortVals(c.Vals), "observations": shortObs(c.Obs), "replayed_and_equal": c.Matched})
			}
		}
	}
	var trivial, solver, unknown int
	for _, a := range r.asserts {
		trivial += a.Trivial
		solver += a.Solver
		unknown += a.Unknown
	}
	nUns := 0
	for _, n := range r.unsup {
		nUns += n
	}
	nKnown := map[string]*Cand{}
	for _, c := range r.known {
		k := r.isKnown(c)
		nKnown[k.What] = c
	}
	exhaustive := unfinished == 0 && nUns == 0 && len(r.cuts) == 0 && len(r.confirmed) == 0 && r.sstats.Unknown == 0
	var unconf []interface{}
	for _, c := range r.unconf {
		if len(unconf) < 20 {
			unconf = append(unconf, map[string]interface{}{"task": c.Task, "kind": c.Kind, "msg": c.Msg, "where": c.Where, "inputs": shortVals(c.Vals), "native": firstLine(c.Native)})
		}
	}
	var bounds []string
	bounds = append(bounds, sortedKeys(r.bounds)...)
	cov := map[string]interface{}{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
		"completed_paths":     paths,
		"functions_encoded":   sortedKeys(r.funcs),
		"bounds":              bounds,
		"assertions":          r.asserts,
		"assertion_instances": map[string]int{"decided_by_solver": solver, "constant_true_on_path": trivial, "undecided": unknown},
		"solver": map[string]interface{}{"binary": "z3 4.8.12", "queries": r.sstats.Queries, "sat": r.sstats.Sat, "unsat": r.sstats.Unsat,
			"unknown": r.sstats.Unknown, "time_s": r.sstats.Time.Seconds(), "answered_from_cache": r.sstats.CacheHit,
			"answered_by_current_model": r.sstats.ModelHit, "answered_by_byte_domain": r.sstats.Domain},
		"entries":    ents,
		"exhaustive": exhaustive,
	}
	if len(mismatch) > 0 {
		if len(mismatch) > 20 {
			mismatch = mismatch[:20]
		}
		cov["engine_mismatch"] = mismatch
	}
	if nUns > 0 {
		cov["unsupported_paths"] = r.unsup
	}
	if len(r.cuts) > 0 {
		cov["cut_paths"] = r.cuts
	}
	if unfinished > 0 {
		cov["unfinished_tasks"] = unfinished
	}
	if len(unconf) > 0 {
		cov["candidates_not_reproduced"] = unconf
	}
	if r.binErr != nil {
		cov["replay_build_error"] = r.binErr.Error()
	}
	ev := map[string]interface{}{
		"property": r.prop, "tier": r.tier, "seed": r.seed, "level": "model_checking", "coverage": cov,
		"assumptions": append([]string{}, sortedKeys(r.assumps)...), "wall_s": time.Since(t0).Seconds(), "violations": len(r.confirmed),
	}
	r.writeEvidence(ev)
	fmt.Printf("%s %s: %d entries, %d paths, %d states, %d transitions, solver %d queries %.1fs (unknown %d), assertions %d by solver + %d constant, %d traces validated, wall %.1fs, exhaustive within bounds: %v\n",
		r.prop, r.tier, len(r.entries), paths, states, trans, r.sstats.Queries, r.sstats.Time.Seconds(), r.sstats.Unknown, solver, trivial, validated, time.Since(t0).Seconds(), exhaustive)
	show := func(name string, m map[string]int) {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i, k := range ks {
			if i >= 15 {
				fmt.Printf("  ... %d more\n", len(ks)-i)
				break
			}
			fmt.Printf("  %s x%d: %s\n", name, m[k], k)
		}
	}
	show("unsupported", r.unsup)
	show("cut", r.cuts)
	if unfinished > 0 {
		fmt.Printf("  unfinished tasks: %d\n", unfinished)
		if r.verbose {
			for k, e := range r.entries {
				if e.Unfinished > 0 {
					fmt.Printf("    %s: %d of %d\n", k, e.Unfinished, e.Tasks)
				}
			}
		}
	}
	for _, m := range mismatch {
		fmt.Println("  engine/implementation mismatch:", m)
	}
	for i, c := range r.unconf {
		if i < 10 {
			fmt.Printf("  not reproduced natively (%s): %s: %s [%s] at %s\n", c.Native, c.Entry, c.Msg, c.Kind, c.Where)
			if r.verbose {
				for _, o := range c.Obs {
					if b, err := hex.DecodeString(o[1]); err == nil {
						fmt.Printf("      %s = %q\n", o[0], b)
					}
				}
			}
			if r.verbose {
				fmt.Println("     ", shortVals(c.Vals))
			}
		}
	}
	if r.binErr != nil {
		fmt.Println("  replay build failed:", r.binErr)
	}
	var ks []string
	for k := range nKnown {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, k)
	}
	if len(r.confirmed) == 0 {
		if r.binErr != nil && len(r.unconf) > 0 {
			return 2
		}
		return 0
	}
	dir := filepath.Join(r.verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	seen := map[string]bool{}
	for _, c := range r.confirmed {
		key := c.Entry + c.Msg
		if seen[key] {
			continue
		}
		seen[key] = true
		p := filepath.Join(dir, fmt.Sprintf("%s_%d.json", r.prop, c.ID))
		js, _ := json.MarshalIndent(c, "", " ")
		os.WriteFile(p, js, 0o644)
		fmt.Printf("  %s [%s] %s\n    inputs %s\n    native: %s\n", c.Task, c.Kind, c.Msg, shortVals(c.Vals), firstLine(c.Native))
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, p)
	}
	return 1
}

// shortVals renders inputs compactly, byte runs as quoted text.
func shortVals(vs []NV) string {
	var b strings.Builder
	for i := 0; i < len(vs); {
		if vs[i].K == "Byte" {
			j := i
			var t []byte
			for j < len(vs) && vs[j].K == "Byte" {
				t = append(t, byte(vs[j].V))
				j++
			}
			fmt.Fprintf(&b, "%q ", t)
			i = j
			continue
		}
		switch vs[i].K {
		case "Int", "Int64", "Uint64", "Case", "Choose":
			fmt.Fprintf(&b, "%s=%d ", vs[i].K, int64(vs[i].V))
		default:
			fmt.Fprintf(&b, "%s=%d ", vs[i].K, vs[i].V)
		}
		i++
		if b.Len() > 400 {
			b.WriteString("...")
			break
		}
	}
	return strings.TrimSpace(b.String())
}

func shortObs(o [][2]string) []string {
	var out []string
	for i, x := range o {
		if i > 12 {
			break
		}
		v := x[1]
		if len(v) > 200 {
			v = v[:200] + "..."
		}
		out = append(out, x[0]+"="+v)
	}
	return out
}

// readFindings parses known_findings.txt. Lines:
//
//	known: property=ID entry=H_X msg="assertion text" what fails
//	fixed: property=ID commit what failed
//
// Only known: lines have an effect.
func readFindings(p string) ([]KnownFinding, error) {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil, nil
	}
	var out []KnownFinding
	for i, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		var k KnownFinding
		f := strings.SplitN(l, " ", 4)
		if len(f) < 4 || f[0] != "known:" || !strings.HasPrefix(f[1], "property=") || !strings.HasPrefix(f[2], "entry=") || !strings.HasPrefix(f[3], "msg=") {
			return nil, fmt.Errorf("known_findings.txt:%d: cannot parse", i+1)
		}
		q, err := strconv.QuotedPrefix(f[3][4:])
		if err != nil {
			return nil, fmt.Errorf("known_findings.txt:%d: %v", i+1, err)
		}
		k.Status, k.Property, k.Entry = "known", f[1][9:], f[2][6:]
		k.Msg, _ = strconv.Unquote(q)
		k.What = strings.TrimSpace(f[3][4+len(q):])
		out = append(out, k)
	}
	return out, nil
}
