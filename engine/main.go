package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	fProp    = flag.String("prop", "", "property id")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fHarness = flag.String("harness", "", "only harnesses matching this regexp")
	fRepo    = flag.String("repo", "/repo", "repository")
	fVerif   = flag.String("verif", "/verif", "verification directory")
	fWorkers = flag.Int("workers", 0, "workers")
	fSolver  = flag.String("solver", "", "z3, z3-new or cvc5")
	fV       = flag.Bool("v", false, "verbose")
	fNoMerge = flag.Bool("nomerge", false, "no state merging")
	fNoNat   = flag.Bool("nonative", false, "skip native runs")
	fReplay  = flag.String("replay", "", "replay file")
	fProf    = flag.String("cpuprofile", "", "profile")
	fMax     = flag.Int("seconds", 0, "total seconds")
	fFirst   = flag.Bool("first", false, "stop after the first harness with a confirmed violation")
)

type violation struct {
	Harness  string            `json:"harness"`
	Kind     string            `json:"kind"`
	Label    string            `json:"label"`
	Msg      string            `json:"msg"`
	Inputs   map[string]uint64 `json:"inputs"`
	Delays   map[string]int64  `json:"delays,omitempty"`
	Sched    []SchedEv         `json:"schedule,omitempty"`
	Tier     int               `json:"tier"`
	Outs     []OutEv           `json:"outs,omitempty"`
	Native   string            `json:"native_outcome"`
	NatLog   string            `json:"native_log,omitempty"`
	Readable map[string]string `json:"readable_inputs,omitempty"`
	Replay   string            `json:"replay_command"`
}

func tierNum(s string) int {
	if s == "thorough" {
		return 1
	}
	return 0
}

func main() {
	flag.Parse()
	if *fProf != "" {
		f, _ := os.Create(*fProf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	code := 2
	func() {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(engineErr); ok {
					fmt.Fprintln(os.Stderr, "symgo:", e.msg)
					return
				}
				panic(r)
			}
		}()
		if *fReplay != "" {
			code = doReplay()
			return
		}
		code = check()
	}()
	pprof.StopCPUProfile()
	killSolvers()
	os.Exit(code)
}

func wantSched(fns []HarnessFn) bool {
	for _, f := range fns {
		if f.Opts["sched"] != "" {
			return true
		}
	}
	return false
}

func prepare(prop string) (Setup, map[string][]byte, []HarnessFn, error) {
	st := Setup{Repo: *fRepo, Verif: *fVerif, Prop: prop}
	_, fns, err := scanHarness(st.Verif, prop)
	if err != nil {
		return st, nil, nil, err
	}
	st.Sched = wantSched(fns)
	ov, fns, err := buildOverlay(st)
	return st, ov, fns, err
}

func doReplay() int {
	b, err := ioutil.ReadFile(*fReplay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	m := regexp.MustCompile(`VH_(C\d\d)_`).FindStringSubmatch(v.Harness)
	if m == nil {
		fmt.Fprintln(os.Stderr, "bad replay file")
		return 2
	}
	st, ov, fns, err := prepare(m[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	n := startNative(st, ov, fns, v.Tier)
	defer n.close()
	tries := 1
	for i := 0; i < tries; i++ {
		r, err := n.run(v.Harness, v.Inputs, v.Delays)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("native outcome: %s %s\n", r.Kind, r.Label)
		for _, o := range r.Outs {
			fmt.Println("  out", o.Label, o.Vals)
		}
		if *fV || r.Log != "" {
			fmt.Println(tail(r.Log, 3000))
		}
		if violKinds[r.Kind] {
			return 1
		}
		if v.Kind == "select" {
			tries = 30
		}
	}
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

type known struct {
	prop, key, text string
	hit             bool
}

func loadKnown(prop string) []*known {
	var ks []*known
	b, err := ioutil.ReadFile(filepath.Join(*fVerif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^open: property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil && m[1] == prop {
			ks = append(ks, &known{prop: m[1], key: m[2], text: m[3]})
		}
	}
	return ks
}

func check() int {
	t0 := time.Now()
	tier := tierNum(*fTier)
	st, ov, fns, err := prepare(*fProp)
	if err != nil {
		fmt.Fprintln(os.Stderr, "symgo:", err)
		return 2
	}
	allFns := fns
	if *fHarness != "" {
		re := regexp.MustCompile(*fHarness)
		var sel []HarnessFn
		for _, f := range fns {
			if re.MatchString(f.Name) {
				sel = append(sel, f)
			}
		}
		fns = sel
	}
	var nat *Native
	if !*fNoNat {
		nat = startNative(st, ov, allFns, tier)
		defer nat.close()
	}
	e, err := loadEngine(st, ov)
	if err != nil {
		fmt.Fprintln(os.Stderr, "symgo:", err)
		return 2
	}
	e.tier = tier
	loadT := time.Since(t0)
	nw := *fWorkers
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	total := 420 * time.Second
	if tier == 1 {
		total = 780 * time.Second
	}
	if *fMax > 0 {
		total = time.Duration(*fMax) * time.Second
	}
	deadline := t0.Add(total)
	var workers []*Worker
	e.opt = Options{Solver: *fSolver}
	for i := 0; i < nw; i++ {
		workers = append(workers, newWorker(e, i))
	}
	knowns := loadKnown(*fProp)
	var confirmed []*violation
	var unconfirmed []*violation
	var mismatches []string
	var results []*Result
	validated := int64(0)
	var samples []interface{}
	vacuous := []string{}
	infra := ""
	for hi, h := range fns {
		if *fFirst && len(confirmed) > 0 {
			break
		}
		left := time.Until(deadline)
		share := left / time.Duration(len(fns)-hi)
		if share < 5*time.Second {
			share = 5 * time.Second
		}
		opt := Options{MaxDepth: 400, MaxSteps: 3000000, MaxConc: 300, Workers: nw, Solver: *fSolver, MaxViol: 12, NoMerge: *fNoMerge || h.Opts["nomerge"] != "", MapPerm: h.Opts["mapperm"] != ""}
		geti := func(k string, d int64) int64 {
			if tier == 1 && h.Opts[k+"_t"] != "" {
				k += "_t"
			}
			if v, err := strconv.ParseInt(h.Opts[k], 10, 64); err == nil {
				return v
			}
			return d
		}
		opt.MaxSteps = geti("steps", opt.MaxSteps)
		opt.MaxDepth = int(geti("depth", int64(opt.MaxDepth)))
		opt.MaxConc = int(geti("conc", int64(opt.MaxConc)))
		opt.MaxPaths = geti("paths", 0)
		if s := time.Duration(geti("time", 0)) * time.Second; s > 0 && s < share {
			share = s
		}
		if len(confirmed) > 0 && share > 30*time.Second {
			share = 30 * time.Second // the verdict is known: the other harnesses only add detail
		}
		opt.Deadline = time.Now().Add(share)
		e.opt = opt
		r := e.Explore(h.Name, e.lookupFn(pkgPath(h.Dir), h.Name), workers)
		results = append(results, r)
		printForks()
		fmt.Printf("%s: %d paths %v, %d asserts by solver, %d by simplification, %d queries (%d cached, %d on one byte), solver %.1fs, %d instructions, %d merges, complete=%v %s, %.1fs\n", h.Name, r.Paths, r.Kinds, r.Asserts, r.AssertsT, r.Queries, r.CacheHits, r.ByteQ, r.SolverT.Seconds(), r.Steps, r.Merged, r.Complete, r.Why, r.Wall.Seconds())
		if len(r.Unsup) > 0 {
			for k, v := range r.Unsup {
				fmt.Printf("  outside the encoding (%d): %s\n", v, tail(k, 1500))
			}
		}
		for _, l := range h.Reach {
			if r.Reach[l] == 0 {
				vacuous = append(vacuous, h.Name+":"+l)
			}
		}
		if *fV {
			fmt.Println("  reach", r.Reach)
			for _, s := range r.Samples {
				fmt.Println("  sample", readable(s.Inputs), s.Outs)
			}
		}
		// native confirmation
		seen := map[string]bool{}
		for _, p := range r.Viol {
			key := p.Kind + "|" + p.Label + "|" + stripSym(p.Msg)
			if seen[key] {
				continue
			}
			v := &violation{Harness: h.Name, Kind: p.Kind, Label: p.Label, Msg: p.Msg, Inputs: p.Inputs, Delays: p.Delays, Sched: p.Sched, Tier: tier, Outs: p.Outs, Readable: readable(p.Inputs)}
			if nat == nil {
				unconfirmed = append(unconfirmed, v)
				seen[key] = true
				continue
			}
			tries := 1
			if p.NSel > 0 {
				tries = 30
			}
			ok := false
			for i := 0; i < tries && !ok; i++ {
				nr, err := nat.run(h.Name, p.Inputs, p.Delays)
				if err != nil {
					infra = err.Error()
					break
				}
				v.Native = nr.Kind + " " + nr.Label
				v.NatLog = tail(nr.Log, 4000)
				ok = violKinds[nr.Kind]
			}
			if ok {
				seen[key] = true
				confirmed = append(confirmed, v)
			} else {
				unconfirmed = append(unconfirmed, v)
			}
		}
		// translation validation on sample paths
		if nat != nil {
			var wg sync.WaitGroup
			var mu sync.Mutex
			sem := make(chan bool, 8)
			for _, p := range r.Samples {
				if p.hasUF || p.NSel > 0 {
					continue
				}
				wg.Add(1)
				sem <- true
				go func(p *PathEnd) {
					defer func() { <-sem; wg.Done() }()
					nr, err := nat.run(h.Name, p.Inputs, p.Delays)
					mu.Lock()
					defer mu.Unlock()
					if err != nil {
						infra = err.Error()
						return
					}
					if nr.Kind == "ok" && sameOuts(p.Outs, nr.Outs) {
						validated++
						return
					}
					b, _ := json.Marshal(p)
					nb, _ := json.Marshal(nr)
					mismatches = append(mismatches, h.Name+": symbolic "+tail(string(b), 1500)+" native "+tail(string(nb), 1500)+" "+tail(nr.Log, 1500))
					if violKinds[nr.Kind] {
						// the real code fails on this input whatever the encoding says
						confirmed = append(confirmed, &violation{Harness: h.Name, Kind: nr.Kind, Label: nr.Label, Msg: "the real code violates the property on a replayed path", Inputs: p.Inputs, Delays: p.Delays, Sched: p.Sched, Tier: tier, Native: nr.Kind + " " + nr.Label, NatLog: tail(nr.Log, 4000), Readable: readable(p.Inputs)})
					}
				}(p)
			}
			wg.Wait()
		}
		for i, s := range r.Samples {
			if i < 4 {
				samples = append(samples, map[string]interface{}{"harness": h.Name, "inputs": readable(s.Inputs), "observed": s.Outs, "schedule": s.Sched})
			}
		}
	}
	if infra != "" {
		fmt.Fprintln(os.Stderr, "symgo: native replay:", infra)
		if len(infra) > 0 && len(confirmed) == 0 {
			// without the replay nothing can be confirmed
			writeEvidence(e, st, fns, results, samples, validated, mismatches, vacuous, confirmed, unconfirmed, loadT, time.Since(t0), infra)
			return 2
		}
	}
	// report
	exit := 0
	rdir := filepath.Join(*fVerif, "evidence", "replay")
	os.MkdirAll(rdir, 0755)
	old, _ := filepath.Glob(filepath.Join(rdir, *fProp+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	rep := map[string]bool{}
	var reported []*violation
	for _, v := range confirmed {
		key := v.Harness + "|" + v.Kind + "|" + v.Label
		if rep[key+v.Msg] {
			continue
		}
		rep[key+v.Msg] = true
		isKnown := false
		for _, k := range knowns {
			if k.key == key {
				isKnown = true
				if !k.hit {
					k.hit = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *fProp, k.text)
				}
			}
		}
		if isKnown {
			continue
		}
		reported = append(reported, v)
		f := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", *fProp, len(reported)))
		v.Replay = "/verif/check.sh replay " + f
		b, _ := json.MarshalIndent(v, "", " ")
		ioutil.WriteFile(f, b, 0644)
		fmt.Printf("  %s %s: %s; inputs %v; native: %s\n", v.Harness, v.Kind, tail(v.Msg, 800), v.Readable, v.Native)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, f)
		exit = 1
	}
	for _, v := range unconfirmed {
		fmt.Printf("  not reproduced on the real code (not reported): %s %s: %s inputs %v sched %v native: %s\n", v.Harness, v.Kind, tail(v.Msg, 1200), v.Readable, v.Sched, v.Native)
	}
	for i, m := range mismatches {
		if i < 6 {
			fmt.Println("  encoding mismatch:", m)
		}
	}
	if len(mismatches) > 6 {
		fmt.Printf("  ... %d mismatches\n", len(mismatches))
	}
	if len(vacuous) > 0 {
		fmt.Println("  never reached:", vacuous)
	}
	for _, w := range workers {
		w.s.stop()
	}
	writeEvidence(e, st, fns, results, samples, validated, mismatches, vacuous, reported, unconfirmed, loadT, time.Since(t0), "")
	fmt.Printf("%s %s: validated %d sample paths natively, %d mismatches, %d violations, wall %.1fs\n", *fProp, *fTier, validated, len(mismatches), len(reported), time.Since(t0).Seconds())
	return exit
}

func pkgPath(dir string) string {
	if dir == "" {
		return modPath
	}
	return modPath + "/" + dir
}

// readable groups byte inputs into quoted strings.
func readable(in map[string]uint64) map[string]string {
	out := map[string]string{}
	groups := map[string]map[int]byte{}
	for k, v := range in {
		if i := strings.LastIndex(k, "."); i > 0 && strings.Contains(k[:i], "#") {
			if n, err := strconv.Atoi(k[i+1:]); err == nil {
				g := groups[k[:i]]
				if g == nil {
					g = map[int]byte{}
					groups[k[:i]] = g
				}
				g[n] = byte(v)
				continue
			}
		}
		out[k] = strconv.FormatInt(int64(v), 10)
	}
	for k, g := range groups {
		b := make([]byte, len(g))
		for i := range b {
			b[i] = g[i]
		}
		out[k] = strconv.Quote(string(b))
	}
	return out
}

func writeEvidence(e *Engine, st Setup, fns []HarnessFn, rs []*Result, samples []interface{}, validated int64, mism, vac []string, viol, unconf []*violation, loadT, wall time.Duration, infra string) {
	var paths, steps, queries, cached, dec, asserts, assertsT, merged int64
	var solver time.Duration
	funcs := map[string]int64{}
	complete := true
	var incomplete []string
	var hs []map[string]interface{}
	bounds := map[string]string{}
	ends := map[string]int64{}
	for i, r := range rs {
		paths += r.Paths
		steps += r.Steps
		queries += r.Queries
		cached += r.CacheHits
		dec += r.Decisions
		asserts += r.Asserts
		assertsT += r.AssertsT
		merged += r.Merged
		solver += r.SolverT
		for k, v := range r.Kinds {
			ends[k] += v
		}
		for n, f := range r.Funcs {
			if f.Target && f.Hits > 0 {
				funcs[strings.TrimPrefix(n, modPath+"/")] += f.Hits
			}
		}
		if !r.Complete {
			complete = false
			incomplete = append(incomplete, r.Harness+": "+r.Why)
		}
		bounds[r.Harness] = fns[i].Bound
		hs = append(hs, map[string]interface{}{"harness": r.Harness, "paths": r.Paths, "path_ends": r.Kinds, "assertions_by_solver": r.Asserts, "assertions_by_simplification": r.AssertsT, "solver_queries": r.Queries, "single_byte_queries_decided_over_all_values": r.ByteQ, "solver_s": round(r.SolverT.Seconds()), "instructions": r.Steps, "exhausted_within_bounds": r.Complete, "wall_s": round(r.Wall.Seconds()), "reached": r.Reach, "outside_encoding": r.Unsup})
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if samples == nil {
		samples = []interface{}{}
	}
	cov := map[string]interface{}{
		"states": paths, "transitions": steps, "traces_validated_against_impl": validated, "samples": samples,
		"states_meaning":      "symbolic paths explored to their end (each covers every input satisfying its path condition)",
		"transitions_meaning": "SSA instructions executed symbolically",
		"functions_encoded":   fl, "bounds": bounds, "solver_queries": queries, "solver_queries_cached": cached, "solver_s": round(solver.Seconds()),
		"assertions_by_solver": asserts, "assertions_by_simplification": assertsT, "branch_decisions": dec, "merged_regions": merged, "path_ends": ends,
		"exhausted_within_bounds": complete, "incomplete": incomplete, "harnesses": hs, "encoding_mismatches": mism, "unreached_labels": vac,
		"unreproduced_counterexamples": unconf, "load_s": round(loadT.Seconds()),
	}
	ev := map[string]interface{}{
		"property": *fProp, "tier": *fTier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(wall.Seconds()),
		"assumptions": []string{"go/ssa translation and the engine's models of the Go runtime, sync, time and fmt (validated on the sampled paths against native runs)", "SMT solver verdicts (z3)"},
		"violations":  len(viol),
	}
	if infra != "" {
		cov["infrastructure_error"] = infra
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0755)
	ioutil.WriteFile(filepath.Join(*fVerif, "evidence", *fProp+".json"), b, 0644)
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }
