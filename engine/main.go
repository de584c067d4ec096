package main

// gosym: solver-based checking of the Go code in /repo.

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	fRepo    = flag.String("repo", "/repo", "code under test")
	fHarness = flag.String("harness", "/verif/harness", "harness overlay tree")
	fProp    = flag.String("prop", "", "property id")
	fOnly    = flag.String("only", "", "regexp on harness names")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fOut     = flag.String("out", "/verif/evidence", "evidence directory")
	fKnown   = flag.String("known", "/verif/known_findings.json", "known findings")
	fWorkers = flag.Int("workers", 0, "parallel workers")
	fBudget  = flag.Float64("budget", 0, "seconds per property")
	fVerbose = flag.Bool("v", false, "verbose")
	fNoRep   = flag.Bool("noreplay", false, "skip native replay (development)")
	fReplay  = flag.String("replay", "", "replay a case file against the real code")
	fList    = flag.Bool("list", false, "list harnesses")
	fProfile = flag.String("cpuprofile", "", "write cpu profile")
	fMaxP    = flag.Int("maxpaths", 0, "path limit per harness")
)

var hname = regexp.MustCompile(`^([A-Z][0-9]{2,3})_`)

type Known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Match    string `json:"match"` // regexp on "message @ where"
	What     string `json:"what"`
}

type KnownFile struct {
	Findings []Known  `json:"findings"`
	Fixed    []string `json:"fixed"`
}

func fatal(code int, f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(code)
}

func main() {
	flag.Parse()
	if *fProfile != "" {
		f, _ := os.Create(*fProfile)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	code := run()
	if *fProfile != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

func findHarnesses(p *Program) []*Harness {
	var hs []*Harness
	for _, pk := range p.pkgs {
		sp := p.prog.Package(pk.Types)
		if sp == nil || !strings.HasPrefix(pk.PkgPath, modPath+"/verifh/") {
			continue
		}
		for name, m := range sp.Members {
			fn, ok := m.(*ssa.Function)
			if !ok || !hname.MatchString(name) || !ast.IsExported(name) {
				continue
			}
			if fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 0 {
				continue
			}
			hs = append(hs, &Harness{Name: name, Pkg: pk.PkgPath, Fn: fn})
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	return hs
}

// reachLabels lists the labels declared in the harness and its closures.
func reachLabels(fn *ssa.Function) []string {
	var out []string
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				if g := c.Call.StaticCallee(); g != nil && g.String() == ndPath+".Reach" {
					if k, ok := c.Call.Args[0].(*ssa.Const); ok {
						out = append(out, constant.StringVal(k.Value))
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(fn)
	sort.Strings(out)
	return out
}

func run() int {
	t0 := time.Now()
	if *fReplay != "" {
		return replayFile(*fReplay)
	}
	p, err := loadProgram(*fRepo, *fHarness)
	if err != nil {
		fatal(2, "gosym: %v", err)
	}
	loadS := time.Since(t0).Seconds()
	all := findHarnesses(p)
	if *fList {
		for _, h := range all {
			fmt.Println(h.Name, h.Pkg, strings.Join(reachLabels(h.Fn), ","))
		}
		return 0
	}
	tier := 0
	if *fTier == "thorough" {
		tier = 1
	}
	var hs []*Harness
	var only *regexp.Regexp
	if *fOnly != "" {
		only = regexp.MustCompile(*fOnly)
	}
	for _, h := range all {
		if *fProp != "" && hname.FindStringSubmatch(h.Name)[1] != *fProp {
			continue
		}
		if only != nil && !only.MatchString(h.Name) {
			continue
		}
		if strings.HasSuffix(h.Name, "_Thorough") && tier == 0 && only == nil {
			continue
		}
		h.Tier = tier
		hs = append(hs, h)
	}
	if len(hs) == 0 {
		fatal(2, "gosym: no harness for %s", *fProp)
	}
	workers := *fWorkers
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	budget := *fBudget
	if budget == 0 {
		budget = 240
		if tier == 1 {
			budget = 780
		}
	}
	hardEnd := t0.Add(time.Duration(budget * float64(time.Second)))
	var nat *Native
	if !*fNoRep {
		nat = buildNative(*fRepo, *fHarness, hs)
		defer nat.cleanup()
	}
	qt := 4000
	if tier == 1 {
		qt = 40000
	}
	solvers := make([]*Solver, workers)
	for i := range solvers {
		s, err := newSolver(qt)
		if err != nil {
			fatal(2, "gosym: solver: %v", err)
		}
		solvers[i] = s
	}
	defer func() {
		for _, s := range solvers {
			s.close()
		}
	}()
	var results []*HResult
	for i, h := range hs {
		left := time.Until(hardEnd)
		share := left
		if n := len(hs) - i; n > 1 {
			// later harnesses keep at least an equal share of what is left
			share = left * 2 / time.Duration(n+1)
		}
		if share < 2*time.Second {
			share = 2 * time.Second
		}
		ex := &Explorer{prog: p, h: h, deadline: time.Now().Add(share), maxPaths: 2000000, maxSteps: 3000000, nSamples: 4, stopOnV: true, qTimeout: qt}
		if tier == 1 {
			ex.maxSteps = 20000000
		}
		if *fMaxP > 0 {
			ex.maxPaths = *fMaxP
		}
		r := ex.run(workers, solvers)
		r.Labels = reachLabels(h.Fn)
		results = append(results, r)
		if *fVerbose {
			printResult(r)
		}
	}
	return conclude(p, hs, results, nat, tier, time.Since(t0).Seconds(), loadS)
}

func printResult(r *HResult) {
	fmt.Printf("%-44s paths=%d done=%d infeas=%d dec=%d forced=%d asserts=%d steps=%d viol=%d unk=%d timeout=%v %.1fs\n",
		r.Harness, r.Paths, r.Done, r.Infeasible, r.Decisions, r.Forced, r.Asserts, r.Steps, len(r.Violations), r.Unknown, r.TimedOut, r.Wall)
	for k, v := range r.Unsupported {
		fmt.Printf("   UNSUPPORTED x%d %s\n", v, k)
	}
	for k, v := range r.Bounded {
		fmt.Printf("   BOUND x%d %s\n", v, k)
	}
	for _, l := range r.Labels {
		if r.Reached[l] == 0 {
			fmt.Printf("   UNREACHED %s\n", l)
		}
	}
	seen := map[string]bool{}
	for _, v := range r.Violations {
		k := v.Message + " @ " + v.Where
		if seen[k] {
			continue
		}
		seen[k] = true
		b, _ := json.Marshal(v.Inputs)
		fmt.Printf("   VIOL %s   %s\n", k, tail(string(b), 1200))
	}
}

type sampleOut struct {
	Harness string    `json:"harness"`
	Inputs  []NDJSON  `json:"inputs"`
	Obs     []ObsJSON `json:"observations"`
}

func conclude(p *Program, hs []*Harness, results []*HResult, nat *Native, tier int, wall, loadS float64) int {
	prop := *fProp
	if prop == "" {
		prop = hname.FindStringSubmatch(hs[0].Name)[1]
	}
	known := KnownFile{}
	if b, err := os.ReadFile(*fKnown); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fatal(2, "gosym: %s: %v", *fKnown, err)
		}
	}
	funcs := map[string]bool{}
	var paths, done, decisions, asserts, unknown, forced, steps int64
	var samples []sampleOut
	var reduced []string
	validated, mismatches := 0, []string{}
	harnessInfo := []map[string]interface{}{}
	natErr := ""
	if nat != nil {
		if err := nat.wait(); err != nil {
			natErr = err.Error()
			fmt.Fprintln(os.Stderr, "gosym: "+natErr)
		}
	}
	confirmed, unconfirmed := []*Case{}, []*Case{}
	knownHits := map[string]bool{}
	for _, r := range results {
		paths += int64(r.Paths)
		done += int64(r.Done)
		decisions += r.Decisions
		forced += r.Forced
		asserts += r.Asserts
		unknown += r.Unknown
		steps += r.Steps
		for f := range r.Funcs {
			if !strings.Contains(f, "/verifh/") && !strings.Contains(f, "/verifnd") {
				funcs[shortFn(f)] = true
			}
		}
		unre := []string{}
		for _, l := range r.Labels {
			if r.Reached[l] == 0 {
				unre = append(unre, l)
			}
		}
		if r.TimedOut {
			reduced = append(reduced, r.Harness+": time budget ended before every path was explored")
		}
		for k, v := range r.Unsupported {
			reduced = append(reduced, fmt.Sprintf("%s: %d path(s) not encoded: %s", r.Harness, v, k))
		}
		for k, v := range r.Bounded {
			reduced = append(reduced, fmt.Sprintf("%s: %d path(s) cut at a bound: %s", r.Harness, v, k))
		}
		if len(unre) > 0 {
			reduced = append(reduced, r.Harness+": not reached: "+strings.Join(unre, ", "))
		}
		harnessInfo = append(harnessInfo, map[string]interface{}{
			"harness": r.Harness, "paths": r.Paths, "complete_paths": r.Done, "infeasible": r.Infeasible,
			"decisions": r.Decisions, "assertions_discharged": r.Asserts, "exhaustive_within_bounds": !r.TimedOut && len(r.Unsupported) == 0 && len(r.Bounded) == 0,
			"witnesses_reached": r.Reached, "wall_s": round(r.Wall), "instructions": r.Steps,
		})
		for i, c := range r.Samples {
			if i < 2 && len(samples) < 12 {
				samples = append(samples, sampleOut{c.Harness, c.Inputs, c.Obs})
			}
		}
		// replay
		if nat != nil && natErr == "" {
			rs, err := nat.run(r.Samples)
			if err != nil {
				natErr = err.Error()
			}
			for i, x := range rs {
				c := r.Samples[i]
				if why := mismatch(c, x); why != "" {
					mismatches = append(mismatches, c.Harness+": "+why)
				} else {
					validated++
				}
			}
			// one case per distinct violation, a few attempts each
			groups := map[string][]*Case{}
			var order []string
			for _, v := range r.Violations {
				k := v.Message + " @ " + v.Where
				if _, ok := groups[k]; !ok {
					order = append(order, k)
				}
				if len(groups[k]) < 6 {
					groups[k] = append(groups[k], v)
				}
			}
			for _, k := range order {
				if w := matchKnown(known, prop, groups[k][0]); w != "" {
					knownHits[w] = true
					continue
				}
				ok := false
				for _, v := range groups[k] {
					tries := 1
					if strings.Contains(v.Harness, "MapOrder") || strings.Contains(v.Harness, "Nondet") {
						tries = 60
					}
					for t := 0; t < tries && !ok; t++ {
						rs, err := nat.run([]*Case{v})
						if err != nil || len(rs) == 0 {
							break
						}
						if len(rs[0].Failures) > 0 || rs[0].Panic != "" {
							ok = true
							v.Message += " [native: " + strings.Join(rs[0].Failures, "; ") + rs[0].Panic + "]"
							confirmed = append(confirmed, v)
						} else if t == tries-1 {
							v.Message += fmt.Sprintf(" [native run did not fail: diverged=%q assume=%v]", rs[0].Diverged, rs[0].AssumeFail)
						}
					}
					if ok {
						break
					}
				}
				if !ok {
					unconfirmed = append(unconfirmed, groups[k][0])
				}
			}
		} else {
			seen := map[string]bool{}
			for _, v := range r.Violations {
				k := v.Message + v.Where
				if w := matchKnown(known, prop, v); w != "" {
					knownHits[w] = true
					continue
				}
				if !seen[k] {
					seen[k] = true
					unconfirmed = append(unconfirmed, v)
				}
			}
		}
	}
	sort.Strings(reduced)
	for _, k := range known.Findings {
		if k.Property == prop {
			hit := ""
			if !knownHits[k.What] {
				hit = " (not observed in this run)"
			}
			if hit == "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
			} else {
				reduced = append(reduced, "known finding"+hit+": "+k.What)
			}
		}
	}
	for _, m := range mismatches {
		fmt.Fprintln(os.Stderr, "gosym: encoding mismatch: "+m)
	}
	for _, v := range unconfirmed {
		fmt.Fprintf(os.Stderr, "gosym: unconfirmed counterexample: %s: %s @ %s\n", v.Harness, v.Message, v.Where)
	}
	repDir := filepath.Join(*fOut, "replays")
	var vpaths []string
	for i, v := range confirmed {
		os.MkdirAll(repDir, 0o755)
		path := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", prop, i))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, b, 0o644)
		vpaths = append(vpaths, path)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Printf("  %s: %s @ %s\n", v.Harness, v.Message, v.Where)
	}
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed, _ = strconv.Atoi(s)
	}
	exhaustive := len(reduced) == 0
	if reduced == nil {
		reduced = []string{}
	}
	unc := []string{}
	for _, v := range unconfirmed {
		unc = append(unc, v.Harness+": "+v.Message+" @ "+v.Where)
	}
	ev := map[string]interface{}{
		"property": prop, "tier": *fTier, "seed": seed, "level": "model_checking",
		"wall_s": round(wall), "violations": len(confirmed),
		"coverage": map[string]interface{}{
			"states": paths, "transitions": decisions, "traces_validated_against_impl": validated,
			"samples": samples, "exhaustive": exhaustive && len(unconfirmed) == 0,
			"complete_paths": done, "assertions_discharged": asserts, "forced_branches": forced,
			"unknown_answers": unknown, "instructions": steps,
			"functions_encoded": sortedKeys(funcs), "functions_encoded_count": len(funcs),
			"harnesses": harnessInfo, "not_covered_in_this_run": reduced,
			"solver":                  map[string]interface{}{"queries": stats.Queries, "sat": stats.SatN, "unsat": stats.UnsatN, "unknown": stats.UnknownN, "fallbacks": stats.Fallbacks, "seconds_summed_over_workers": round(float64(stats.SolverNS) / 1e9)},
			"encoding_mismatches":     mismatches,
			"unconfirmed":             unc,
			"native_replay_error":     natErr,
			"load_and_ssa_s":          round(loadS),
			"paths_are":               "one symbolic execution path through the real code each (states); transitions are symbolic branch decisions",
			"bounds":                  "see DESIGN.md; the harness arguments (lengths, counts, tiers) are the bounds",
		},
		"assumptions": []string{
			"the blockchain hook, wasm instance and memory are the harness's models; wasm code is replaced by symbolic choices of API calls",
			"hash functions are uninterpreted; JSON documents round-trip exactly",
		},
	}
	os.MkdirAll(*fOut, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal(2, "gosym: %v", err)
	}
	if err := os.WriteFile(filepath.Join(*fOut, prop+".json"), b, 0o644); err != nil {
		fatal(2, "gosym: %v", err)
	}
	fmt.Printf("property=%s tier=%s harnesses=%d paths=%d assertions=%d queries=%d validated=%d violations=%d unconfirmed=%d gaps=%d wall=%.1fs\n",
		prop, *fTier, len(results), paths, asserts, stats.Queries, validated, len(confirmed), len(unconfirmed), len(reduced), wall)
	for _, g := range reduced {
		fmt.Println("  gap: " + g)
	}
	switch {
	case len(confirmed) > 0:
		return 1
	case done == 0:
		fmt.Fprintln(os.Stderr, "gosym: nothing was explored to the end")
		return 2
	}
	return 0
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func matchKnown(k KnownFile, prop string, c *Case) string {
	for _, f := range k.Findings {
		if f.Property != prop || (f.Harness != "" && f.Harness != c.Harness) {
			continue
		}
		if ok, _ := regexp.MatchString(f.Match, c.Message+" @ "+c.Where); ok {
			return f.What
		}
	}
	return ""
}

func mismatch(c *Case, x NativeResult) string {
	if x.Diverged != "" {
		return "native run diverged: " + x.Diverged
	}
	if x.AssumeFail {
		return "native run failed an assumption"
	}
	if x.Panic != "" {
		return "native run panicked: " + x.Panic
	}
	if len(x.Failures) > 0 {
		return "native run failed: " + strings.Join(x.Failures, "; ")
	}
	if len(x.Obs) != len(c.Obs) {
		return fmt.Sprintf("%d observations natively, %d symbolically", len(x.Obs), len(c.Obs))
	}
	for i := range x.Obs {
		if x.Obs[i] != c.Obs[i] {
			return fmt.Sprintf("observation %s: native %s, symbolic %s", x.Obs[i].Label, x.Obs[i].Val, c.Obs[i].Val)
		}
	}
	return ""
}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal(2, "%v", err)
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		fatal(2, "%v", err)
	}
	h := &Harness{Name: c.Harness, Pkg: c.Pkg}
	n := buildNative(*fRepo, *fHarness, []*Harness{h})
	defer n.cleanup()
	if err := n.wait(); err != nil {
		fatal(2, "%v", err)
	}
	rs, err := n.run([]*Case{&c})
	if err != nil {
		fatal(2, "%v", err)
	}
	o, _ := json.MarshalIndent(rs, "", " ")
	fmt.Println(string(o))
	if len(rs) > 0 && (len(rs[0].Failures) > 0 || rs[0].Panic != "") {
		return 1
	}
	return 0
}
