package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

var stopProf func()

type propCfg struct {
	Specs       []string   `json:"specs"`
	Groups      [][]string `json:"groups"` // independent contract sets, each verified on its own
	Replay      goTest     `json:"replay"`
	Replays     []goTest   `json:"replays"`      // further replay harnesses
	BoundedRuns []goTest   `json:"bounded_runs"` // bounded checks that stand in for functions out of the verifier's reach
	Level       string     `json:"level"`
	Assumptions []string   `json:"assumptions"`
	Trusted     []string   `json:"trusted"`
}

type goTest struct {
	Pkg   string `json:"pkg"`
	File  string `json:"file"`
	Run   string `json:"run"`
	Bound string `json:"bound,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "")
	root := flag.String("root", "/verif", "")
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	only := flag.String("fn", "", "verify only functions whose name contains this")
	verbose := flag.Bool("v", false, "")
	noev := flag.Bool("noevidence", false, "")
	noreplay := flag.Bool("noreplay", false, "")
	workers := flag.Int("j", 8, "")
	flag.Parse()
	t0 := time.Now()
	if f := os.Getenv("GOVC_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		stopProf = pprof.StopCPUProfile
	}
	cfgs := map[string]propCfg{}
	data, err := os.ReadFile(filepath.Join(*root, "contracts", "props.json"))
	if err != nil {
		fatal(err)
	}
	if err := json.Unmarshal(data, &cfgs); err != nil {
		fatal(err)
	}
	cfg, ok := cfgs[*prop]
	if !ok {
		fatal(fmt.Errorf("no property %s", *prop))
	}
	specDir := filepath.Join(*root, "contracts")
	groups := cfg.Groups
	if len(cfg.Specs) > 0 {
		groups = append([][]string{cfg.Specs}, groups...)
	}
	all := newSpecs()
	var sets []*Specs
	var lemmas []string
	for _, g := range groups {
		specs := newSpecs()
		for _, f := range g {
			if err := specs.load(filepath.Join(specDir, f)); err != nil {
				fatal(err)
			}
		}
		sets = append(sets, specs)
		lemmas = append(lemmas, specs.Lemmas...)
		for n, c := range specs.Funcs {
			if o, ok := all.Funcs[n]; !ok || o.Trusted {
				all.Funcs[n] = c
			}
		}
	}
	var reps []*FnReport
	v, err := LoadProgram(*repo, lemmas, specDir)
	if err != nil {
		reps = append(reps, &FnReport{Name: "load", Err: err.Error()})
		finish(*root, *prop, *tier, cfg, all, nil, reps, t0, *verbose, *noev, *noreplay, *repo)
		return
	}
	defer v.sol.Close()
	v.tier = *tier
	v.deadline = t0.Add(540 * time.Second)
	if *tier == "thorough" {
		v.obTimeout *= 3
		v.deadline = t0.Add(720 * time.Second)
	}
	type target struct {
		v *Verifier
		c *Contract
	}
	var targets []target
	for _, specs := range sets {
		vg := *v
		vg.specs = specs
		for _, n := range sortedKeys(specs.Funcs) {
			c := specs.Funcs[n]
			if c.Trusted || !tagged(c.Tags, *prop) || len(c.Tags) == 0 {
				continue
			}
			if *only != "" && !strings.Contains(n, *only) && !strings.HasPrefix(n, "callerof ") {
				continue
			}
			if strings.HasPrefix(n, "callerof ") {
				for _, cc := range vg.callersOf(c) {
					if *only != "" && !strings.Contains(cc.Name, *only) {
						continue
					}
					targets = append(targets, target{&vg, cc})
				}
				continue
			}
			targets = append(targets, target{&vg, c})
		}
	}
	reps = make([]*FnReport, len(targets))
	var wg sync.WaitGroup
	sem := make(chan bool, *workers)
	for i, tg := range targets {
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			reps[i] = tg.v.Verify(tg.c, *prop)
			tg.v.Discharge([]*FnReport{reps[i]}, 2)
			<-sem
			if *verbose {
				fmt.Printf("%-60s %4d obligations %3d paths %2d loops %6.2fs %s\n", reps[i].Name, len(reps[i].Obs), reps[i].Paths, reps[i].Loops, reps[i].Wall.Seconds(), reps[i].Err)
				if os.Getenv("GOVC_INL") != "" {
					fmt.Println("  inlined:", strings.Join(reps[i].Inlined, " "))
					fmt.Println("  havoc:", strings.Join(reps[i].Havocs, " "))
				}
			}
		}()
	}
	wg.Wait()
	if *only == "" {
		for _, specs := range sets {
			vg := *v
			vg.specs = specs
			reps = append(reps, vg.CheckOwners(specs.Owners)...)
		}
	}
	finish(*root, *prop, *tier, cfg, all, v, reps, t0, *verbose, *noev, *noreplay, *repo)
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "govc:", err)
	os.Exit(2)
}

type failure struct {
	name, detail string
	model        string
}

func finish(root, prop, tier string, cfg propCfg, specs *Specs, v *Verifier, reps []*FnReport, t0 time.Time, verbose, noev, noreplay bool, repo string) {
	var fails []failure
	total, ok := 0, 0
	bySolver := map[string]int{}
	used, inl, hav := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var fnsUnder []map[string]any
	for _, r := range reps {
		if r == nil {
			continue
		}
		n, d := 0, 0
		if r.Err != "" {
			total++
			fails = append(fails, failure{r.Name + "#verification", r.Err, ""})
		}
		for _, o := range r.Obs {
			total++
			n++
			if o.Result == Unsat {
				ok++
				d++
				bySolver[o.Solver]++
			} else {
				det := fmt.Sprintf("%s at %s: %s by %s %s", o.Kind, o.Pos, o.Result, o.Solver, strings.Join(o.Cex, "; "))
				fails = append(fails, failure{o.Name, det, o.Model})
				if verbose {
					fmt.Printf("FAIL %s  %s\n", o.Name, det)
					if os.Getenv("GOVC_MODEL") != "" {
						fmt.Println(o.Model)
					}
				}
			}
		}
		for _, s := range r.Used {
			used[s] = true
		}
		for _, s := range r.Inlined {
			inl[s] = true
		}
		for _, s := range r.Havocs {
			hav[s] = true
		}
		fnsUnder = append(fnsUnder, map[string]any{"function": r.Name, "obligations": n, "discharged": d, "paths": r.Paths, "loops": r.Loops, "seconds": round(r.Wall.Seconds())})
	}
	boundedHit := false
	var bounded []map[string]any
	if !noreplay {
		for _, b := range cfg.BoundedRuns {
			out, hit := runReplay(root, repo, b, tier)
			cases := 0
			if i := strings.Index(out, "BOUNDED-CASES "); i >= 0 {
				fmt.Sscan(out[i+len("BOUNDED-CASES "):], &cases)
			}
			if hit || cases == 0 {
				fails = append(fails, failure{"bounded#" + b.Run, out, ""})
				boundedHit = boundedHit || hit
			}
			bounded = append(bounded, map[string]any{"test": b.Run, "bound": b.Bound, "cases": cases, "note": "bounded, not proved"})
		}
	}
	if total == 0 {
		fails = append(fails, failure{"none#vacuous", "no obligation was generated", ""})
	}
	sort.Slice(fails, func(i, j int) bool { return fails[i].name < fails[j].name })
	known := loadKnown(filepath.Join(root, "known_findings.txt"), prop)
	var open []failure
	seenKnown := map[string]bool{}
	for _, f := range fails {
		if k, isK := known[f.name]; isK {
			if !seenKnown[f.name] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			}
			seenKnown[f.name] = true
			continue
		}
		open = append(open, f)
	}
	// group
	var names []string
	g := map[string][]failure{}
	for _, f := range open {
		if _, ok := g[f.name]; !ok {
			names = append(names, f.name)
		}
		g[f.name] = append(g[f.name], f)
	}
	violations := []any{}
	exit := 0
	if len(open) > 0 {
		exit = 1
		dir := filepath.Join(root, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, prop+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: %d failed obligation(s)\n", prop, len(names))
		for _, n := range names {
			fmt.Fprintf(&sb, "\nOBLIGATION %s (%d path(s))\n", n, len(g[n]))
			for i, f := range g[n] {
				if i == 3 {
					break
				}
				fmt.Fprintf(&sb, "  %s\n", f.detail)
				if f.model != "" {
					fmt.Fprintf(&sb, "  verifier model:\n%s\n", indent(f.model, 4000))
				}
			}
		}
		found := boundedHit
		if !noreplay && !found {
			rs := cfg.Replays
			if cfg.Replay.File != "" {
				rs = append([]goTest{cfg.Replay}, rs...)
			}
			for _, r := range rs {
				if found {
					break
				}
				out, hit := runReplay(root, repo, r, tier)
				found = hit
				fmt.Fprintf(&sb, "\nREPLAY against the real code (%s):\n%s\n", r.File, out)
			}
		}
		os.WriteFile(path, []byte(sb.String()), 0644)
		for i, n := range names {
			if i < 12 {
				fmt.Printf("failed obligation: %s -- %s\n", n, firstLine(g[n][0].detail))
			}
		}
		tail := ""
		if !found {
			tail = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, path, tail)
		for _, n := range names {
			violations = append(violations, map[string]any{"obligation": n, "replay": path, "failing_input_found": found})
		}
	}
	if !noev {
		writeEvidence(root, prop, tier, cfg, bounded, specs, v, fnsUnder, total, ok, bySolver, used, inl, hav, violations, t0)
	}
	if v != nil && verbose {
		fmt.Printf("queries %d solver %.1fs, of which feasibility %d %.1fs\n", v.sol.Stats.Queries, float64(v.sol.Stats.Nanos)/1e9, v.sol.Stats.FeasN, float64(v.sol.Stats.FeasNanos)/1e9)
	}
	fmt.Printf("%s: %d/%d obligations discharged, %d functions, %.1fs\n", prop, ok, total, len(fnsUnder), time.Since(t0).Seconds())
	if v != nil {
		v.sol.Close()
	}
	if stopProf != nil {
		stopProf()
	}
	os.Exit(exit)
}
func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}
func indent(s string, max int) string {
	if len(s) > max {
		s = s[:max] + "..."
	}
	return "    " + strings.ReplaceAll(strings.TrimSpace(s), "\n", "\n    ")
}
func round(f float64) float64 { return float64(int(f*100)) / 100 }

func loadKnown(file, prop string) map[string]string {
	m := map[string]string{}
	data, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(data), "\n") {
		// known: property=<id> obligation=<name> <text>
		if !strings.HasPrefix(l, "known: property="+prop+" obligation=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+prop+" obligation=")
		i := strings.Index(rest, " :: ")
		if i < 0 {
			continue
		}
		m[rest[:i]] = rest[i+4:]
	}
	return m
}

func runReplay(root, repo string, cfg goTest, tier string) (string, bool) {
	files := strings.Fields(cfg.File)
	ov := map[string]map[string]string{"Replace": {}}
	own, _ := filepath.Glob(filepath.Join(repo, cfg.Pkg, "*_test.go"))
	for _, f := range own {
		ov["Replace"][f] = "" // hide the package's own tests (their TestMain starts servers)
	}
	for _, f := range files {
		ov["Replace"][filepath.Join(repo, cfg.Pkg, "zz_verif_"+filepath.Base(f))] = filepath.Join(root, "replay", f)
	}
	tmp, err := os.MkdirTemp("", "govc-replay")
	if err != nil {
		return err.Error(), false
	}
	defer os.RemoveAll(tmp)
	b, _ := json.Marshal(ov)
	of := filepath.Join(tmp, "overlay.json")
	os.WriteFile(of, b, 0644)
	secs := "60"
	if tier == "thorough" {
		secs = "180"
	}
	cmd := exec.Command("timeout", "-k", "10", "300", "go", "test", "-v", "-vet=off", "-overlay", of, "-count=1", "-run", "^"+cfg.Run+"$", "./"+cfg.Pkg)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "VERIF_REPLAY_SECS="+secs)
	out, _ := cmd.CombinedOutput()
	s := string(out)
	hit := strings.Contains(s, "FAILING-INPUT") || strings.Contains(s, "\npanic: ") && !strings.Contains(s, "panic: test timed out") || strings.Contains(s, "fatal error: ")
	if len(s) > 8000 {
		s = s[:8000]
	}
	return s, hit
}

func writeEvidence(root, prop, tier string, cfg propCfg, bounded []map[string]any, specs *Specs, v *Verifier, fns []map[string]any, total, ok int, by map[string]int, used, inl, hav map[string]bool, viol []any, t0 time.Time) {
	var trusted, proven []string
	for _, n := range sortedKeys(used) {
		if c := specs.Funcs[n]; c != nil && c.Trusted {
			trusted = append(trusted, n)
		} else {
			proven = append(proven, n)
		}
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	if os.Getenv("VERIF_TIER") != "" && tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	cov := map[string]any{
		"obligations": total, "discharged": ok,
		"checker_cmd":                 "govc -prop " + prop + " (SMT back ends: z3 4.8.12, z3 5.3.2, cvc5 1.1.2)",
		"functions_under_contract":    fns,
		"discharged_by":               by,
		"contracts_assumed_trusted":   trusted,
		"contracts_used_and_verified": proven,
		"bodies_inlined":              sortedKeys(inl),
		"calls_abstracted":            sortedKeys(hav),
	}
	if len(bounded) > 0 {
		cov["bounded_checks_not_counted_as_proved"] = bounded
	}
	if v != nil {
		cov["solver_queries"] = v.sol.Stats.Queries
		cov["solver_seconds"] = round(float64(v.sol.Stats.Nanos) / 1e9)
	}
	tb := append([]string{"govc VC generator (/verif/govc)", "golang.org/x/tools/go/ssa", "z3 4.8.12, z3 5.3.2, cvc5 1.1.2"}, cfg.Trusted...)
	for _, t := range trusted {
		tb = append(tb, "trusted contract: "+t)
	}
	cov["trusted_base"] = tb
	if len(viol) > 0 {
		cov["failed_obligations"] = viol
	}
	level := cfg.Level
	if level == "" {
		level = "proof"
	}
	asm := append([]string{
		"sequential execution inside one function except where a monitor declaration havocs guarded state at lock acquisition",
		"partial correctness: termination and resource exhaustion are not proved",
		"append is modelled as allocating a new backing array",
		"slice lengths and string lengths are at most 2^40",
	}, cfg.Assumptions...)
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": asm, "wall_s": round(time.Since(t0).Seconds()), "violations": len(viol)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	os.WriteFile(filepath.Join(root, "evidence", prop+".json"), b, 0644)
}
