package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// target is one program to analyse: a harness package and the native replay binary built from the same sources.
type target struct {
	name, dir, pkg, replay string
}

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Harness  string `json:"harness"`
	Label    string `json:"label"` // regular expression on the failing assertion
	Text     string `json:"text"`
	Commit   string `json:"commit,omitempty"`
}

type replayCase struct {
	Property string   `json:"property"`
	Target   string   `json:"target,omitempty"`
	Harness  string   `json:"harness"`
	Choices  []int    `json:"choices"`
	Names    []string `json:"choice_names"`
	Tier     int      `json:"tier"`
	Repeat   int      `json:"repeat"`
	Cands    []Cand   `json:"cands"`
	Result   []string `json:"result,omitempty"`
}

func genericCands() []Cand {
	return []Cand{{Label: "random", Mode: "rand", Seed: 1}, {Label: "random", Mode: "rand", Seed: 2}, {Label: "zero", Mode: "zero"}, {Label: "max", Mode: "max"}, {Label: "min", Mode: "min"}}
}

var caseN atomic.Int64

func replayRun(t target, c *replayCase, dir string) (failed bool, lines []string) {
	b, _ := json.Marshal(c)
	f := filepath.Join(dir, fmt.Sprintf("case-%d.json", caseN.Add(1)))
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return false, []string{err.Error()}
	}
	defer os.Remove(f)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, t.replay, f)
	out, err := cmd.CombinedOutput()
	for _, l := range strings.Split(string(out), "\n") {
		if l = strings.TrimSpace(l); l != "" {
			lines = append(lines, l)
		}
	}
	if ctx.Err() != nil {
		return false, append(lines, "replay timed out")
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
		return true, lines
	}
	if err != nil && len(lines) > 0 {
		for _, l := range lines {
			if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.Contains(l, "unexpected signal") {
				return true, append([]string{"VPPANIC process died: " + l}, lines...)
			}
		}
	}
	return false, lines
}

// replayer runs, as soon as a run is over, the solver's counterexamples of that run against the compiled code.
type replayer struct {
	mu               sync.Mutex
	prop, dir        string
	tier, total      int
	known            []finding
	until            time.Time
	knownHits        []string
	seenKnown        map[string]bool
	confirmed, tried map[string]int
	searched         map[string]int
}

// decided tells how a run ended: "ok", "failed" or "undecided"
func (r *Run) decided() string {
	if len(r.Failed) > 0 {
		return "failed"
	}
	if r.Unsup != "" || len(r.Unknown) > 0 || (r.Reached == 0 && r.Assert == 0) {
		return "undecided"
	}
	return "ok"
}

// run returns false when enough violations are confirmed
func (p *replayer) run(t target, r *Run) bool {
	if r.decided() == "ok" {
		return true
	}
	key := t.name + "/" + r.Harness
	p.mu.Lock()
	skip := p.confirmed[key] >= 2 || p.tried[key] >= 80 || p.total >= 6 || time.Now().After(p.until)
	if !skip {
		p.tried[key]++
	}
	p.mu.Unlock()
	if skip {
		return p.total < 6
	}
	c := &replayCase{Property: p.prop, Target: t.name, Harness: r.Harness, Choices: r.Choices, Names: r.Names, Tier: p.tier, Repeat: 3}
	if p.prop == "C13" || p.prop == "C21" {
		c.Repeat = 24 // one execution cannot show that a value is not drawn at random
	}
	c.Cands = append(append([]Cand{}, r.Cands...), genericCands()...)
	r.rcase = c
	r.bad, r.lines = replayRun(t, c, p.dir)
	if !r.bad && len(r.Failed) > 0 && strings.HasPrefix(strings.Join(r.lines, " "), "VPOK") {
		// the solver's values leave an intermediate (such as the carry of a word) open: look for a concrete witness of the violation it found
		p.mu.Lock()
		skip := p.searched[r.Harness] >= 2 || len(p.searched) >= 6 && p.searched[r.Harness] == 0
		p.searched[r.Harness]++
		p.mu.Unlock()
		if !skip {
			type found struct {
				c     replayCase
				bad   bool
				lines []string
			}
			ch := make(chan found, 4)
			for i := 0; i < 4; i++ {
				d := *c
				d.Cands = []Cand{{Label: "random search", Mode: "rand", Seed: 1000 + 50000000*uint64(i), Secs: 25}}
				go func() {
					bad, lines := replayRun(t, &d, p.dir)
					ch <- found{d, bad, lines}
				}()
			}
			for i := 0; i < 4; i++ {
				if f := <-ch; f.bad && !r.bad {
					*c = f.c
					r.bad, r.lines = f.bad, f.lines
				}
			}
		}
	}
	if !r.bad {
		return true
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, l := range r.lines {
		if !strings.HasPrefix(l, "VPFAIL") && !strings.HasPrefix(l, "VPPANIC") {
			continue
		}
		hit := false
		for _, k := range p.known {
			if k.Status != "known" || k.Property != p.prop || (k.Harness != "" && k.Harness != r.Harness) {
				continue
			}
			if ok, err := regexp.MatchString(k.Label, l); err == nil && ok {
				hit = true
				if !p.seenKnown[k.Text] {
					p.seenKnown[k.Text] = true
					p.knownHits = append(p.knownHits, k.Text)
				}
			}
		}
		if !hit {
			r.news = append(r.news, l)
		}
	}
	if len(r.news) > 0 {
		p.confirmed[key]++
		p.total++
	}
	return p.total < 6
}

func cmdCheck(args map[string]string, targets []target, workers int) int {
	t0 := time.Now()
	prop := args["prop"]
	tierName := args["tier"]
	tier := 0
	tmo := 20000
	budget := 240 * time.Second
	if tierName == "thorough" {
		tier = 1
		tmo = 120000
		budget = 780 * time.Second
	}
	deadline := t0.Add(budget)
	evDir := args["evidence"]
	os.MkdirAll(evDir, 0o755)
	var known []finding
	if b, err := os.ReadFile(args["known"]); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fmt.Println("NOTE known-findings file unreadable:", err)
		}
	}
	scratch, err := os.MkdirTemp("", "vreplay")
	if err != nil {
		scratch = os.TempDir()
	} else {
		defer os.RemoveAll(scratch)
	}
	rp := &replayer{prop: prop, tier: tier, known: known, dir: scratch, until: deadline.Add(60 * time.Second), seenKnown: map[string]bool{}, confirmed: map[string]int{}, tried: map[string]int{}, searched: map[string]int{}}
	type tr struct {
		t target
		r *Run
	}
	var all []tr
	skipped := 0
	queries, unsat, sat, unk := 0, 0, 0, 0
	var solverTime time.Duration
	var notes []string
	nharness := map[string]bool{}
	for ti, t := range targets {
		deadline := time.Now().Add(time.Until(deadline) / time.Duration(len(targets)-ti))
		prog, ps, err := loadProgram(t.dir, nil, t.pkg)
		if err != nil {
			notes = append(notes, fmt.Sprintf("target %s could not be loaded: %v", t.name, err))
			continue
		}
		e := &Engine{prog: prog, pkg: ps[0], tier: tier, workers: workers, tmo: tmo}
		t := t
		e.onRun = func(r *Run) bool { return rp.run(t, r) }
		var fns []*ssa.Function
		for n, mem := range ps[0].Members {
			if f, ok := mem.(*ssa.Function); ok && strings.HasPrefix(n, prop+"_") {
				fns = append(fns, f)
				nharness[n] = true
			}
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
		runs, sk, svs := e.explore(fns, deadline)
		skipped += sk
		for _, s := range svs {
			queries += s.queries
			unsat += s.unsat
			sat += s.sat
			unk += s.unknown
			solverTime += s.dur
		}
		for _, r := range runs {
			all = append(all, tr{t, r})
		}
	}
	// summary
	obl, dis, runsOK, undecided := 0, 0, 0, 0
	enc := map[string]int{}
	contracts := map[string]int{}
	var steps int64
	wit, folded := 0, 0
	perHarness := map[string][4]int{}
	var viol []string
	knownHits := rp.knownHits
	vn := 0
	perUndecided := map[string]int{}
	for _, x := range all {
		r := x.r
		obl += r.Assert
		dis += r.Proved
		steps += r.Steps
		wit += r.Witness
		folded += r.Folded
		for n, c := range r.Enc {
			if strings.HasPrefix(n, "program.go:") {
				n = "lr/" + x.t.name + ".go:" + n[len("program.go:"):]
			}
			enc[n] += c
		}
		for n, c := range r.Contracts {
			contracts[n] += c
		}
		h := perHarness[r.Harness]
		h[0]++
		h[1] += r.Assert
		h[2] += r.Proved
		st := r.decided()
		if st == "undecided" {
			h[3]++
		}
		perHarness[r.Harness] = h
		if st == "ok" {
			runsOK++
			continue
		}
		bad, lines, c := r.bad, r.lines, r.rcase
		if c == nil {
			continue
		}
		if !bad {
			undecided++
			if perUndecided[r.Harness] < 3 {
				why := r.Unsup
				if len(r.Failed) > 0 {
					why = "solver counterexample does not reproduce: " + r.Failed[0]
				} else if why == "" && len(r.Unknown) > 0 {
					why = "solver: unknown: " + r.Unknown[0]
				} else if why == "" {
					why = "no assertion reached"
				}
				last := ""
				if len(lines) > 0 {
					last = lines[len(lines)-1]
				}
				notes = append(notes, fmt.Sprintf("%s %v: %s [replay: %s]", r.Harness, r.Choices, trimStr(why, 400), trimStr(last, 120)))
			}
			perUndecided[r.Harness]++
			continue
		}
		news := r.news
		if len(news) == 0 {
			continue
		}
		vn++
		c.Result = news
		path := filepath.Join(evDir, "replays", fmt.Sprintf("%s-%d.json", prop, vn))
		os.MkdirAll(filepath.Dir(path), 0o755)
		b, _ := json.MarshalIndent(c, "", " ")
		os.WriteFile(path, b, 0o644)
		var ch []string
		for i, n := range r.Names {
			ch = append(ch, fmt.Sprintf("%s=%d", n, r.Choices[i]))
		}
		why := ""
		if len(r.Failed) > 0 {
			why = r.Failed[0]
		} else {
			why = "undecided by the solver (" + trimStr(r.Unsup, 120) + "), violated by concrete execution"
		}
		viol = append(viol, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Printf("  harness %s (%s) %s\n  solver: %s\n", r.Harness, x.t.name, strings.Join(ch, " "), trimStr(why, 300))
		for i, l := range news {
			if i < 4 {
				fmt.Println("  native:", trimStr(l, 400))
			}
		}
	}
	for _, k := range knownHits {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	if skipped > 0 {
		notes = append(notes, fmt.Sprintf("%d runs not started within the time budget", skipped))
	}
	for _, n := range notes {
		fmt.Println("INCONCLUSIVE", n)
	}
	// evidence
	var fn []string
	lrTargets := len(targets) > 1 // then mk-lr is the ideal evaluator, and the code under test is the program's
	for n := range enc {
		if strings.HasPrefix(strings.TrimLeft(n, "(*"), "mk-lr") && !lrTargets || strings.HasPrefix(n, "lr/") {
			fn = append(fn, n)
		}
	}
	sort.Strings(fn)
	lib := 0
	for n := range enc {
		if strings.Contains(n, "lattigo") {
			lib++
		}
	}
	var cn []string
	for n := range contracts {
		cn = append(cn, n)
	}
	sort.Strings(cn)
	var ph []map[string]any
	var hn []string
	for n := range nharness {
		hn = append(hn, n)
	}
	sort.Strings(hn)
	for _, n := range hn {
		h := perHarness[n]
		ph = append(ph, map[string]any{"harness": n, "runs": h[0], "obligations": h[1], "discharged": h[2], "undecided_runs": h[3]})
	}
	b := args["bounds"]
	var bounds map[string]any
	if data, err := os.ReadFile(b); err == nil {
		var allb map[string]map[string]any
		if json.Unmarshal(data, &allb) == nil {
			bounds = allb[prop]
		}
	}
	var samples []any
	for i, x := range all {
		if i%(1+len(all)/4) == 0 && len(samples) < 4 {
			samples = append(samples, map[string]any{"harness": x.r.Harness, "target": x.t.name, "choices": x.r.Choices, "choice_names": x.r.Names, "symbolic_inputs": x.r.Vars, "assertions": x.r.Assert, "discharged": x.r.Proved, "instructions": x.r.Steps})
		}
	}
	ev := map[string]any{
		"property": prop, "tier": tierName, "seed": 1, "level": "other",
		"coverage": map[string]any{
			"explanation":               "Bounded symbolic execution of the SSA form of the real code, regenerated on this run from /repo; every assertion is discharged by an SMT solver for all values of the symbolic inputs within the bounds. Structural choices (levels, party sets, map orders, histories) are enumerated completely within the bounds.",
			"harnesses":                 ph,
			"runs":                      len(all),
			"runs_decided":              runsOK,
			"runs_undecided":            undecided,
			"runs_not_started":          skipped,
			"obligations":               obl,
			"discharged":                dis,
			"discharged_without_query":  folded,
			"solver":                    solverBin,
			"solver_queries":            queries,
			"solver_unsat":              unsat,
			"solver_sat":                sat,
			"solver_unknown":            unk,
			"solver_time_s":             solverTime.Seconds(),
			"vacuity_witnesses":         wit,
			"ssa_instructions":          steps,
			"functions_encoded":         fn,
			"library_functions_encoded": lib,
			"contracts_used":            cn,
			"bounds":                    bounds,
			"samples":                   samples,
			"notes":                     notes,
			"known_findings_hit":        knownHits,
		},
		"assumptions": assumptionsFor(bounds),
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(viol),
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, prop+".json"), append(eb, '\n'), 0o644); err != nil {
		fmt.Println("NOTE evidence:", err)
	}
	fmt.Printf("%s %s: %d runs (%d decided, %d undecided, %d not started), %d/%d obligations discharged, %d solver queries (%.1fs), %d repo functions encoded, %.1fs\n",
		prop, tierName, len(all), runsOK, undecided, skipped, dis, obl, queries, solverTime.Seconds(), len(fn), time.Since(t0).Seconds())
	if len(viol) > 0 {
		return 1
	}
	return 0
}

func assumptionsFor(b map[string]any) []string {
	r := []string{
		"lattigo's scalar kernels (MRed, BRed, CRed, MForm, ...), its NTT and its samplers are replaced by contracts whose preconditions are checked at every call; the NTT contract is the linear map given by the ring's own tables",
		"the SSA interpreter and the SMT solver are trusted; every reported violation is replayed against the compiled code",
		"goroutines are not modelled; float64 arithmetic on symbolic values carries a rounding-error interval",
	}
	if x, ok := b["assumptions"].([]any); ok {
		for _, s := range x {
			r = append(r, fmt.Sprint(s))
		}
	}
	return r
}
