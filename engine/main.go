package main

import (
	"strconv"

	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Engine struct {
	prog    *ssa.Program
	pkg     *ssa.Package
	tier    int
	workers int
	tmo     int
	budget  time.Duration
	only    []int
	until   time.Time
	onRun   func(*Run) bool // called after each run; false ends the exploration
}

func (e *Engine) runOne(fn *ssa.Function, prefix []int, sv *Solver) *Run {
	m := NewMachine(e.prog)
	m.deadline = e.until
	r := &Run{Harness: fn.Name(), prefix: prefix, tier: e.tier, Solver: sv}
	m.run = r
	q0, d0 := sv.queries, sv.dur
	_ = q0
	_ = d0
	func() {
		defer func() {
			if x := recover(); x != nil {
				r.Unsup = fmt.Sprintf("package initialisation: %v", x)
				if debugPanics {
					panic(x)
				}
			}
		}()
		m.call(e.pkg.Func("init"), nil, nil)
	}()
	if r.Unsup != "" {
		return r
	}
	m.execHarness(fn, r)
	if r.Unsup == "" {
		m.witness(r)
	}
	return r
}

// explore runs a harness for all choice vectors
func (e *Engine) explore(fns []*ssa.Function, deadline time.Time) ([]*Run, int, []*Solver) {
	type job struct {
		fn *ssa.Function
		pf []int
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	var queue []job
	for _, f := range fns {
		queue = append(queue, job{f, e.only})
	}
	active := 0
	skipped := 0
	stopped := false
	e.until = deadline.Add(20 * time.Second)
	var runs []*Run
	var svs []*Solver
	var wg sync.WaitGroup
	for w := 0; w < e.workers; w++ {
		wg.Add(1)
		sv := newSolver(e.tmo)
		svs = append(svs, sv)
		go func() {
			defer wg.Done()
			defer sv.close()
			for {
				mu.Lock()
				for len(queue) == 0 && active > 0 {
					cond.Wait()
				}
				if len(queue) == 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				j := queue[0]
				queue = queue[1:]
				if stopped || time.Now().After(deadline) {
					if !stopped {
						skipped++
					}
					mu.Unlock()
					continue
				}
				active++
				mu.Unlock()
				r := e.runOne(j.fn, j.pf, sv)
				more := e.onRun == nil || e.onRun(r)
				mu.Lock()
				if !more {
					stopped = true
				}
				active--
				runs = append(runs, r)
				if e.only != nil {
					r.Alt = nil
				}
				for _, a := range r.Alt {
					queue = append(queue, job{j.fn, a})
				}
				mu.Unlock()
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	sort.Slice(runs, func(i, j int) bool {
		if runs[i].Harness != runs[j].Harness {
			return runs[i].Harness < runs[j].Harness
		}
		return fmt.Sprint(runs[i].Choices) < fmt.Sprint(runs[j].Choices)
	})
	return runs, skipped, svs
}

func main() {
	dir := flag.String("harness", "/verif/harness", "harness module")
	pkgp := flag.String("pkg", "./props", "harness package")
	prefix := flag.String("prop", "", "harness name prefix")
	tier := flag.Int("tier", 0, "0 quick, 1 thorough")
	workers := flag.Int("j", 8, "workers")
	prof := flag.String("cpuprofile", "", "")
	dbg := flag.Bool("debug", false, "")
	verbose := flag.Bool("v", false, "")
	check := flag.String("check", "", "check the property (exit status and evidence)")
	tierName := flag.String("tiername", "quick", "")
	evdir := flag.String("evidence", "/verif/evidence", "")
	known := flag.String("known", "/verif/known_findings.json", "")
	bounds := flag.String("bounds", "/verif/bounds.json", "")
	tgts := flag.String("targets", "", "name=dir=pkg=replaybinary, comma separated")
	only := flag.String("choices", "", "explore only this choice sequence")
	tmo := flag.Int("tmo", 20000, "solver timeout per query (ms)")
	flag.BoolVar(&debugPanics, "crash", false, "")
	flag.Parse()
	if *check != "" {
		var ts []target
		for _, t := range strings.Split(*tgts, ",") {
			f := strings.Split(t, "=")
			if len(f) == 4 {
				ts = append(ts, target{f[0], f[1], f[2], f[3]})
			}
		}
		os.Exit(cmdCheck(map[string]string{"prop": *check, "tier": *tierName, "evidence": *evdir, "known": *known, "bounds": *bounds}, ts, *workers))
	}
	_ = dbg
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	prog, ps, err := loadProgram(*dir, nil, *pkgp)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(0)
	}
	fmt.Println("loaded in", time.Since(t0))
	e := &Engine{prog: prog, pkg: ps[0], tier: *tier, workers: *workers, tmo: *tmo}
	if *only != "" {
		for _, x := range strings.Split(*only, ",") {
			v, _ := strconv.Atoi(x)
			e.only = append(e.only, v)
		}
	}
	var fns []*ssa.Function
	for n, mem := range ps[0].Members {
		if f, ok := mem.(*ssa.Function); ok && strings.HasPrefix(n, *prefix) && strings.HasPrefix(n, "C") {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	runs, sk, svs := e.explore(fns, time.Now().Add(10*time.Minute))
	for _, r := range runs {
		st := "ok"
		if len(r.Failed) > 0 {
			st = "FAILED"
		} else if r.Unsup != "" || len(r.Unknown) > 0 {
			st = "UNKNOWN"
		}
		if st != "ok" || *verbose {
			fmt.Printf("%s %v%v %s asserts=%d proved=%d steps=%d forks=%d vars=%d wall=%v unsup=%q\n", r.Harness, r.Names, r.Choices, st, r.Assert, r.Proved, r.Steps, r.Forks, r.Vars, r.Wall.Round(time.Millisecond), r.Unsup)
			for i, f := range r.Failed {
				if i < 5 {
					fmt.Println("    FAIL", f)
				}
			}
			for i, f := range r.Unknown {
				if i < 5 {
					fmt.Println("    UNKNOWN", f)
				}
			}
		}
	}
	q, u := 0, 0
	var d time.Duration
	for _, s := range svs {
		q += s.queries
		u += s.unsat
		d += s.dur
	}
	fmt.Printf("runs=%d skipped=%d queries=%d unsat=%d solver=%v total=%v\n", len(runs), sk, q, u, d, time.Since(t0))
}
