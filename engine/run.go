package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Cand struct {
	Label string            `json:"label"`
	Mode  string            `json:"mode"`
	Seed  uint64            `json:"seed"`
	Vals  map[string]string `json:"vals,omitempty"`
	Secs  int               `json:"secs,omitempty"`
}

type Run struct {
	Harness   string
	Choices   []int
	Names     []string
	Ns        []int
	prefix    []int
	tier      int
	Proved    int
	Assert    int
	Failed    []string // labels with a solver counterexample (to be replayed)
	Unknown   []string
	Cands     []Cand
	Panic     string
	Unsup     string
	Steps     int64
	Wall      time.Duration
	Solver    *Solver
	Vars      int
	Reached   int
	Alt       [][]int
	Enc       map[string]int
	bounds    map[string]string
	Forks     int
	real      bool
	Witness   int
	Folded    int
	Contracts map[string]int
	rcase     *replayCase // the replay of a run that is not ok, its result and the failures not listed as known
	bad       bool
	lines     []string
	news      []string
}

func (m *Machine) condPanic(c *Cond, neg bool, gp *goPanic) {
	r := m.run
	if r == nil {
		panic(unsupported("conditional panic: " + gp.msg))
	}
	m.enough()
	r.Assert++
	e := newEnc(m.sym)
	e.defs = true
	s, ok := e.cond(c)
	if !ok {
		r.Unknown = append(r.Unknown, "conditional panic (not encodable): "+gp.msg)
		return
	}
	if neg {
		s = "(not " + s + ")"
	}
	var pcs []string
	for _, p := range m.pc {
		if x, ok := e.cond(p.c); ok {
			if p.neg {
				x = "(not " + x + ")"
			}
			pcs = append(pcs, x)
		}
	}
	body := e.sb.String() + "(assert " + s + ")\n"
	for _, p := range pcs {
		body += "(assert " + p + ")\n"
	}
	res, model := r.Solver.check(body, e.namedVars())
	switch res {
	case "unsat":
		r.Proved++
	case "sat":
		r.Failed = append(r.Failed, "panic reachable: "+gp.msg)
		r.Cands = append(r.Cands, Cand{Label: "panic: " + gp.msg, Mode: "zero", Vals: e.assignment(model)})
	default:
		r.Unknown = append(r.Unknown, "conditional panic: "+gp.msg)
	}
}

// ---------------- assertions ----------------

func (m *Machine) assertTrue(label string, v Value) {
	r := m.run
	m.enough()
	r.Assert++
	r.Reached++
	if v.p == nil {
		if v.u != 0 {
			// decided by the symbolic execution itself: the assertion does not depend on any symbolic input
			r.Proved++
			r.Folded++
			return
		}
		r.Failed = append(r.Failed, label+": false")
		return
	}
	e := newEnc(m.sym)
	e.defs = true
	s, ok := e.bool(v)
	if !ok {
		r.Unknown = append(r.Unknown, label+": not encodable")
		return
	}
	if debugPanics {
		fmt.Println(e.sb.String() + "(assert (not " + s + "))")
	}
	res, model := r.Solver.check(e.sb.String()+"(assert (not "+s+"))\n", e.namedVars())
	switch res {
	case "unsat":
		r.Proved++
	case "sat":
		r.Failed = append(r.Failed, label)
		r.Cands = append(r.Cands, Cand{Label: label, Mode: "zero", Vals: e.assignment(model)})
	default:
		r.Unknown = append(r.Unknown, label)
	}
}

// assertEqRes: all pairs equal modulo q for every value of the atoms
func (m *Machine) assertEqRes(label string, got, want []Value, q uint64) {
	r := m.run
	m.enough()
	r.Assert++
	r.Reached++
	e := newEnc(m.sym)
	var dis []string
	terms := 0
	bad := -1
	var badD *ResForm
	for i := range got {
		a, b := m.sym.valRes(got[i], q), m.sym.valRes(want[i], q)
		d := rfSub(a, b)
		if len(d.t) != 0 {
			if bad < 0 || len(d.t) < len(badD.t) {
				bad, badD = i, d
			}
			continue
		}
		if len(a.t)+len(b.t) == 0 {
			continue
		}
		terms += len(a.t) + len(b.t)
		if terms < 6000 {
			dis = append(dis, fmt.Sprintf("(not (= (mod (- %s %s) %d) 0))", e.resForm(a), e.resForm(b), q))
		} else {
			dis = append(dis, fmt.Sprintf("(not (= (mod %s %d) 0))", e.resForm(d), q))
		}
	}
	if bad < 0 {
		if len(dis) == 0 {
			dis = []string{"(not (= 0 0))"}
		}
		res, _ := r.Solver.check(e.sb.String()+"(assert (or false "+strings.Join(dis, "\n ")+"))\n", nil)
		if res == "unsat" {
			r.Proved++
		} else {
			r.Unknown = append(r.Unknown, label+" (solver: "+res+")")
		}
		return
	}
	// a non-zero difference: ask for concrete values
	r.Failed = append(r.Failed, fmt.Sprintf("%s: coefficient %d differs modulo %d (%d monomials)", label, bad, q, len(badD.t)))
	e = newEnc(m.sym)
	d := badD
	exact := true
	if len(d.t) > 300 {
		d = &ResForm{q: d.q, t: d.t[:300]}
	}
	ex := e.resFormX(d, exact)
	if len(r.Failed) > 1 {
		return
	}
	res, model := r.Solver.checkT(5000, e.sb.String()+fmt.Sprintf("(assert (not (= (mod %s %d) 0)))\n", ex, q), e.namedVars())
	if res == "sat" {
		r.Cands = append(r.Cands, Cand{Label: label, Mode: "zero", Vals: e.assignment(model)})
	}
}

// assertNear: there is an integer W/D, |W/D| <= B, with W/D = diff_j modulo every modulus.
//
//	diff: per modulus q_j the residue form of the difference to be shown small
//	divs: primes the code divided by (candidate denominators)
func (m *Machine) assertNear(label string, mods []uint64, diff [][]*ResForm, divs []uint64, B *big.Int) {
	r := m.run
	s := m.sym
	m.enough()
	r.Reached++
	D := big.NewInt(1)
	for _, p := range divs {
		D.Mul(D, u64big(p))
	}
	n := len(diff[0])
	for i := 0; i < n; i++ {
		m.enough()
		r.Assert++
		rem := make([]*ResForm, len(mods))
		orig := make([]*ResForm, len(mods))
		for j, q := range mods {
			rem[j] = rfScale(diff[j][i], bigMod(D, q))
			orig[j] = rem[j]
		}
		// W is a multiple of every divisor: they determine coefficients of digits that the moduli do not show
		xm := append(append([]uint64{}, mods...), divs...)
		xr := append([]*ResForm{}, rem...)
		for _, p := range divs {
			xr = append(xr, &ResForm{q: p})
		}
		W, ok := m.eliminate(xm, xr, divs, D)
		lab := fmt.Sprintf("%s[%d]", label, i)
		if !ok {
			r.Failed = append(r.Failed, lab+": no bounded integer representation of the difference")
			m.nearCand(lab, mods, orig)
			return
		}
		if os.Getenv("ENGDBG") != "" && i == 0 {
			for _, t := range W {
				var as []string
				for _, a := range monoAtoms(t.k) {
					n := s.atoms[a]
					ds := ""
					for _, rr := range n.res {
						ds += fmt.Sprintf(" %d:%d", rr.q, len(rr.t))
						if rr.q == 0 && len(rr.t) < 6 {
							for _, x := range rr.t {
								for _, y := range monoAtoms(x.k) {
									z := s.atoms[y]
									ds += fmt.Sprintf("{%d:%s %d %v %v}", y, z.name, z.canon, z.hi, z.def)
								}
								ds += ";"
							}
						}
					}
					as = append(as, fmt.Sprintf("#%d %s[%d bits%s]", a, n.name, n.hi.BitLen(), ds))
				}
				fmt.Fprintf(os.Stderr, "W %d bits %v\n", t.c.BitLen(), as)
			}
			for _, p := range divs {
				fmt.Fprintf(os.Stderr, "mod %d: %d terms left\n", p, len(s.flattenW(W, p).t))
			}
		}
		// divisibility by the divisors and residue identity
		e := newEnc(s)
		var dis []string
		sum := e.linW(W)
		lim := new(big.Int).Mul(D, B)
		dis = append(dis, fmt.Sprintf("(> %s %s)", sum, lim), fmt.Sprintf("(< %s (- %s))", sum, lim))
		okDiv := true
		for _, p := range divs {
			f := s.flattenW(W, p)
			if len(f.t) != 0 {
				okDiv = false
				dis = append(dis, fmt.Sprintf("(not (= (mod %s %d) 0))", e.resForm(f), p))
			}
		}
		for j, q := range mods {
			f := s.flattenW(W, q)
			if len(f.t)+len(orig[j].t) < 1200 {
				dis = append(dis, fmt.Sprintf("(not (= (mod (- %s %s) %d) 0))", e.resForm(orig[j]), e.resForm(f), q))
			} else if !rfEq(f, orig[j]) {
				dis = append(dis, "true")
			}
		}
		body := e.sb.String() + "(assert (or " + strings.Join(dis, "\n ") + "))\n"
		res, model := r.Solver.check(body, e.namedVars())
		switch res {
		case "unsat":
			r.Proved++
		case "sat":
			why := ""
			if !okDiv {
				why = " (not divisible)"
			}
			lo, hi := W.bounds(s)
			r.Failed = append(r.Failed, fmt.Sprintf("%s: bound exceeded%s, |W| up to 2^%d, allowed 2^%d", lab, why, maxBits(lo, hi), lim.BitLen()))
			r.Cands = append(r.Cands, Cand{Label: lab, Mode: "zero", Vals: e.assignment(model)})
			return
		default:
			r.Unknown = append(r.Unknown, lab)
		}
	}
}

func maxBits(a, b *big.Int) int {
	x, y := a.BitLen(), b.BitLen()
	if x > y {
		return x
	}
	return y
}

func (m *Machine) nearCand(lab string, mods []uint64, orig []*ResForm) {
	r := m.run
	for j, q := range mods {
		f := orig[j]
		if len(f.t) == 0 {
			continue
		}
		if len(f.t) > 200 {
			f = &ResForm{q: q, t: f.t[:200]}
		}
		e := newEnc(m.sym)
		ex := e.resFormX(f, true)
		// far from zero modulo q
		res, model := r.Solver.checkT(5000, e.sb.String()+fmt.Sprintf("(assert (< %d (mod %s %d) %d))\n", q/4, ex, q, q-q/4), e.namedVars())
		if res == "sat" {
			r.Cands = append(r.Cands, Cand{Label: lab, Mode: "zero", Vals: e.assignment(model)})
			return
		}
	}
}

type wterm struct {
	k uint64
	c *big.Int
}
type wform []wterm

func (w wform) bounds(s *SymCtx) (*big.Int, *big.Int) {
	lo, hi := new(big.Int), new(big.Int)
	for _, t := range w {
		l, h := s.monoRange(t.k)
		a, b := mulRange(t.c, t.c, l, h)
		lo.Add(lo, a)
		hi.Add(hi, b)
	}
	return lo, hi
}

func (e *Enc) linW(w wform) string {
	if len(w) == 0 {
		return "0"
	}
	var parts []string
	for _, t := range w {
		if t.k == 0 {
			parts = append(parts, intLit(t.c))
		} else {
			parts = append(parts, "(* "+intLit(t.c)+" "+e.monoVar(t.k, false)+")")
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

func (s *SymCtx) flattenMono(k uint64, q uint64) *ResForm {
	var r *ResForm
	for _, a := range monoAtoms(k) {
		x := s.nodeRes(s.atoms[a], q)
		if r == nil {
			r = x
		} else {
			r = rfMul(r, x)
		}
	}
	if r == nil {
		return rfConst(1, q)
	}
	return r
}

func (s *SymCtx) flattenW(w wform, q uint64) *ResForm {
	var bulk []rterm
	for _, t := range w {
		c := bigMod(t.c, q)
		if c == 0 {
			continue
		}
		for _, u := range s.flattenMono(t.k, q).t {
			bulk = append(bulk, rterm{u.k, mulm(u.c, c, q)})
		}
	}
	return rfNorm(q, bulk)
}

// eliminate: find an integer combination of monomials congruent to rem modulo every modulus
func (m *Machine) eliminate(mods []uint64, rem []*ResForm, divs []uint64, D *big.Int) (wform, bool) {
	s := m.sym
	cur := make([]map[uint64]uint64, len(mods))
	keys := map[uint64]bool{}
	for j := range rem {
		cur[j] = make(map[uint64]uint64, len(rem[j].t))
		for _, t := range rem[j].t {
			cur[j][t.k] = t.c
			keys[t.k] = true
		}
	}
	var order []uint64
	for k := range keys {
		order = append(order, k)
	}
	sort.Slice(order, func(i, j int) bool { return order[i] > order[j] })
	// divisor products to try
	var prods []*big.Int
	for mask := 0; mask < 1<<len(divs); mask++ {
		p := big.NewInt(1)
		for b := range divs {
			if mask>>b&1 == 1 {
				p.Mul(p, u64big(divs[b]))
			}
		}
		prods = append(prods, p)
	}
	var W wform
	for idx := 0; idx < len(order); idx++ {
		k := order[idx]
		var vm []int
		zero := true
		for j, q := range mods {
			vis := true
			for _, a := range monoAtoms(k) {
				if s.nodeDef(s.atoms[a], q) != nil {
					vis = false
				}
			}
			if vis {
				vm = append(vm, j)
				if cur[j][k] != 0 {
					zero = false
				}
			} else if cur[j][k] != 0 {
				return nil, false
			}
		}
		if zero {
			continue
		}
		M := big.NewInt(1)
		x := new(big.Int)
		for _, j := range vm {
			// CRT
			q := u64big(mods[j])
			d := new(big.Int).Sub(u64big(cur[j][k]), x)
			d.Mod(d, q)
			inv := new(big.Int).ModInverse(M, q)
			if inv == nil {
				return nil, false
			}
			d.Mul(d, inv)
			d.Mod(d, q)
			x.Add(x, d.Mul(d, M))
			M.Mul(M, q)
		}
		var best, bestScore *big.Int
		for _, p := range prods {
			inv := new(big.Int).ModInverse(p, M)
			if inv == nil {
				continue
			}
			y := new(big.Int).Mul(x, inv)
			y.Mod(y, M)
			if new(big.Int).Lsh(y, 1).Cmp(M) > 0 {
				y.Sub(y, M)
			}
			sc := new(big.Int).Abs(y)
			if bestScore == nil || sc.Cmp(bestScore) < 0 {
				bestScore = sc
				best = new(big.Int).Mul(y, p)
			}
		}
		W = append(W, wterm{k, best})
		for j, q := range mods {
			c := bigMod(best, q)
			for _, t := range s.flattenMono(k, q).t {
				v := addm(cur[j][t.k], negm(mulm(t.c, c, q), q), q)
				if v == 0 {
					delete(cur[j], t.k)
				} else {
					cur[j][t.k] = v
				}
				if !keys[t.k] {
					keys[t.k] = true
					// insert in the remaining order
					p := sort.Search(len(order), func(i int) bool { return order[i] <= t.k })
					if p <= idx && t.k != k {
						return nil, false
					}
					order = append(order, 0)
					copy(order[p+1:], order[p:])
					order[p] = t.k
				}
			}
		}
	}
	for j := range cur {
		if len(cur[j]) != 0 {
			return nil, false
		}
	}
	return W, true
}

// ---------------- executing one harness ----------------

func (m *Machine) execHarness(fn *ssa.Function, r *Run) {
	t0 := time.Now()
	m.run = r
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case *goPanic:
				r.Panic = x.msg + " at " + m.where()
				r.Failed = append(r.Failed, "panic: "+x.msg)
			case *unsupErr:
				r.Unsup = x.msg + " at " + m.where()
			case *stopRun:
			default:
				r.Unsup = fmt.Sprintf("internal: %v", e)
				if debugPanics {
					panic(e)
				}
			}
		}
		r.Wall = time.Since(t0)
		r.Steps = m.steps
		r.Forks = m.forks
		r.Vars = len(m.sym.varList)
		if m.reals != nil {
			r.Vars += len(m.reals.vars)
		}
		r.Enc = map[string]int{}
		for _, fi := range m.infos {
			if fi.calls > 0 {
				if fi.intr != nil {
					if r.Contracts == nil {
						r.Contracts = map[string]int{}
					}
					if !strings.HasPrefix(fi.name, vpPkg) {
						r.Contracts[fi.name] = fi.calls
					}
				} else {
					n := fi.name
					if strings.HasSuffix(fi.fn.Prog.Fset.Position(fi.fn.Pos()).Filename, "/program.go") {
						n = "program.go:" + fi.fn.Name()
					}
					r.Enc[n] += fi.calls
				}
			}
		}
	}()
	m.call(fn, nil, nil)
}

// witness: the constraints on the inputs, and the path to the end of the harness, are satisfiable (the assertions are not vacuous)
func (m *Machine) witness(r *Run) {
	if r.Reached == 0 {
		return
	}
	e := newEnc(m.sym)
	e.real = r.real
	for _, n := range m.sym.varList {
		e.node(m.sym.vars[n])
	}
	for _, p := range m.pc {
		if x, ok := e.cond(p.c); ok {
			if p.neg {
				x = "(not " + x + ")"
			}
			e.sb.WriteString("(assert " + x + ")\n")
		}
	}
	res, _ := r.Solver.check(e.sb.String(), nil)
	if res == "sat" {
		r.Witness++
	} else {
		r.Unknown = append(r.Unknown, "vacuity witness not satisfiable: "+res)
	}
}

type stopRun struct{}

// enough ends a run that already failed or stayed undecided several times, or whose time is over
func (m *Machine) enough() {
	if len(m.run.Failed) >= 3 || len(m.run.Unknown) >= 3 {
		panic(&stopRun{})
	}
	if !m.deadline.IsZero() && time.Now().After(m.deadline) {
		panic(unsupported("time budget exhausted"))
	}
}

var debugPanics = false
