package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"sort"
	"strings"
	"time"
)

// Solver wraps one incremental SMT solver process.
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	name    string
	queries int
	unsat   int
	sat     int
	unknown int
	dur     time.Duration
	tmoMS   int
}

var solverBin = "z3"

func newSolver(tmoMS int) *Solver {
	s := &Solver{tmoMS: tmoMS, name: solverBin}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(solverBin, "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<20)
	if err := s.cmd.Start(); err != nil {
		s.cmd = nil
		return
	}
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.tmoMS)
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// check sends the script body between push and pop; returns "sat", "unsat" or "unknown" and model values of wanted constants.
func (s *Solver) check(body string, want []string) (string, map[string]*big.Int) {
	return s.checkT(s.tmoMS, body, want)
}

func (s *Solver) checkT(ms int, body string, want []string) (string, map[string]*big.Int) {
	if ms != s.tmoMS && ms < s.tmoMS {
		body = fmt.Sprintf("(set-option :timeout %d)\n", ms) + body
		defer func() {
			if s.cmd != nil {
				fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.tmoMS)
			}
		}()
	}
	if s.cmd == nil {
		s.start()
		if s.cmd == nil {
			return "unknown", nil
		}
	}
	t0 := time.Now()
	s.queries++
	done := make(chan struct{})
	var res string
	model := map[string]*big.Int{}
	go func() {
		defer close(done)
		io.WriteString(s.in, "(push)\n"+body+"(check-sat)\n(echo \"END\")\n")
		lines := s.readTo("END")
		res = "unknown"
		for _, l := range lines {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "(error") {
				res = "unknown"
				break
			}
			if l == "sat" || l == "unsat" || l == "unknown" {
				res = l
			}
		}
		if res == "sat" && len(want) > 0 {
			for i := 0; i < len(want); i += 200 {
				j := i + 200
				if j > len(want) {
					j = len(want)
				}
				io.WriteString(s.in, "(get-value ("+strings.Join(want[i:j], " ")+"))\n(echo \"END\")\n")
				parseModel(strings.Join(s.readTo("END"), " "), model)
			}
		}
		io.WriteString(s.in, "(pop)\n")
	}()
	select {
	case <-done:
	case <-time.After(time.Duration(ms)*time.Millisecond*2 + 10*time.Second):
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
		<-done
		res = "unknown"
	}
	s.dur += time.Since(t0)
	switch res {
	case "unsat":
		s.unsat++
	case "sat":
		s.sat++
	default:
		s.unknown++
	}
	return res, model
}

func (s *Solver) readTo(mark string) []string {
	var r []string
	for {
		l, err := s.out.ReadString('\n')
		if strings.TrimSpace(l) == mark {
			return r
		}
		if l != "" {
			r = append(r, l)
		}
		if err != nil {
			return append(r, "(error eof)")
		}
	}
}

func parseModel(txt string, m map[string]*big.Int) {
	// ((name val) (name (- val)) ...)
	txt = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt)
	tok := strings.Fields(txt)
	for i := 0; i+2 < len(tok); i++ {
		if tok[i] == "(" && tok[i+1] != "(" && tok[i+1] != "-" {
			name := tok[i+1]
			if tok[i+2] == "(" && i+4 < len(tok) && tok[i+3] == "-" {
				if x, ok := new(big.Int).SetString(strings.TrimSuffix(tok[i+4], ".0"), 10); ok {
					m[name] = x.Neg(x)
				}
			} else if x, ok := new(big.Int).SetString(strings.TrimSuffix(tok[i+2], ".0"), 10); ok {
				m[name] = x
			}
		}
	}
}

// ---- encoding of forms ----

type Enc struct {
	s      *SymCtx
	sb     strings.Builder
	seen   map[*Node]bool
	nodes  []*Node
	depth  int
	idepth int
	mono   map[uint64]bool
	defs   bool // add residue definitions of canonical nodes
	real   bool // nodes are reals
}

func newEnc(s *SymCtx) *Enc { return &Enc{s: s, seen: map[*Node]bool{}, mono: map[uint64]bool{}} }

func intLit(x *big.Int) string {
	if x.Sign() < 0 {
		return "(- " + new(big.Int).Neg(x).String() + ")"
	}
	return x.String()
}

func (e *Enc) node(n *Node) string {
	name := fmt.Sprintf("n%d", n.id)
	if e.seen[n] {
		return name
	}
	e.seen[n] = true
	e.nodes = append(e.nodes, n)
	if e.real {
		fmt.Fprintf(&e.sb, "(declare-const %s Real)\n(assert (<= %s %s %s))\n", name, realLit(n.lo), name, realLit(n.hi))
		return name
	}
	fmt.Fprintf(&e.sb, "(declare-const %s Int)\n(assert (<= %s %s %s))\n", name, intLit(n.lo), name, intLit(n.hi))
	_, ite := n.def.(*iteDef)
	if !e.defs || e.depth > 6 || e.idepth > 200 {
		return name
	}
	if ite {
		e.idepth++
		defer func() { e.idepth-- }()
	} else {
		e.depth++
		defer func() { e.depth-- }()
	}
	switch d := n.def.(type) {
	case *iteDef:
		if _, ok := d.a.p.(*FSym); !ok {
			if c, ok := e.cond(d.c); ok {
				a, ok1 := e.val(d.a)
				b, ok2 := e.val(d.b)
				if ok1 && ok2 {
					fmt.Fprintf(&e.sb, "(assert (= %s (ite %s %s %s)))\n", name, c, a, b)
				}
			}
		}
	default:
		if n.canon > 1 && len(n.res) > 0 && n.res[0].q == n.canon && len(n.res[0].t) <= 400 {
			ex := e.resForm(n.res[0])
			fmt.Fprintf(&e.sb, "(assert (= %s (mod %s %d)))\n", name, ex, n.canon)
		}
	}
	return name
}

func (e *Enc) val(v Value) (string, bool) {
	switch p := v.p.(type) {
	case nil:
		return intLit(u64big(v.u)), true
	case *Node:
		return e.node(p), true
	case *Expr:
		return e.form(p.f), true
	}
	return "", false
}

// form as an integer term scaled by its common denominator is not value preserving; use real division via to_real when needed
func (e *Enc) form(f Form) string {
	L := lcd(f)
	t := e.scaled(f, L)
	if L.Cmp(bigOne) == 0 {
		return t
	}
	return fmt.Sprintf("(div %s %s)", t, L.String())
}

func lcd(f Form) *big.Int {
	L := big.NewInt(1)
	for _, t := range f {
		g := new(big.Int).GCD(nil, nil, L, t.c.Denom())
		L.Mul(L, new(big.Int).Div(t.c.Denom(), g))
	}
	return L
}

func (e *Enc) scaled(f Form, L *big.Int) string {
	if len(f) == 0 {
		return "0"
	}
	var parts []string
	Lr := new(big.Rat).SetInt(L)
	for _, t := range f {
		c := new(big.Rat).Mul(t.c, Lr).Num()
		s := intLit(c)
		for _, n := range t.n {
			if n != nil {
				s = "(* " + s + " " + e.node(n) + ")"
			}
		}
		parts = append(parts, s)
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

func (e *Enc) cond(c *Cond) (string, bool) {
	switch c.kind {
	case 0:
		t := e.scaled(c.f, lcd(c.f))
		switch c.op {
		case "==":
			return "(= " + t + " 0)", true
		case "!=":
			return "(not (= " + t + " 0))", true
		}
		return "(" + c.op + " " + t + " 0)", true
	case 1:
		s, ok := e.bool(c.a)
		return "(not " + s + ")", ok
	case 2:
		s, ok := e.cond(c.c)
		a, ok1 := e.bool(c.a)
		b, ok2 := e.bool(c.b)
		return "(ite " + s + " " + a + " " + b + ")", ok && ok1 && ok2
	}
	return "", false
}

func (e *Enc) bool(v Value) (string, bool) {
	switch p := v.p.(type) {
	case nil:
		if v.u != 0 {
			return "true", true
		}
		return "false", true
	case *Cond:
		return e.cond(p)
	}
	return "", false
}

func (e *Enc) atom(id int) string { return e.node(e.s.atoms[id]) }

// monomial variable (products of atoms as one bounded variable, an over-approximation) or exact product
func (e *Enc) monoVar(k uint64, exact bool) string {
	as := monoAtoms(k)
	if len(as) == 1 {
		return e.atom(as[0])
	}
	if exact {
		s := e.atom(as[0])
		for _, a := range as[1:] {
			s = "(* " + s + " " + e.atom(a) + ")"
		}
		return s
	}
	name := "m"
	for _, a := range as {
		name += fmt.Sprintf("_%d", a)
	}
	if !e.mono[k] {
		e.mono[k] = true
		lo, hi := e.s.monoRange(k)
		fmt.Fprintf(&e.sb, "(declare-const %s Int)\n(assert (<= %s %s %s))\n", name, intLit(lo), name, intLit(hi))
	}
	return name
}

func (s *SymCtx) monoRange(k uint64) (*big.Int, *big.Int) {
	as := monoAtoms(k)
	lo, hi := bigOne, bigOne
	for i := 0; i < len(as); {
		n := s.atoms[as[i]]
		j := i
		for j < len(as) && as[j] == as[i] {
			j++
		}
		l, h := powRange(n.lo, n.hi, j-i)
		lo, hi = mulRange(lo, hi, l, h)
		i = j
	}
	return lo, hi
}

func (e *Enc) resForm(f *ResForm) string { return e.resFormX(f, false) }

func (e *Enc) resFormX(f *ResForm, exact bool) string {
	if len(f.t) == 0 {
		return "0"
	}
	var parts []string
	for _, t := range f.t {
		c := fmt.Sprintf("%d", t.c)
		if f.q != 0 && t.c > f.q/2 {
			c = fmt.Sprintf("(- %d)", f.q-t.c)
		}
		if t.k == 0 {
			parts = append(parts, c)
		} else {
			parts = append(parts, "(* "+c+" "+e.monoVar(t.k, exact)+")")
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

func (e *Enc) namedVars() []string {
	var r []string
	for _, n := range e.nodes {
		if n.name != "" {
			r = append(r, fmt.Sprintf("n%d", n.id))
		}
	}
	sort.Strings(r)
	return r
}

func (e *Enc) assignment(model map[string]*big.Int) map[string]string {
	r := map[string]string{}
	for _, n := range e.nodes {
		if n.name == "" {
			continue
		}
		if _, ok := e.s.vars[n.name]; !ok {
			continue
		}
		if v, ok := model[fmt.Sprintf("n%d", n.id)]; ok {
			r[n.name] = v.String()
		}
	}
	return r
}

func realLit(x *big.Int) string {
	if x.Sign() < 0 {
		return "(- " + new(big.Int).Neg(x).String() + ".0)"
	}
	return x.String() + ".0"
}

// realForm encodes g*f over the reals; monomials are exact products
func (e *Enc) realForm(f Form, g *big.Int) string {
	if len(f) == 0 {
		return "0.0"
	}
	var parts []string
	gr := new(big.Rat).SetInt(g)
	for _, t := range f {
		c := new(big.Rat).Mul(t.c, gr)
		s := realLit(c.Num())
		if !c.IsInt() {
			s = "(/ " + s + " " + c.Denom().String() + ".0)"
		}
		for _, n := range t.n {
			if n != nil {
				s = "(* " + s + " " + e.node(n) + ")"
			}
		}
		parts = append(parts, s)
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}
