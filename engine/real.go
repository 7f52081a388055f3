package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Exact real arithmetic for programs over real-valued data: a value is a hash-consed expression over the input variables,
// expanded into a polynomial with rational coefficients when an assertion needs it. Constants are the program's own float64
// constants; operations on symbolic values are exact.

type RNode struct {
	id   int
	op   byte // 'v' variable, 'c' constant, '+', '*'
	a, b *RNode
	c    *big.Rat
	name string
	lim  int64 // |variable| <= lim; 0: no bound
	poly rpoly
}

type rkey struct {
	op   byte
	a, b int
	s    string
}

// rpoly maps a monomial (pairs of variable id and exponent, two bytes each, ascending) to its coefficient.
type rpoly map[string]*big.Rat

type realCtx struct {
	tab  map[rkey]*RNode
	vars []*RNode // indexed by variable number
	vnum map[*RNode]int
	cmp  map[string]*Node
	args []map[string]float64 // arguments of roots, inverses and comparisons seen so far
	argn map[*RNode]int
	cmpk map[string]string
	text map[string]Value // CSV cells that stand for variables
}

const maxTerms = 400000

func (m *Machine) rc() *realCtx {
	if m.reals == nil {
		m.reals = &realCtx{argn: map[*RNode]int{}, cmpk: map[string]string{}, tab: map[rkey]*RNode{}, vnum: map[*RNode]int{}, cmp: map[string]*Node{}, text: map[string]Value{}}
	}
	return m.reals
}

func (r *realCtx) get(k rkey, mk func() *RNode) *RNode {
	if n := r.tab[k]; n != nil {
		return n
	}
	n := mk()
	n.id = len(r.tab) + 1
	r.tab[k] = n
	return n
}

func (r *realCtx) variable(name string, lim int64) *RNode {
	return r.get(rkey{op: 'v', s: name}, func() *RNode {
		n := &RNode{op: 'v', name: name, lim: lim}
		r.vnum[n] = len(r.vars)
		r.vars = append(r.vars, n)
		return n
	})
}

func (r *realCtx) constant(c *big.Rat) *RNode {
	return r.get(rkey{op: 'c', s: c.String()}, func() *RNode { return &RNode{op: 'c', c: c} })
}

func (r *realCtx) bin(op byte, a, b *RNode) *RNode {
	if a.op == 'c' && b.op == 'c' {
		c := new(big.Rat)
		if op == '+' {
			c.Add(a.c, b.c)
		} else {
			c.Mul(a.c, b.c)
		}
		return r.constant(c)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return r.get(rkey{op: op, a: a.id, b: b.id}, func() *RNode { return &RNode{op: op, a: a, b: b} })
}

func (m *Machine) isReal(a, b Value) bool {
	_, x := a.p.(*RNode)
	_, y := b.p.(*RNode)
	return x || y
}

func (m *Machine) toR(v Value) *RNode {
	switch p := v.p.(type) {
	case *RNode:
		return p
	case nil:
		f := f64(v)
		if f != f || f-f != 0 {
			panic(unsupported("symbolic real combined with an infinity or NaN"))
		}
		return m.rc().constant(ratOfFloat(f))
	}
	panic(unsupported(fmt.Sprintf("real of %T", v.p)))
}

func (m *Machine) rval(n *RNode) Value {
	if n.op == 'c' {
		if f, exact := n.c.Float64(); exact {
			return fval(f)
		}
	}
	return Value{p: n}
}

func isZeroF(v Value) bool { return v.p == nil && f64(v) == 0 }

func (m *Machine) rbin(op string, a, b Value) Value {
	r := m.rc()
	switch op {
	case "+", "-":
		if isZeroF(b) {
			return a
		}
		if isZeroF(a) && op == "+" {
			return b
		}
		x, y := m.toR(a), m.toR(b)
		if op == "-" {
			if x == y {
				return fval(0)
			}
			y = r.bin('*', r.constant(big.NewRat(-1, 1)), y)
		}
		return m.rval(r.bin('+', x, y))
	case "*":
		if isZeroF(a) || isZeroF(b) {
			return fval(0)
		}
		if a.p == nil && f64(a) == 1 {
			return b
		}
		if b.p == nil && f64(b) == 1 {
			return a
		}
		return m.rval(r.bin('*', m.toR(a), m.toR(b)))
	case "/":
		if isZeroF(b) {
			panic(unsupported("symbolic real divided by zero"))
		}
		if b.p == nil {
			return m.rval(r.bin('*', m.toR(a), r.constant(new(big.Rat).Inv(ratOfFloat(f64(b))))))
		}
		if isZeroF(a) {
			return fval(0)
		}
		inv := r.variable("1/("+m.polyKey(m.toR(b))+")", 1) // the harness keeps symbolic divisors at 1 or more
		return m.rval(r.bin('*', m.toR(a), inv))
	case "==", "!=", "<", "<=", ">", ">=":
		if op == "<" || op == "<=" {
			a, b = b, a
			op = map[string]string{"<": ">", "<=": ">="}[op]
		}
		x, y := m.toR(a), m.toR(b)
		if x == y {
			return bval(op == "==" || op == ">=")
		}
		neg := false
		switch op {
		case "!=":
			op, neg = "==", true
		case ">=": // not (b > a)
			x, y, op, neg = y, x, ">", true
		}
		if op == "==" && x.id > y.id {
			x, y = y, x
		}
		k := op + m.cmpKey(x, y, op == "==")
		n := r.cmp[k]
		if n == nil {
			n = m.sym.newNode(new(big.Int), bigOne)
			r.cmp[k] = n
		}
		want := int64(1)
		if neg {
			want = 0
		}
		return Value{p: &Cond{kind: 0, op: "==", f: formAddScaled(formNode(n), formConst(big.NewRat(want, 1)), minusOne)}}
	}
	panic(unsupported("operation " + op + " on reals"))
}

func (m *Machine) expand(n *RNode) rpoly {
	if n.poly != nil {
		return n.poly
	}
	p := rpoly{}
	switch n.op {
	case 'c':
		if n.c.Sign() != 0 {
			p[""] = n.c
		}
	case 'v':
		p[rmonoOf(m.rc().vnum[n])] = ratOne
	case '+':
		for k, c := range m.expand(n.a) {
			p[k] = c
		}
		for k, c := range m.expand(n.b) {
			addTerm(p, k, c)
		}
	case '*':
		x, y := m.expand(n.a), m.expand(n.b)
		if len(x)*len(y) > 40_000_000 {
			panic(unsupported("polynomial too large"))
		}
		for k, c := range x {
			for l, d := range y {
				addTerm(p, rmonoMul(k, l), new(big.Rat).Mul(c, d))
			}
		}
	}
	if len(p) > maxTerms {
		panic(unsupported("polynomial too large"))
	}
	n.poly = p
	return p
}

func addTerm(p rpoly, k string, c *big.Rat) {
	if o, ok := p[k]; ok {
		s := new(big.Rat).Add(o, c)
		if s.Sign() == 0 {
			delete(p, k)
		} else {
			p[k] = s
		}
		return
	}
	p[k] = c
}

func rmonoOf(v int) string {
	var b [4]byte
	binary.BigEndian.PutUint16(b[:], uint16(v))
	binary.BigEndian.PutUint16(b[2:], 1)
	return string(b[:])
}

func rmonoMul(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	r := make([]byte, 0, len(a)+len(b))
	for len(a) > 0 && len(b) > 0 {
		switch {
		case a[:2] < b[:2]:
			r = append(r, a[:4]...)
			a = a[4:]
		case a[:2] > b[:2]:
			r = append(r, b[:4]...)
			b = b[4:]
		default:
			e := (uint16(a[2])<<8 | uint16(a[3])) + (uint16(b[2])<<8 | uint16(b[3]))
			r = append(r, a[0], a[1], byte(e>>8), byte(e))
			a, b = a[4:], b[4:]
		}
	}
	r = append(r, a...)
	r = append(r, b...)
	return string(r)
}

func (p rpoly) keys() []string {
	ks := make([]string, 0, len(p))
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// relEps: coefficients that differ by less, relative to the largest, differ by the rounding of the program's constants only.
const relEps = 1e-12

func (m *Machine) floats(p rpoly) (map[string]float64, float64) {
	f := make(map[string]float64, len(p))
	max := 0.0
	for k, c := range p {
		x, _ := c.Float64()
		f[k] = x
		if x = math.Abs(x); x > max {
			max = x
		}
	}
	return f, max
}

func approx(p, q map[string]float64, scale float64) bool {
	for k, x := range p {
		if math.Abs(x-q[k]) > relEps*scale {
			return false
		}
	}
	for k, x := range q {
		if _, ok := p[k]; !ok && math.Abs(x) > relEps*scale {
			return false
		}
	}
	return true
}

// argument numbers a polynomial; polynomials equal up to rounding get one number.
func (r *realCtx) argument(f map[string]float64, max float64) int {
	for i, g := range r.args {
		if approx(f, g, max) {
			return i
		}
	}
	r.args = append(r.args, f)
	return len(r.args) - 1
}

func (m *Machine) polyKey(n *RNode) string {
	r := m.rc()
	i, ok := r.argn[n]
	if !ok {
		i = r.argument(m.floats(m.expand(n)))
		r.argn[n] = i
	}
	return strconv.Itoa(i)
}

// cmpKey identifies x-y up to a positive factor (any factor if even)
func (m *Machine) cmpKey(x, y *RNode, even bool) string {
	r := m.rc()
	id := fmt.Sprintf("%d-%d", x.id, y.id)
	if k, ok := r.cmpk[id]; ok {
		return k
	}
	d := rpoly{}
	for k, c := range m.expand(x) {
		d[k] = c
	}
	for k, c := range m.expand(y) {
		addTerm(d, k, new(big.Rat).Neg(c))
	}
	f, max := m.floats(d)
	if max == 0 {
		max = 1
	}
	for k := range f {
		f[k] /= max
	}
	if even {
		g := map[string]float64{}
		for k := range f {
			g[k] = -f[k]
		}
		for i, h := range r.args {
			if approx(g, h, 1) {
				r.cmpk[id] = strconv.Itoa(i)
				return r.cmpk[id]
			}
		}
	}
	r.cmpk[id] = strconv.Itoa(r.argument(f, 1))
	return r.cmpk[id]
}

func (m *Machine) sqrtR(n *RNode) Value {
	return m.rval(m.rc().variable("sqrt("+m.polyKey(n)+")", 0))
}

// monomial name in the solver; declared with its bounds (an over-approximation of the product), or as an exact product
func (m *Machine) monoSMT(k string, sb *strings.Builder, seen map[string]string, exact bool) string {
	if k == "" {
		return "1.0"
	}
	if s, ok := seen[k]; ok {
		return s
	}
	r := m.rc()
	var fs []string
	lim := big.NewInt(1)
	even := true
	for i := 0; i < len(k); i += 4 {
		v := r.vars[int(k[i])<<8|int(k[i+1])]
		e := int(k[i+2])<<8 | int(k[i+3])
		if e%2 != 0 {
			even = false
		}
		lim.Mul(lim, new(big.Int).Exp(big.NewInt(v.lim), big.NewInt(int64(e)), nil))
		for j := 0; j < e; j++ {
			fs = append(fs, fmt.Sprintf("v%d", r.vnum[v]))
		}
		if exact {
			vn := fmt.Sprintf("v%d", r.vnum[v])
			if _, ok := seen["!"+vn]; !ok {
				seen["!"+vn] = vn
				fmt.Fprintf(sb, "(declare-const %s Real)\n", vn)
				if v.lim > 0 {
					fmt.Fprintf(sb, "(assert (<= (- %d.0) %s %d.0))\n", v.lim, vn, v.lim)
				}
			}
		}
	}
	var s string
	if exact {
		s = fs[0]
		if len(fs) > 1 {
			s = "(* " + strings.Join(fs, " ") + ")"
		}
	} else {
		s = fmt.Sprintf("m%d", len(seen))
		fmt.Fprintf(sb, "(declare-const %s Real)\n", s)
		if lim.Sign() > 0 {
			lo := fmt.Sprintf("(- %s.0)", lim)
			if even {
				lo = "0.0"
			}
			fmt.Fprintf(sb, "(assert (<= %s %s %s.0))\n", lo, s, lim)
		}
	}
	seen[k] = s
	return s
}

// monoLim bounds the absolute value of a monomial; nil: no bound
func (m *Machine) monoLim(k string) *big.Int {
	lim := big.NewInt(1)
	for i := 0; i < len(k); i += 4 {
		v := m.rc().vars[int(k[i])<<8|int(k[i+1])]
		if v.lim == 0 {
			return nil
		}
		e := int(k[i+2])<<8 | int(k[i+3])
		lim.Mul(lim, new(big.Int).Exp(big.NewInt(v.lim), big.NewInt(int64(e)), nil))
	}
	return lim
}

// roundRat returns c rounded to a multiple of 2^-bits and a bound on the rounding error
func roundRat(c *big.Rat, bits uint) (*big.Rat, *big.Rat) {
	one := new(big.Int).Lsh(bigOne, bits)
	n := new(big.Int).Mul(c.Num(), one)
	n.Quo(n, c.Denom())
	return new(big.Rat).SetFrac(n, one), new(big.Rat).SetFrac(bigOne, one)
}

func ratSMT(c *big.Rat) string {
	s := new(big.Int).Abs(c.Num()).String() + ".0"
	if !c.IsInt() {
		s = "(/ " + s + " " + c.Denom().String() + ".0)"
	}
	if c.Sign() < 0 {
		s = "(- " + s + ")"
	}
	return s
}

func (m *Machine) polySMT(p rpoly, sb *strings.Builder, seen map[string]string, exact bool) string {
	if len(p) == 0 {
		return "0.0"
	}
	var parts []string
	for _, k := range p.keys() {
		parts = append(parts, "(* "+ratSMT(p[k])+" "+m.monoSMT(k, sb, seen, exact)+")")
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, "\n ") + ")"
}

// assertR: |a-b| <= tol for all values of the variables
func (m *Machine) assertR(label string, a, b Value, tol float64) {
	r := m.run
	m.enough()
	r.Assert++
	r.Reached++
	pa, pb := m.expand(m.toR(a)), m.expand(m.toR(b))
	d := rpoly{}
	for k, c := range pa {
		d[k] = c
	}
	for k, c := range pb {
		addTerm(d, k, new(big.Rat).Neg(c))
	}
	if tol > 0 {
		// roots and inverses have no bound: their coefficients have to agree up to rounding
		_, max := m.floats(pb)
		for k, c := range d {
			if x, _ := c.Float64(); m.monoLim(k) == nil && math.Abs(x) <= relEps*max {
				delete(d, k)
			}
		}
	}
	// coefficients of many digits are rounded to 1/2^200, the rounding errors being taken off the tolerance
	var sb strings.Builder
	seen := map[string]string{}
	// the tolerance is relative to the size the second polynomial can have
	size := big.NewRat(1, 1)
	for k, c := range pb {
		if lim := m.monoLim(k); lim != nil {
			e := new(big.Rat).SetInt(lim)
			size.Add(size, e.Mul(e, new(big.Rat).Abs(c)))
		}
	}
	if tol > 0 {
		x, _ := size.Float64()
		if x > 1e300 {
			r.Unknown = append(r.Unknown, label+": out of range")
			return
		}
		tol *= x
	}
	rt := ratOfFloat(tol)
	dr := rpoly{}
	for k, c := range d {
		if c.Denom().BitLen() > 400 {
			f, e := roundRat(c, 200)
			if lim := m.monoLim(k); lim != nil {
				rt = new(big.Rat).Sub(rt, e.Mul(e, new(big.Rat).SetInt(lim)))
				c = f
			}
		}
		if c.Sign() != 0 {
			dr[k] = c
		}
	}
	t := ratSMT(ratOfFloat(tol))
	res := "sat"
	if rt.Sign() >= 0 {
		x := m.polySMT(dr, &sb, seen, false)
		res, _ = r.Solver.check(sb.String()+fmt.Sprintf("(define-fun d () Real %s)\n(assert (or (> d %s) (< d (- %s))))\n", x, ratSMT(rt), ratSMT(rt)), nil)
	}
	switch res {
	case "unsat":
		r.Proved++
		return
	case "sat":
		r.Failed = append(r.Failed, fmt.Sprintf("%s: differ in %d monomials", label, len(d)))
	default:
		r.Unknown = append(r.Unknown, label)
	}
	// concrete values: exact products
	cd := Cand{Label: label, Mode: "rand", Seed: 11}
	if len(d) < 400 {
		var sb strings.Builder
		seen := map[string]string{}
		x := m.polySMT(d, &sb, seen, true)
		var want []string
		for k, v := range seen {
			if strings.HasPrefix(k, "!") {
				want = append(want, v)
			}
		}
		sort.Strings(want)
		// natively a value is a multiple of 1/1024
		for _, v := range want {
			fmt.Fprintf(&sb, "(declare-const i%s Int)\n(assert (= (* 1024.0 %s) (to_real i%s)))\n", v, v, v)
		}
		var iw []string
		for _, v := range want {
			iw = append(iw, "i"+v)
		}
		res, model := r.Solver.checkT(5000, sb.String()+fmt.Sprintf("(define-fun d () Real %s)\n(assert (or (> d %s) (< d (- %s))))\n", x, t, t), iw)
		if res == "sat" {
			vals := map[string]string{}
			for _, v := range m.rc().vars {
				if x, ok := model[fmt.Sprintf("iv%d", m.rc().vnum[v])]; ok {
					vals[v.name] = x.String()
				}
			}
			cd = Cand{Label: label, Mode: "zero", Vals: vals}
		}
	}
	r.Cands = append(r.Cands, cd)
}
