package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
)

const vpPkg = "verifharness/vp."

func u64s(v Value) []uint64 {
	s, _ := v.p.(*Slice)
	if s == nil {
		return nil
	}
	r := make([]uint64, s.len)
	for i := range r {
		c := s.o.cells[s.off+i]
		if c.p != nil {
			panic(unsupported("symbolic modulus list"))
		}
		r[i] = c.u
	}
	return r
}

func cellsOf(v Value) []Value {
	s, _ := v.p.(*Slice)
	if s == nil {
		return nil
	}
	return s.o.cells[s.off : s.off+s.len]
}

func (m *Machine) freshVar(name string, lo, hi *big.Int) Value {
	if lo.Cmp(hi) == 0 {
		return Value{u: new(big.Int).And(lo, max64).Uint64()}
	}
	n := m.sym.variable(name, lo, hi)
	m.sym.atomID(n)
	return Value{p: n}
}

func init() {
	def := func(n string, f intrFn) { intrinsics[vpPkg+n] = f }
	def("Pick", func(m *Machine, fr *Frame, a []Value) Value {
		r := m.run
		n := m.toInt(a[1])
		i := len(r.Choices)
		c := 0
		if i < len(r.prefix) {
			c = r.prefix[i]
		} else {
			for k := 1; k < n; k++ {
				r.Alt = append(r.Alt, append(append([]int{}, r.Choices...), k))
			}
		}
		r.Choices = append(r.Choices, c)
		r.Names = append(r.Names, str(a[0]))
		r.Ns = append(r.Ns, n)
		return Value{u: uint64(c)}
	})
	def("Tier", func(m *Machine, fr *Frame, a []Value) Value { return Value{u: uint64(m.run.tier)} })
	def("Native", func(m *Machine, fr *Frame, a []Value) Value { return bval(false) })
	def("Int", func(m *Machine, fr *Frame, a []Value) Value {
		return m.freshVar(str(a[0]), big.NewInt(int64(a[1].u)), big.NewInt(int64(a[2].u)))
	})
	def("U64", func(m *Machine, fr *Frame, a []Value) Value {
		return m.freshVar(str(a[0]), u64big(a[1].u), u64big(a[2].u))
	})
	def("Real", func(m *Machine, fr *Frame, a []Value) Value {
		b := int64(a[1].u)
		return Value{p: m.rc().variable(str(a[0]), b)}
	})
	def("Residues", func(m *Machine, fr *Frame, a []Value) Value {
		p := m.polyOf(a[1])
		for j, q := range u64s(a[2]) {
			m.sym.noteMod(q)
			row := m.row(p, j, 1)
			for i := 0; i < row.len; i++ {
				m.store(row.o, row.off+i, m.freshVar(fmt.Sprintf("%s[%d][%d]", str(a[0]), j, i), new(big.Int), u64big(q-1)), false)
			}
		}
		return Value{}
	})
	def("Havoc", func(m *Machine, fr *Frame, a []Value) Value {
		p := m.polyOf(a[1])
		for j, q := range u64s(a[2]) {
			m.sym.noteMod(q)
			row := m.row(p, j, 1)
			for i := 0; i < row.len; i++ {
				hi := u64big(q - 1)
				if _, h := m.sym.rangeOf(row.o.cells[row.off+i], false); h.Cmp(hi) > 0 {
					hi = h
				}
				m.store(row.o, row.off+i, m.freshVar(fmt.Sprintf("%s[%d][%d]", str(a[0]), j, i), new(big.Int), hi), false)
			}
		}
		return Value{}
	})
	def("Small", func(m *Machine, fr *Frame, a []Value) Value {
		p := m.polyOf(a[1])
		b := int64(a[3].u)
		mods := u64s(a[2])
		n := p.rows[0].len
		for i := 0; i < n; i++ {
			v := m.freshVar(fmt.Sprintf("%s[%d]", str(a[0]), i), big.NewInt(-b), big.NewInt(b))
			for j, q := range mods {
				row := m.row(p, j, 1)
				m.store(row.o, row.off+i, m.putSmall(v, q, 1, Value{}, false), false)
			}
		}
		return Value{}
	})
	def("Wide", func(m *Machine, fr *Frame, a []Value) Value {
		p := m.polyOf(a[1])
		Q := big.NewInt(1)
		for _, q := range u64s(a[2]) {
			m.sym.noteMod(q)
			Q.Mul(Q, u64big(q))
		}
		Q.Sub(Q, bigOne)
		n := p.rows[0].len
		for i := 0; i < n; i++ {
			v := m.freshVar(fmt.Sprintf("%s[%d]", str(a[0]), i), new(big.Int), Q)
			for j, q := range u64s(a[3]) {
				m.sym.noteMod(q)
				row := m.row(p, j, 1)
				m.store(row.o, row.off+i, m.sym.canonNode(m.sym.nodeRes(v.p.(*Node), q)), false)
			}
		}
		return Value{}
	})
	def("Noise", func(m *Machine, fr *Frame, a []Value) Value { m.symNoise = a[0].u != 0; return Value{} })
	def("Uniform", func(m *Machine, fr *Frame, a []Value) Value { m.symUniform = a[0].u != 0; return Value{} })
	def("MapOrder", func(m *Machine, fr *Frame, a []Value) Value { m.mapOrder = m.toInt(a[0]); return Value{} })
	def("Exact", func(m *Machine, fr *Frame, a []Value) Value { m.exactReals = true; return Value{} })
	def("True", func(m *Machine, fr *Frame, a []Value) Value { m.assertTrue(str(a[0]), a[1]); return Value{} })
	eqInt := func(sg bool) intrFn {
		return func(m *Machine, fr *Frame, a []Value) Value {
			if a[1].p == nil && a[2].p == nil {
				m.assertTrue(fmt.Sprintf("%s (%d vs %d)", str(a[0]), int64(a[1].u), int64(a[2].u)), bval(a[1].u == a[2].u))
				return Value{}
			}
			f := formAddScaled(m.sym.toFormS(a[1], sg), m.sym.toFormS(a[2], sg), minusOne)
			if len(f) == 0 {
				m.assertTrue(str(a[0]), bval(true))
				return Value{}
			}
			m.assertTrue(str(a[0]), Value{p: &Cond{kind: 0, op: "==", f: f}})
			return Value{}
		}
	}
	def("EqU", eqInt(false))
	def("EqInt", eqInt(true))
	def("EqF", func(m *Machine, fr *Frame, a []Value) Value {
		x, y := m.conc(a[1]), m.conc(a[2])
		fx, fy := f64(x), f64(y)
		ok := math.Abs(fx-fy) <= math.Ldexp(math.Max(math.Abs(fx), math.Abs(fy)), -40)
		m.assertTrue(fmt.Sprintf("%s (%g vs %g)", str(a[0]), fx, fy), bval(ok))
		return Value{}
	})
	def("EqReal", func(m *Machine, fr *Frame, a []Value) Value {
		m.assertReal(str(a[0]), a[1], a[2], f64(a[3]))
		return Value{}
	})
	def("EqRow", func(m *Machine, fr *Frame, a []Value) Value {
		g, w := cellsOf(a[1]), cellsOf(a[2])
		if len(g) != len(w) {
			m.assertTrue(str(a[0])+": lengths", bval(false))
			return Value{}
		}
		m.sym.noteMod(a[3].u)
		m.assertEqRes(str(a[0]), g, w, a[3].u)
		return Value{}
	})
	def("EqPoly", func(m *Machine, fr *Frame, a []Value) Value {
		g, w := m.polyOf(a[1]), m.polyOf(a[2])
		mods := u64s(a[3])
		if len(g.rows) < len(mods) || len(w.rows) < len(mods) {
			m.assertTrue(fmt.Sprintf("%s: too few residue rows (%d,%d of %d)", str(a[0]), len(g.rows), len(w.rows), len(mods)), bval(false))
			return Value{}
		}
		for j, q := range mods {
			m.sym.noteMod(q)
			m.assertEqRes(fmt.Sprintf("%s/q%d", str(a[0]), j), rowCells(g.rows[j]), rowCells(w.rows[j]), q)
		}
		return Value{}
	})
	near := func(m *Machine, label string, gv Value, mods, drop []uint64, tv Value, divs []uint64, logB, halves int) {
		g, t := m.polyOf(gv), m.polyOf(tv)
		all := append(append([]uint64{}, mods...), drop...)
		if len(g.rows) < len(mods) || len(t.rows) < len(all) {
			m.assertTrue(fmt.Sprintf("%s: too few residue rows (%d,%d of %d)", label, len(g.rows), len(t.rows), len(all)), bval(false))
			return
		}
		D := big.NewInt(1)
		for _, q := range drop {
			D.Mul(D, u64big(q))
		}
		diff := make([][]*ResForm, len(all))
		n := g.rows[0].len
		for j, q := range all {
			m.sym.noteMod(q)
			diff[j] = make([]*ResForm, n)
			for i := 0; i < n; i++ {
				f := rfScale(m.sym.valRes(t.rows[j].o.cells[t.rows[j].off+i], q), q-1)
				if j < len(mods) {
					f = rfAddScaled(f, m.sym.valRes(g.rows[j].o.cells[g.rows[j].off+i], q), bigMod(D, q))
				}
				diff[j][i] = f
			}
		}
		B := new(big.Int).Lsh(bigOne, uint(logB))
		if halves > 0 {
			B.Mul(D, big.NewInt(int64(halves)))
			B.Rsh(B, 1)
			B.Add(B, new(big.Int).Rsh(D, 20))
		}
		m.assertNear(label, all, diff, divs, B)
	}
	def("NearDiv", func(m *Machine, fr *Frame, a []Value) Value {
		near(m, str(a[0]), a[1], u64s(a[2]), u64s(a[3]), a[4], nil, 0, m.toInt(a[5]))
		return Value{}
	})
	def("Near", func(m *Machine, fr *Frame, a []Value) Value {
		near(m, str(a[0]), a[1], u64s(a[3]), nil, a[2], u64s(a[4]), m.toInt(a[5]), 0)
		return Value{}
	})
	def("NearScaled", func(m *Machine, fr *Frame, a []Value) Value {
		near(m, str(a[0]), a[1], u64s(a[2]), u64s(a[3]), a[4], u64s(a[5]), m.toInt(a[6]), 0)
		return Value{}
	})
	def("Fresh", func(m *Machine, fr *Frame, a []Value) Value {
		label := str(a[0])
		mods := u64s(a[2])
		b := int64(a[3].u)
		seen := map[int]bool{}
		var terms []string
		_ = terms
		ok := true
		why := ""
		for k, pv := range cellsOf(a[1]) {
			p := m.polyOf(pv)
			for i := 0; i < p.rows[0].len; i++ {
				// the same form modulo every modulus, a bounded combination of sampler outputs
				rem := make([]*ResForm, len(mods))
				for j, q := range mods {
					rem[j] = m.sym.valRes(p.rows[j].o.cells[p.rows[j].off+i], q)
				}
				W, okk := m.eliminate(mods, rem, nil, bigOne)
				if !okk {
					ok, why = false, fmt.Sprintf("row %d coefficient %d: not a small integer", k, i)
					break
				}
				lo, hi := W.bounds(m.sym)
				e := newEnc(m.sym)
				s := e.linW(W)
				m.run.Assert++
				res, _ := m.run.Solver.check(e.sb.String()+fmt.Sprintf("(assert (or (> %s %d) (< %s (- %d))))\n", s, b, s, b), nil)
				if res == "unsat" {
					m.run.Proved++
				} else {
					ok, why = false, fmt.Sprintf("row %d coefficient %d: error in [%v,%v], allowed %d", k, i, lo, hi, b)
					break
				}
				nonconst := false
				for _, t := range W {
					for _, at := range monoAtoms(t.k) {
						nonconst = true
						if seen[at] {
							ok, why = false, fmt.Sprintf("row %d coefficient %d reuses a noise sample", k, i)
						}
						seen[at] = true
					}
				}
				if !nonconst {
					ok, why = false, fmt.Sprintf("row %d coefficient %d carries no fresh noise", k, i)
				}
			}
			if !ok {
				break
			}
		}
		m.assertTrue(label+": "+why, bval(ok))
		return Value{}
	})
	// every coefficient can exceed b in absolute value for some draw
	def("Spread", func(m *Machine, fr *Frame, a []Value) Value {
		label := str(a[0])
		mods := u64s(a[2])
		b := int64(a[3].u)
		why := ""
		p := m.polyOf(a[1])
		for i := 0; i < p.rows[0].len && why == ""; i++ {
			rem := make([]*ResForm, len(mods))
			for j, q := range mods {
				rem[j] = m.sym.valRes(p.rows[j].o.cells[p.rows[j].off+i], q)
			}
			W, okk := m.eliminate(mods, rem, nil, bigOne)
			if !okk {
				continue // not a combination of small draws: unbounded
			}
			e := newEnc(m.sym)
			s := e.linW(W)
			m.run.Assert++
			res, _ := m.run.Solver.check(e.sb.String()+fmt.Sprintf("(assert (or (> %s %d) (< %s (- %d))))\n", s, b, s, b), nil)
			switch res {
			case "sat":
				m.run.Proved++
			case "unsat":
				why = fmt.Sprintf("coefficient %d never exceeds %d", i, b)
			}
		}
		m.assertTrue(label+": "+why, bval(why == ""))
		return Value{}
	})
	def("NegMul", func(m *Machine, fr *Frame, a []Value) Value {
		x, y := cellsOf(a[0]), cellsOf(a[1])
		q := m.qOf(a[2])
		n := len(x)
		fx, fy := make([]*ResForm, n), make([]*ResForm, n)
		for i := range x {
			fx[i] = m.sym.valRes(x[i], q)
			fy[i] = m.sym.valRes(y[i], q)
		}
		o := m.newObj(n)
		bulk := make([][]rterm, n)
		for i := range fx {
			for j := range fy {
				k := i + j
				neg := false
				if k >= n {
					k -= n
					neg = true
				}
				for _, s := range fx[i].t {
					c := s.c
					if neg {
						c = q - c
					}
					for _, t := range fy[j].t {
						bulk[k] = append(bulk[k], rterm{monoMul(s.k, t.k), mulm(c, t.c, q)})
					}
				}
			}
		}
		for k := range bulk {
			o.cells[k] = m.sym.canonNode(rfNorm(q, bulk[k]))
		}
		return Value{p: &Slice{o: o, len: n, cap: n, es: 1}}
	})
	def("MulMod", func(m *Machine, fr *Frame, a []Value) Value {
		q := m.qOf(a[2])
		return m.sym.canonNode(rfMul(m.sym.valRes(a[0], q), m.sym.valRes(a[1], q)))
	})
	def("AddMod", func(m *Machine, fr *Frame, a []Value) Value {
		q := m.qOf(a[2])
		return m.sym.canonNode(rfAdd(m.sym.valRes(a[0], q), m.sym.valRes(a[1], q)))
	})
	def("SubMod", func(m *Machine, fr *Frame, a []Value) Value {
		q := m.qOf(a[2])
		return m.sym.canonNode(rfSub(m.sym.valRes(a[0], q), m.sym.valRes(a[1], q)))
	})
	def("Panics", func(m *Machine, fr *Frame, a []Value) (ret Value) {
		cl := a[0].p.(*Closure)
		d := m.depth
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(*goPanic); !ok {
					panic(e)
				}
				m.depth = d
				ret = bval(true)
			}
		}()
		m.call(cl.fn, cl.bind, nil)
		return bval(false)
	})
	def("Snapshot", func(m *Machine, fr *Frame, a []Value) Value {
		var out []Value
		seen := map[*Obj]bool{}
		for _, v := range cellsOf(a[0]) {
			m.walkVal(v, &out, seen)
		}
		return Value{p: &snapV{out}}
	})
	def("Unchanged", func(m *Machine, fr *Frame, a []Value) Value {
		label := str(a[0])
		old := a[1].p.(*snapV).v
		var out []Value
		seen := map[*Obj]bool{}
		for _, v := range cellsOf(a[2]) {
			m.walkVal(v, &out, seen)
		}
		if len(out) != len(old) {
			m.assertTrue(label+": structure changed", bval(false))
			return Value{}
		}
		var g, w []Value
		for i := range out {
			if sameValue(out[i], old[i]) {
				continue
			}
			if isSym(out[i]) || isSym(old[i]) {
				g = append(g, out[i])
				w = append(w, old[i])
				continue
			}
			m.assertTrue(fmt.Sprintf("%s: contents changed (item %d)", label, i), bval(false))
			return Value{}
		}
		if len(g) == 0 {
			m.assertTrue(label, bval(true))
			return Value{}
		}
		var rest []int
		failed := len(m.run.Failed)
		for i := range g {
			if len(formAddScaled(m.sym.toForm(g[i]), m.sym.toForm(w[i]), minusOne)) == 0 {
				continue
			}
			// both are residues of one modulus: equal exactly when congruent
			if q := m.sym.commonModulus(g[i], w[i]); q > 1 {
				m.assertEqRes(label, g[i:i+1], w[i:i+1], q)
				continue
			}
			rest = append(rest, i)
		}
		for _, i := range rest {
			if len(m.run.Failed) > failed {
				break
			}
			f := formAddScaled(m.sym.toForm(g[i]), m.sym.toForm(w[i]), minusOne)
			m.assertTrue(label, Value{p: &Cond{kind: 0, op: "==", f: f}})
		}
		return Value{}
	})
	def("Disjoint", func(m *Machine, fr *Frame, a []Value) Value {
		sa, sb := map[any]bool{}, map[any]bool{}
		m.storage(a[1], sa, map[*Obj]bool{})
		m.storage(a[2], sb, map[*Obj]bool{})
		ok := true
		for k := range sa {
			if sb[k] {
				ok = false
			}
		}
		m.assertTrue(str(a[0])+": storage", bval(ok))
		return Value{}
	})
}

type snapV struct{ v []Value }

func rowCells(s *Slice) []Value {
	if s == nil {
		return nil
	}
	return s.o.cells[s.off : s.off+s.len]
}

// walkVal lists all scalar contents reachable from v
func (m *Machine) walkVal(v Value, out *[]Value, seen map[*Obj]bool) {
	switch p := v.p.(type) {
	case *Obj:
		if seen[p] {
			return
		}
		seen[p] = true
		for _, c := range p.cells {
			m.walkVal(c, out, seen)
		}
	case *Slice:
		*out = append(*out, Value{u: uint64(p.len)})
		if p.es == 1 && p.len > 0 {
			for i := 0; i < p.len; i++ {
				m.walkVal(p.o.cells[p.off+i], out, seen)
			}
		} else {
			for i := 0; i < p.len*p.es; i++ {
				m.walkVal(p.o.cells[p.off+i], out, seen)
			}
		}
	case *Iface:
		m.walkVal(p.v, out, seen)
	case *MapV:
		for _, e := range sortedEntries(p) {
			*out = append(*out, e.k)
			m.walkVal(e.v, out, seen)
		}
	case Agg:
		for _, c := range p {
			m.walkVal(c, out, seen)
		}
	case *Closure:
	default:
		*out = append(*out, v)
	}
}

func (m *Machine) storage(v Value, out map[any]bool, seen map[*Obj]bool) {
	switch p := v.p.(type) {
	case *Obj:
		if seen[p] {
			return
		}
		seen[p] = true
		for _, c := range p.cells {
			m.storage(c, out, seen)
		}
	case *Slice:
		scalar := p.len > 0
		for i := 0; i < p.len*p.es; i++ {
			c := p.o.cells[p.off+i]
			switch c.p.(type) {
			case nil, *Node, *Expr:
			default:
				scalar = false
			}
		}
		if scalar {
			out[cellKey{p.o, p.off}] = true
			return
		}
		for i := 0; i < p.len*p.es; i++ {
			m.storage(p.o.cells[p.off+i], out, seen)
		}
	case *Iface:
		m.storage(p.v, out, seen)
	case *MapV:
		out[p] = true
		for _, e := range sortedEntries(p) {
			m.storage(e.v, out, seen)
		}
	case Agg:
		for _, c := range p {
			m.storage(c, out, seen)
		}
	}
}

// assertReal: two real forms agree up to tol for all values of the variables
func (m *Machine) assertReal(label string, a, b Value, tol float64) {
	if m.isReal(a, b) || a.p == nil && b.p == nil {
		m.assertR(label, a, b, tol)
		return
	}
	r := m.run
	m.enough()
	r.Assert++
	r.Reached++
	fa, _ := m.toF(a)
	fb, _ := m.toF(b)
	d := formAddScaled(fa, fb, minusOne)
	e := newEnc(m.sym)
	e.real = true
	t := ratOfFloat(tol)
	L := lcd(d)
	g := new(big.Int).Mul(L, t.Denom())
	lim := new(big.Rat).Mul(t, new(big.Rat).SetInt(g)).Num()
	sa := e.realForm(fa, g)
	sb := e.realForm(fb, g)
	body := fmt.Sprintf("(assert (or (> (- %s %s) %s.0) (< (- %s %s) (- %s.0))))\n", sa, sb, lim, sa, sb, lim)
	res, model := r.Solver.check(e.sb.String()+body, e.namedVars())
	switch res {
	case "unsat":
		r.Proved++
	case "sat":
		r.Failed = append(r.Failed, fmt.Sprintf("%s: differ by %s", label, trimStr(d.String(), 200)))
		vals := e.assignment(model)
		r.Cands = append(r.Cands, Cand{Label: label, Mode: "rand", Seed: 7, Vals: nil}, Cand{Label: label, Mode: "zero", Vals: vals})
	default:
		r.Unknown = append(r.Unknown, label)
	}
}

func trimStr(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var _ = types.Identical
var _ = sort.Strings

func (s *SymCtx) commonModulus(a, b Value) uint64 {
	for _, v := range []Value{a, b} {
		for _, t := range s.toForm(v) {
			for _, n := range t.n {
				if n == nil || n.canon <= 1 {
					continue
				}
				q := u64big(n.canon)
				ok := true
				for _, x := range []Value{a, b} {
					lo, hi := s.rangeOf(x, false)
					if lo == nil || hi == nil || lo.Sign() < 0 || hi.Cmp(q) >= 0 {
						ok = false
					}
				}
				if ok {
					return n.canon
				}
			}
		}
	}
	return 0
}
