package main

import (
	"fmt"
	"math"
	"math/big"
	"strings"
)

// centred integer form of a residue form modulo q whose atoms are small: the unique combination with centred coefficients,
// provided it is known to stay strictly within (-q/2, q/2).
func (m *Machine) centred(f *ResForm) (wform, bool) {
	q := f.q
	var w wform
	for _, t := range f.t {
		c := u64big(t.c)
		if t.c > q/2 {
			c.Sub(c, u64big(q))
		}
		w = append(w, wterm{t.k, c})
	}
	lo, hi := w.bounds(m.sym)
	h := u64big(q / 2)
	if hi.Cmp(h) > 0 || lo.Cmp(new(big.Int).Neg(h)) < 0 {
		return nil, false
	}
	return w, true
}

func init() {
	// contract of lattigo's RingQP.ExtendBasisSmallNormAndCenter: the centred representative modulo the first prime of Q is written modulo every prime of P
	intrinsics["(*github.com/ldsec/lattigo/v2/rlwe.RingQP).ExtendBasisSmallNormAndCenter"] = func(m *Machine, fr *Frame, a []Value) Value {
		o, ok := a[0].p.(*Obj)
		if !ok {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		t := m.namedType("github.com/ldsec/lattigo/v2/rlwe", "RingQP")
		rq := o.cells[int(a[0].u)+m.fieldByName(t, "RingQ")]
		rp := o.cells[int(a[0].u)+m.fieldByName(t, "RingP")]
		q0 := m.ringModuli(rq, 0)[0]
		mods := m.ringModuli(rp, m.toInt(a[2]))
		n := m.ringN(rq)
		in, out := m.polyOf(a[1]), m.polyOf(a[4])
		if a[3].p != nil && (a[3].p != a[1].p || a[3].u != a[1].u) {
			panic(unsupported("ExtendBasisSmallNormAndCenter with a separate Q output"))
		}
		src := m.row(in, 0, n)
		for j := 0; j < n; j++ {
			v := src.o.cells[src.off+j]
			for i, p := range mods {
				dst := m.row(out, i, n)
				var r Value
				if v.p == nil {
					c := v.u
					if c > q0>>1 {
						c = q0 - c
						r = Value{u: p - c}
					} else {
						r = Value{u: c}
					}
				} else {
					f := m.sym.valRes(v, q0)
					if nd, ok := v.p.(*Node); !ok || nd.canon != q0 && !(nd.lo.Sign() >= 0 && nd.hi.Cmp(u64big(q0)) < 0) {
						panic(unsupported("ExtendBasisSmallNormAndCenter of an unreduced value"))
					}
					w, ok := m.centred(f)
					if !ok {
						panic(unsupported("ExtendBasisSmallNormAndCenter of a value that is not small"))
					}
					r = m.sym.canonNode(m.sym.flattenW(w, p))
				}
				m.store(dst.o, dst.off+j, r, false)
			}
		}
		return Value{}
	}
}

// ---- CKKS encoder contract ----
//
// Encoding is an uninterpreted function of (values, number of slots, scale) giving small integer coefficients, represented modulo
// every modulus asked for; decoding returns opaque slots that remember the polynomial, level and scale they were decoded from.

type encTag struct{ key string }

type decTag struct {
	rows  [][]Value
	mods  []uint64
	scale float64
	slots int
	ntt   bool
}

func (m *Machine) cKey(v Value) string {
	re, im := m.cparts(v)
	fr, _ := m.toF(re)
	fi, _ := m.toF(im)
	return fr.key() + "|" + fi.key() + ";"
}

func (m *Machine) msgKey(vals []Value, slots int) string {
	k := ""
	n := len(vals)
	for n > 0 {
		re, im := m.cparts(vals[n-1])
		fr, _ := m.toF(re)
		fi, _ := m.toF(im)
		if len(fr) != 0 || len(fi) != 0 {
			break
		}
		n--
	}
	for _, v := range vals[:n] {
		k += m.cKey(v)
	}
	return fmt.Sprintf("%d:%s", slots, k)
}

func (m *Machine) encPoly(key string, scale float64, n int) []*Node {
	id, ok := m.tags["enc:"+key]
	if !ok {
		c, _ := m.tags["enccount"].(int)
		c++
		m.tags["enccount"] = c
		id = c
		m.tags["enc:"+key] = c
	}
	if !(scale >= 1) {
		panic(unsupported("encoding at a scale below one"))
	}
	b, _ := new(big.Float).SetFloat64(scale * 4).Int(nil)
	r := make([]*Node, n)
	for i := range r {
		nm := fmt.Sprintf("enc%d@%g[%d]", id.(int), scale, i)
		r[i] = m.sym.variable(nm, new(big.Int).Neg(b), b)
		m.sym.atomID(r[i])
	}
	return r
}

func init() {
	const T = "(*github.com/ldsec/lattigo/v2/ckks.encoderComplex128)."
	encRing := func(m *Machine, v Value) (Value, int) {
		o, ok := v.p.(*Obj)
		if !ok {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		t := m.namedType("github.com/ldsec/lattigo/v2/ckks", "encoderComplex128")
		_ = t
		et := m.namedType("github.com/ldsec/lattigo/v2/ckks", "encoder")
		pp := o.cells[int(v.u)+m.fieldByName(et, "polypool")]
		return pp, m.polyOf(pp).rows[0].len
	}
	intrinsics[T+"Embed"] = func(m *Machine, fr *Frame, a []Value) Value {
		_, n := encRing(m, a[0])
		vals := cellsOf(a[1])
		slots := 1 << uint(m.toInt(a[2]))
		if len(vals) > n/2 || len(vals) > slots || slots > n/2 {
			panic(&goPanic{msg: "cannot Encode: too many values/slots for the given ring degree"})
		}
		m.tags[[2]any{"embed", a[0].p}] = encTag{m.msgKey(vals, slots)}
		return Value{}
	}
	intrinsics[T+"ScaleUp"] = func(m *Machine, fr *Frame, a []Value) Value {
		_, n := encRing(m, a[0])
		t, ok := m.tags[[2]any{"embed", a[0].p}].(encTag)
		if !ok {
			t = encTag{fmt.Sprintf("%d:", n/2)}
		}
		p := m.polyOf(a[1])
		sc := f64(m.conc(a[2]))
		xs := m.encPoly(t.key, sc, n)
		for j, q := range u64s(a[3]) {
			m.sym.noteMod(q)
			row := m.row(p, j, n)
			for i := range xs {
				m.store(row.o, row.off+i, m.sym.canonNode(m.sym.nodeRes(xs[i], q)), false)
			}
		}
		return Value{}
	}
	intrinsics[T+"decodePublic"] = func(m *Machine, fr *Frame, a []Value) Value {
		_, n := encRing(m, a[0])
		if f64(m.conc(a[3])) != 0 {
			panic(unsupported("DecodePublic with noise"))
		}
		slots := 1 << uint(m.toInt(a[2]))
		if slots > n/2 {
			panic(&goPanic{msg: "cannot Decode: too many slots for the given ring degree"})
		}
		po, ok := a[1].p.(*Obj)
		if !ok {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		pt := m.namedType("github.com/ldsec/lattigo/v2/ckks", "Plaintext")
		inner := po.cells[int(a[1].u)+m.fieldByName(pt, "Plaintext")]
		sc := po.cells[int(a[1].u)+m.fieldByName(pt, "Scale")]
		io, ok := inner.p.(*Obj)
		if !ok {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		polyV := io.cells[inner.u]
		p := m.polyOf(polyV)
		poly := polyV.p.(*Obj)
		nttOff := m.fieldByName(m.namedType("github.com/ldsec/lattigo/v2/ring", "Poly"), "IsNTT")
		d := decTag{scale: f64(m.conc(sc)), slots: slots, ntt: poly.cells[int(polyV.u)+nttOff].u != 0}
		for _, r := range p.rows {
			d.rows = append(d.rows, append([]Value{}, rowCells(r)...))
		}
		o := m.newObj(slots)
		for i := range o.cells {
			nd := m.sym.newNode(big.NewInt(-1<<40), big.NewInt(1<<40))
			f := Value{p: &FSym{f: formNode(nd), err: new(big.Rat)}}
			o.cells[i] = Value{p: &CSym{f, fval(0)}}
		}
		m.tags[[2]any{"dec", o.cells[0].p}] = d
		return Value{p: &Slice{o: o, len: slots, cap: slots, es: 1}}
	}
	// EqMsg(label, got, want, mods, scale, logB)
	intrinsics[vpPkg+"EqMsg"] = func(m *Machine, fr *Frame, a []Value) Value {
		label := str(a[0])
		g, w := cellsOf(a[1]), cellsOf(a[2])
		mods := u64s(a[3])
		sc := f64(a[4])
		if len(g) == 0 {
			m.assertTrue(label+": empty message", bval(false))
			return Value{}
		}
		d, ok := m.tags[[2]any{"dec", g[0].p}].(decTag)
		if !ok {
			panic(unsupported("message does not come from a decoder"))
		}
		m.assertTrue(fmt.Sprintf("%s: slots (%d vs %d)", label, len(g), len(w)), bval(len(g) == len(w) && d.slots == len(g)))
		m.assertTrue(fmt.Sprintf("%s: decoded at level %d, expected %d", label, len(d.rows)-1, len(mods)-1), bval(len(d.rows) == len(mods)))
		m.assertTrue(fmt.Sprintf("%s: decoded with scale %g, expected %g", label, d.scale, sc), bval(math.Abs(d.scale-sc) <= math.Ldexp(sc, -30)))
		if len(d.rows) != len(mods) {
			return Value{}
		}
		if d.ntt {
			panic(unsupported("decoding a plaintext flagged NTT"))
		}
		n := len(d.rows[0])
		xs := m.encPoly(m.msgKey(w, len(w)), sc, n)
		diff := make([][]*ResForm, len(mods))
		for j, q := range mods {
			diff[j] = make([]*ResForm, n)
			for i := 0; i < n; i++ {
				diff[j][i] = rfSub(m.sym.valRes(d.rows[j][i], q), m.sym.nodeRes(xs[i], q))
			}
		}
		m.assertNear(label, mods, diff, nil, new(big.Int).Lsh(bigOne, uint(m.toInt(a[5]))))
		return Value{}
	}
	// Msg(name, n): n arbitrary slots
	intrinsics[vpPkg+"Msg"] = func(m *Machine, fr *Frame, a []Value) Value {
		n := m.toInt(a[1])
		o := m.newObj(n)
		for i := range o.cells {
			re := m.freshVar(fmt.Sprintf("%s.re[%d]", str(a[0]), i), big.NewInt(-1), big.NewInt(1))
			im := m.freshVar(fmt.Sprintf("%s.im[%d]", str(a[0]), i), big.NewInt(-1), big.NewInt(1))
			o.cells[i] = Value{p: &CSym{Value{p: &FSym{f: formNode(re.p.(*Node)), err: new(big.Rat)}}, Value{p: &FSym{f: formNode(im.p.(*Node)), err: new(big.Rat)}}}}
		}
		return Value{p: &Slice{o: o, len: n, cap: n, es: 1}}
	}
	// Differ(label, a, b): the two polynomials are not the same for all values (fresh randomness)
	intrinsics[vpPkg+"Differ"] = func(m *Machine, fr *Frame, a []Value) Value {
		x, y := m.polyOf(a[1]), m.polyOf(a[2])
		mods := u64s(a[3])
		e := newEnc(m.sym)
		var dis []string
		for j, q := range mods {
			if j >= len(x.rows) || j >= len(y.rows) {
				break
			}
			cx, cy := rowCells(x.rows[j]), rowCells(y.rows[j])
			for i := range cx {
				d := rfSub(m.sym.valRes(cx[i], q), m.sym.valRes(cy[i], q))
				if len(d.t) > 0 && len(dis) == 0 {
					dis = append(dis, fmt.Sprintf("(not (= (mod %s %d) 0))", e.resForm(m.sym.restrict(d)), q))
				}
			}
		}
		m.run.Assert++
		m.run.Reached++
		res := "unsat"
		if len(dis) > 0 {
			res, _ = m.run.Solver.check(e.sb.String()+"(assert (or false "+strings.Join(dis, " ")+"))\n", nil)
		}
		switch res {
		case "sat":
			m.run.Proved++
		case "unsat":
			m.run.Failed = append(m.run.Failed, str(a[0])+": always equal")
		default:
			m.run.Unknown = append(m.run.Unknown, str(a[0]))
		}
		return Value{}
	}
}

// restrict sets all atoms to zero but those of one monomial of least degree (only when zero is in the range of the others)
func (s *SymCtx) restrict(d *ResForm) *ResForm {
	best := -1
	for i, t := range d.t {
		if t.k != 0 && (best < 0 || len(monoAtoms(t.k)) < len(monoAtoms(d.t[best].k))) {
			best = i
		}
	}
	if best < 0 {
		return d
	}
	keep := map[int]bool{}
	for _, a := range monoAtoms(d.t[best].k) {
		keep[a] = true
	}
	r := &ResForm{q: d.q}
	for _, t := range d.t {
		in := true
		for _, a := range monoAtoms(t.k) {
			if !keep[a] {
				in = false
				if n := s.atoms[a]; n.lo.Sign() > 0 || n.hi.Sign() < 0 {
					return d
				}
			}
		}
		if in {
			r.t = append(r.t, t)
		}
	}
	return r
}
