package props

import (
	"mk-lr/mkckks"

	"verifharness/vp"
)

const nsteps = 14

var stepNames = []string{"AddNew", "SubNew with scaling", "MultByConst 3", "MultByConst 0.5", "MulRelinNew", "MulRelinNew square", "MulPtxtNew",
	"RotateNew", "RotateNew composite", "ConjugateNew", "DropLevelNew", "RescaleNew", "MulRelinHoistedNew", "RotateHoistedNew"}

// step performs operation k on a (of the parties in ma) with the other operand y (of the parties in my), checks the result
// when check is set, and returns it with its parties.
func (w *world) step(name string, k int, ev *mkckks.Evaluator, a, y *mkckks.Ciphertext, ma, my int, check bool) (*mkckks.Ciphertext, int) {
	e := w.env
	l := a.Level()
	label := name + " " + stepNames[k]
	prod := func(b *mkckks.Ciphertext, m int, out *mkckks.Ciphertext) {
		if check {
			lo := minInt(l, b.Level())
			e.checkProduct(label, out, w.set, ma|m, e.mulP(e.dec(a.Ciphertext, w.set), e.dec(b.Ciphertext, w.set), e.Q[:lo+1]), lo, a.Scale*b.Scale, 8)
		}
	}
	switch k {
	case 0:
		r := ev.AddNew(a, y)
		if check {
			checkAddSub(e, false, r, a, y, ma, my)
		}
		return r, ma | my
	case 1:
		c := &mkckks.Ciphertext{Ciphertext: y.Ciphertext, Scale: y.Scale * 8}
		r := ev.SubNew(c, a)
		if check {
			checkAddSub(e, true, r, c, a, my, ma)
		}
		return r, ma | my
	case 2, 3:
		c := constCases[0]
		if k == 3 {
			c = constCases[9]
		}
		r := mkckks.NewCiphertext(e.p, ids(ma), l, 1)
		if check {
			multConst(e, c, a, r, ma, l)
		} else {
			ev.MultByConst(a, c.c, r)
		}
		return r, ma
	case 4:
		r := ev.MulRelinNew(a, y, w.rlk)
		prod(y, my, r)
		return r, ma | my
	case 5:
		r := ev.MulRelinNew(a, a, w.rlk)
		prod(a, ma, r)
		return r, ma
	case 6:
		pt := e.ptxt(name+".pt", e.maxL, scale)
		r := ev.MulPtxtNew(a, pt)
		if check {
			nd := e.drops(a.Scale*scale, l, e.p.Scale())
			if e.hasParties(label, r.Ciphertext, ma, l-nd) {
				for _, id := range append([]string{"0"}, parties(ma)...) {
					pr := e.mulP(a.Value[id], pt.Value, e.Q[:l+1])
					if nd == 0 {
						vp.EqPoly(label, r.Value[id], pr, e.Q[:l+1])
					} else {
						vp.NearDiv(label, r.Value[id], e.Q[:l-nd+1], e.Q[l-nd+1:l+1], pr, 1)
					}
				}
			}
		}
		return r, ma
	case 7, 8, 13:
		n := map[int]int{7: 2, 8: 7, 13: 4}[k]
		var r *mkckks.Ciphertext
		if k == 13 {
			r = ev.RotateHoistedNew(a, n, ev.HoistedForm(a), w.rk)
		} else {
			r = ev.RotateNew(a, n, w.rk)
		}
		if check {
			e.checkRot(label, r, a, w.set, ma, l, n)
		}
		return r, ma
	case 9:
		r := ev.ConjugateNew(a, w.ck)
		if check {
			e.checkConj(label, r, a, w.set, ma, l)
		}
		return r, ma
	case 10:
		r := ev.DropLevelNew(a, 1)
		if check {
			e.checkDrop(label, r, a, ma, l-1)
		}
		return r, ma
	case 11:
		c := &mkckks.Ciphertext{Ciphertext: a.Ciphertext, Scale: a.Scale * scale}
		r, err := ev.RescaleNew(c, scale)
		vp.True("no error", err == nil)
		if check {
			e.checkRescale(label, r, c, ma, l, c.Scale, scale)
		}
		return r, ma
	}
	r := ev.MulRelinHoistedNew(a, y, ev.HoistedForm(a), ev.HoistedForm(y), w.rlk)
	prod(y, my, r)
	return r, ma | my
}

// wellFormed: all components at one level, in the coefficient domain.
func (w *world) wellFormed(label string, c *mkckks.Ciphertext, mask int) bool {
	for _, p := range c.Value {
		vp.True(label+": coefficient domain", !p.IsNTT)
		vp.True(label+": ring degree", p.Degree() == w.N)
		ok := true
		for j := range p.Coeffs {
			for _, x := range p.Coeffs[j] {
				if x > w.Q[j] {
					ok = false
				}
			}
		}
		vp.True(label+": residues", ok)
	}
	return w.hasParties(label, c.Ciphertext, mask, c.Level())
}

// chain performs n operations in a row and checks the last.
func chain(n int) {
	nq := 3 + vp.Tier()
	w := newWorld(4, nq, 2, 3)
	m := [][2]int{{1, 2}, {3, 1}}[vp.Pick("parties", 1+vp.Tier())]
	ev := mkckks.NewEvaluator(w.p)
	c, mask := w.symCT("x", m[0], nq-1, scale), m[0]
	y := w.symCT("y", m[1], nq-1, scale)
	prev := -1
	for i := 0; i < n; i++ {
		k := vp.Pick("step "+itoa(i), nsteps)
		if vp.Tier() == 0 && i == 1 && (prev == 0 && (k == 5 || k == 12) || prev == 1 && (k == 4 || k == 5)) {
			return // costly, left to the thorough check
		}
		prev = k
		snap := vp.Snapshot(c, y)
		c2, mask2 := w.step("s"+itoa(i), k, ev, c, y, mask, m[1], i == n-1)
		vp.Unchanged("operands", snap, c, y)
		vp.Disjoint("result and operand", c2, c)
		vp.Disjoint("result and other operand", c2, y)
		vp.Disjoint("result and evaluator", c2, ev)
		if !w.wellFormed("result of "+stepNames[k], c2, mask2) {
			return
		}
		c, mask = c2, mask2
		if i < n-1 {
			w.cut("c"+itoa(i), c)
		}
	}
}

// C22_two: ordered pairs of operations.
func C22_two() { chain(2) }

// cut replaces the contents of a ciphertext by arbitrary residues in the ranges they have, in place.
func (w *world) cut(name string, c *mkckks.Ciphertext) {
	for _, id := range append([]string{"0"}, names...) {
		if p, ok := c.Value[id]; ok {
			vp.Havoc(name+"."+id, p, w.Q[:len(p.Coeffs)])
		}
	}
}
