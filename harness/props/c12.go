package props

import (
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"

	"github.com/ldsec/lattigo/v2/ckks"
	"verifharness/vp"
)

// world holds everything an evaluator may be given.
type world struct {
	*env
	set *mkrlwe.SecretKeySet
	rlk *mkrlwe.RelinearizationKeySet
	rk  *mkrlwe.RotationKeySet
	ck  *mkrlwe.ConjugationKeySet
}

func newWorld(logN, nq, np, mask int) *world {
	w := &world{env: newEnv(logN, nq, np)}
	w.set, w.rk = w.rotKeys(mask)
	w.rlk = mkrlwe.NewRelinearizationKeyKeySet(w.p.Parameters)
	w.ck = mkrlwe.NewConjugationKeySet()
	for _, id := range parties(mask) {
		sk := w.set.Value[id]
		w.rlk.AddRelinearizationKey(w.kg.GenRelinearizationKey(sk, w.kg.GenSecretKey(id)))
		w.ck.AddConjugationKey(w.kg.GenConjugationKey(sk))
	}
	return w
}

const nops = 17

var opNames = []string{"AddNew", "SubNew", "AddNew with scaling", "MulRelinNew", "MulRelinNew square", "MulPtxtNew", "RotateNew", "RotateNew composite",
	"RotateNew zero", "ConjugateNew", "DropLevelNew", "RescaleNew", "MulRelinHoistedNew", "RotateHoistedNew", "RescaleNew without division",
	"MultByConst integer", "MultByConst complex fraction"}

// op performs operation k.
func (w *world) op(k int, ev *mkckks.Evaluator, a, b *mkckks.Ciphertext, pt *ckks.Plaintext, ha, hb *mkrlwe.HoistedCiphertext) *mkckks.Ciphertext {
	switch k {
	case 0:
		return ev.AddNew(a, b)
	case 1:
		return ev.SubNew(a, b)
	case 2:
		c := &mkckks.Ciphertext{Ciphertext: b.Ciphertext, Scale: b.Scale * 8}
		if vp.Pick("which is smaller", 2) == 0 {
			return ev.AddNew(a, c)
		}
		return ev.SubNew(c, a)
	case 3:
		return ev.MulRelinNew(a, b, w.rlk)
	case 4:
		return ev.MulRelinNew(a, a, w.rlk)
	case 5:
		return ev.MulPtxtNew(a, pt)
	case 6:
		return ev.RotateNew(a, 2, w.rk)
	case 7:
		return ev.RotateNew(a, 7, w.rk)
	case 8:
		return ev.RotateNew(a, 0, w.rk)
	case 9:
		return ev.ConjugateNew(a, w.ck)
	case 10:
		return ev.DropLevelNew(a, 1)
	case 11:
		c := &mkckks.Ciphertext{Ciphertext: a.Ciphertext, Scale: a.Scale * a.Scale}
		r, err := ev.RescaleNew(c, w.p.Scale())
		vp.True("no error", err == nil)
		return r
	case 12:
		return ev.MulRelinHoistedNew(a, b, ha, hb, w.rlk)
	case 13:
		return ev.RotateHoistedNew(a, 4, ha, w.rk)
	case 15, 16:
		var c interface{} = 3
		if k == 16 {
			c = complex(0.5, -1.25)
		}
		r := mkckks.NewCiphertext(w.p, a.IDSet(), a.Level(), 1)
		ev.MultByConst(a, c, r)
		return r
	}
	r, err := ev.RescaleNew(a, w.p.Scale())
	vp.True("no error", err == nil)
	return r
}

// C12_effects: no operation changes anything it was given, nor shares storage with it.
func C12_effects() {
	w := newWorld(4, 3, 2, 3)
	k := vp.Pick("operation", nops)
	m := [][2]int{{1, 2}, {3, 1}, {2, 3}}[vp.Pick("parties", 3)]
	lv := vp.Pick("levels", 3)
	la, lb := []int{2, 2, 1}[lv], []int{2, 1, 2}[lv]
	ev := mkckks.NewEvaluator(w.p)
	a := w.symCT("a", m[0], la, scale)
	b := w.symCT("b", m[1], lb, scale)
	pt := w.ptxt("m", 2, scale)
	ha, hb := ev.HoistedForm(a), ev.HoistedForm(b)
	s1 := vp.Snapshot(a, b, pt)
	s2 := vp.Snapshot(ha, hb)
	s3 := vp.Snapshot(w.set, w.rlk.Value, w.rk, w.ck, w.p.CRS)
	out := w.op(k, ev, a, b, pt, ha, hb)
	vp.Unchanged(opNames[k]+": operands", s1, a, b, pt)
	vp.Unchanged(opNames[k]+": hoisted forms", s2, ha, hb)
	vp.Unchanged(opNames[k]+": keys and reference strings", s3, w.set, w.rlk.Value, w.rk, w.ck, w.p.CRS)
	vp.Disjoint(opNames[k]+": result and first operand", out, a)
	vp.Disjoint(opNames[k]+": result and second operand", out, b)
	vp.Disjoint(opNames[k]+": result and evaluator", out, ev)
	vp.Disjoint(opNames[k]+": result and keys", out, w.rlk)
}

// C12_history: the same operation with the same operands gives the same ciphertext from a fresh evaluator and from one that
// has performed another operation on other operands before.
func C12_history() {
	w := newWorld(4, 3, 2, 7)
	first := vp.Pick("first", nops)
	k := vp.Pick("second", nops)
	sh := vp.Pick("shape", 1+vp.Tier())
	ev := mkckks.NewEvaluator(w.p)
	old := mkckks.NewEvaluator(w.p)
	// earlier operands: more parties, another level, other scale
	x := w.symCT("x", []int{6, 1}[sh], 2, 4*scale)
	y := w.symCT("y", []int{5, 2}[sh], 2-sh, scale)
	xp := w.ptxt("xm", 2, scale)
	w.op(first, old, x, y, xp, old.HoistedForm(x), old.HoistedForm(y))
	a := w.symCT("a", []int{1, 3}[sh], 1+sh, scale)
	b := w.symCT("b", []int{3, 3}[sh], 2, scale)
	pt := w.ptxt("m", 2, scale)
	ha, hb := ev.HoistedForm(a), ev.HoistedForm(b)
	if k == 2 {
		k = 0
		b.Scale *= 8
	}
	r1 := w.op(k, ev, a, b, pt, ha, hb)
	r2 := w.op(k, old, a, b, pt, old.HoistedForm(a), old.HoistedForm(b))
	w.sameCT(opNames[k]+" after "+opNames[first], r2, r1)
}

// sameCT: the two ciphertexts are identical (as residues).
func (e *env) sameCT(label string, got, want *mkckks.Ciphertext) {
	ok := len(got.Value) == len(want.Value)
	for id := range want.Value {
		ok = ok && got.Value[id] != nil
	}
	vp.True(label+": parties", ok)
	if !ok {
		return
	}
	vp.EqF(label+": scale", got.Scale, want.Scale)
	for _, id := range append([]string{"0"}, names...) {
		if _, in := want.Value[id]; in {
			n := len(want.Value[id].Coeffs)
			vp.EqInt(label+": level", len(got.Value[id].Coeffs), n)
			if len(got.Value[id].Coeffs) != n {
				return
			}
			vp.EqPoly(label+": component "+id, got.Value[id], want.Value[id], e.Q[:n])
		}
	}
}

// C12_order: results do not depend on the iteration order of maps.
func C12_order() {
	w := newWorld(4, 2, 2, 3)
	k := vp.Pick("operation", nops)
	if k == 2 {
		k = 0
	}
	a := w.symCT("a", 3, 1, scale)
	b := w.symCT("b", 3, 1, scale)
	pt := w.ptxt("m", 1, scale)
	ev := mkckks.NewEvaluator(w.p)
	ha, hb := ev.HoistedForm(a), ev.HoistedForm(b)
	vp.MapOrder(0)
	r1 := w.op(k, ev, a, b, pt, ha, hb)
	vp.MapOrder(1)
	r2 := w.op(k, ev, a, b, pt, ha, hb)
	w.sameCT(opNames[k], r2, r1)
}

// rekey returns a world with the same parameters and keys in newly made key sets.
func (w *world) rekey(mask int) *world {
	v := &world{env: w.env, set: mkrlwe.NewSecretKeySet(), rk: mkrlwe.NewRotationKeySet(), ck: mkrlwe.NewConjugationKeySet()}
	v.rlk = mkrlwe.NewRelinearizationKeyKeySet(w.p.Parameters)
	for _, id := range parties(mask) {
		v.set.AddSecretKey(w.set.Value[id])
		v.rlk.AddRelinearizationKey(w.rlk.Value[id])
		for _, k := range []int{1, 2, 4} {
			v.rk.AddRotationKey(w.rk.GetRotationKey(id, uint(k)))
		}
		v.ck.AddConjugationKey(w.ck.Value[id])
	}
	return v
}

func overwrite(dst, src *mkckks.Ciphertext) {
	for id, p := range src.Value {
		for j := range dst.Value[id].Coeffs {
			copy(dst.Value[id].Coeffs[j], p.Coeffs[j])
		}
	}
}

// C12_mutate: an operation sees the operands, keys and plaintexts as they are when it is called: repeating it after they were
// changed in place gives what a fresh evaluator with fresh key sets gives on copies.
func C12_mutate() {
	w := newWorld(4, 3, 2, 3)
	k := vp.Pick("operation", nops)
	change := vp.Pick("change", 5)
	old := mkckks.NewEvaluator(w.p)
	a := w.symCT("a", 3, 2, scale)
	b := w.symCT("b", 1, 2, scale)
	pt := w.ptxt("m", 2, scale)
	if k == 2 {
		k = 0
		b.Scale *= 8
	}
	w.op(k, old, a, b, pt, old.HoistedForm(a), old.HoistedForm(b))
	switch change {
	case 0:
		old.MultByConst(a, 3, a)
		old.MultByConst(b, uint64(5), b)
	case 1:
		overwrite(a, w.symCT("a2", 3, 2, scale))
		overwrite(b, w.symCT("b2", 1, 2, scale))
		p2 := w.ptxt("m2", 2, scale)
		for j := range pt.Value.Coeffs {
			copy(pt.Value.Coeffs[j], p2.Value.Coeffs[j])
		}
	case 2:
		old.DropLevel(a, 1)
		old.DropLevel(b, 1)
	case 3:
		a.Scale *= 2
		b.Scale *= 4
		pt.Scale *= 2
	case 4:
		for _, id := range parties(3) {
			sk := w.kg.GenSecretKey(id)
			w.set.AddSecretKey(sk)
			w.rlk.AddRelinearizationKey(w.kg.GenRelinearizationKey(sk, w.kg.GenSecretKey(id)))
			w.ck.AddConjugationKey(w.kg.GenConjugationKey(sk))
			for _, r := range []int{1, 2, 4} {
				w.rk.AddRotationKey(w.kg.GenRotationKey(r, sk))
			}
		}
	}
	ca, cb := a.CopyNew(), b.CopyNew()
	cp := ckks.NewPlaintext(w.ckks(), 2, pt.Scale)
	cp.Value = pt.Value.CopyNew()
	r2 := w.op(k, old, a, b, pt, old.HoistedForm(a), old.HoistedForm(b))
	f := w.rekey(3)
	ev := mkckks.NewEvaluator(w.p)
	r1 := f.op(k, ev, ca, cb, cp, ev.HoistedForm(ca), ev.HoistedForm(cb))
	w.sameCT(opNames[k]+" again", r2, r1)
}

// C12_long: every operation after a long history: all operations in a row on operands of changing parties, levels and scales,
// some of them refused.
func C12_long() {
	w := newWorld(4, 3, 2, 7)
	k := vp.Pick("operation", nops)
	back := vp.Pick("backwards", 2) == 1
	old := mkckks.NewEvaluator(w.p)
	empty := mkrlwe.NewRelinearizationKeyKeySet(w.p.Parameters)
	for i := 0; i < nops; i++ {
		o := i
		if back {
			o = nops - 1 - i
		}
		x := w.symCT("x"+itoa(i), []int{1, 6, 3}[i%3], []int{2, 1, 2, 1, 1}[i%5], []float64{1, 4, 1 << 10}[i%3]*scale)
		y := w.symCT("y"+itoa(i), []int{2, 5}[i%2], []int{2, 2, 1}[i%3], scale)
		xp := w.ptxt("xm"+itoa(i), 2, scale)
		if o == 2 {
			o = 0
			y.Scale *= 16
		}
		w.op(o, old, x, y, xp, old.HoistedForm(x), old.HoistedForm(y))
		if i%5 == 0 {
			vp.Panics(func() { old.MulRelinNew(x, y, empty) })
		}
	}
	ev := mkckks.NewEvaluator(w.p)
	a := w.symCT("a", 3, 2, scale)
	b := w.symCT("b", 2, 1, scale)
	pt := w.ptxt("m", 2, scale)
	if k == 2 {
		k = 0
		b.Scale *= 8
	}
	r1 := w.op(k, ev, a, b, pt, ev.HoistedForm(a), ev.HoistedForm(b))
	r2 := w.op(k, old, a, b, pt, old.HoistedForm(a), old.HoistedForm(b))
	w.sameCT(opNames[k]+" after everything else", r2, r1)
}
