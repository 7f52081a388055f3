package props

import (
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"

	"verifharness/vp"
)

// hoistedMul multiplies with hoisted forms of both operands (kind 0), or with only the second (1) or the first (2) hoisted.
func hoistedMul(e *env, ma, mb, la, lb, kind, logB int) {
	set, rlk := e.secrets(7)
	a := e.symCT("a", ma, la, scale)
	b := e.symCT("b", mb, lb, scale)
	l := minInt(la, lb)
	prod := e.mulP(e.dec(a.Ciphertext, set), e.dec(b.Ciphertext, set), e.Q[:l+1])
	ev := mkckks.NewEvaluator(e.p)
	var ha, hb *mkrlwe.HoistedCiphertext
	if kind != 1 {
		ha = ev.HoistedForm(a)
	}
	if kind != 2 {
		hb = ev.HoistedForm(b)
	}
	snap := vp.Snapshot(a, b, ha, hb)
	out := ev.MulRelinHoistedNew(a, b, ha, hb, rlk)
	vp.Unchanged("operands and hoisted forms", snap, a, b, ha, hb)
	e.checkProduct("hoisted product", out, set, ma|mb, prod, l, scale*scale, logB)
}

// C09_mul: hoisted multiplication for every party and level combination.
func C09_mul() {
	e := newEnv(4, 3, 2)
	m := mulMasks[vp.Pick("parties", 5)]
	lv := vp.Pick("levels", 4)
	la, lb := []int{2, 2, 1, 1}[lv], []int{2, 1, 2, 1}[lv]
	hoistedMul(e, m[0], m[1], la, lb, 0, 8)
}

// C09_one: only one operand is hoisted.
func C09_one() {
	e := newEnv(4, 3, 2)
	m := mulMasks[vp.Pick("parties", 3)]
	kind := 1 + vp.Pick("which", 2)
	lv := vp.Pick("levels", 3)
	la, lb := []int{2, 2, 1}[lv], []int{2, 1, 2}[lv]
	hoistedMul(e, m[0], m[1], la, lb, kind, 8)
}

// C09_alpha: digits of several primes; operands at different levels, so that a hoisted form is used below its own level.
func C09_alpha() {
	np := []int{3, 4, 6}[vp.Pick("special primes", 3)]
	e := newEnv(4, 4, np)
	lv := vp.Pick("levels", 4)
	la, lb := []int{3, 3, 2, 3}[lv], []int{3, 2, 3, 1}[lv]
	hoistedMul(e, 1, 1, la, lb, 0, 8)
}

// C09_square: one hoisted form serves both operands.
func C09_square() {
	e := newEnv(4, 3, 2)
	mask := []int{1, 3}[vp.Pick("parties", 2)]
	l := 1 + vp.Pick("level", 2)
	set, rlk := e.secrets(3)
	a := e.symCT("a", mask, l, scale)
	d := e.dec(a.Ciphertext, set)
	prod := e.mulP(d, d, e.Q[:l+1])
	ev := mkckks.NewEvaluator(e.p)
	h := ev.HoistedForm(a)
	snap := vp.Snapshot(a, h)
	out := ev.MulRelinHoistedNew(a, a, h, h, rlk)
	vp.Unchanged("operand and hoisted form", snap, a, h)
	e.checkProduct("hoisted square", out, set, mask, prod, l, scale*scale, 8)
}

// C09_rotate: hoisted rotation by every amount that has a reference string, at every level.
func C09_rotate() {
	e := newEnv(4, 3, 2)
	d := 3
	k := []int{0, 1, 2, 4, 3, -8, -7, -6, -4, -5, 8, 9, 10, 12, 11, 19}[vp.Pick("amount", 16)]
	mask := []int{1, 3, 0}[vp.Pick("parties", 3)]
	l := 2 - vp.Pick("level", 3)
	set, rk := e.rotKeys(mask, d)
	ct := e.symCT("c", mask, l, 3*scale)
	ev := mkckks.NewEvaluator(e.p)
	h := ev.HoistedForm(ct)
	snap := vp.Snapshot(ct, h)
	out := ev.RotateHoistedNew(ct, k, h, rk)
	vp.Unchanged("operand and hoisted form", snap, ct, h)
	e.checkRot("hoisted rotation", out, ct, set, mask, l, k)
}

// C09_rotalpha: hoisted rotation with digits of several primes.
func C09_rotalpha() {
	np := []int{3, 4, 5, 6}[vp.Pick("special primes", 4)]
	e := newEnv(4, 4, np)
	l := vp.Pick("level", 4)
	set, rk := e.rotKeys(1)
	ct := e.symCT("c", 1, l, scale)
	ev := mkckks.NewEvaluator(e.p)
	out := ev.RotateHoistedNew(ct, 2, ev.HoistedForm(ct), rk)
	e.checkRot("hoisted rotation", out, ct, set, 1, l, 2)
}

// C09_reuse: a hoisted form made first serves a second use after other operations of the same evaluator.
func C09_reuse() {
	e := newEnv(4, 3, 2)
	first := vp.Pick("first", 4)
	second := vp.Pick("second", 2)
	l := 2 - vp.Pick("level", 2)
	set, rk := e.rotKeys(3)
	rlk := mkrlwe.NewRelinearizationKeyKeySet(e.p.Parameters)
	for _, id := range parties(3) {
		rlk.AddRelinearizationKey(e.kg.GenRelinearizationKey(set.Value[id], e.kg.GenSecretKey(id)))
	}
	a := e.symCT("a", 1, l, scale)
	b := e.symCT("b", 2, 2, scale)
	ev := mkckks.NewEvaluator(e.p)
	h := ev.HoistedForm(a)
	hb := ev.HoistedForm(b)
	switch first {
	case 0:
		ev.RotateHoistedNew(a, 4, h, rk)
	case 1:
		ev.MulRelinHoistedNew(a, b, h, hb, rlk)
	case 2:
		ev.MulRelinNew(b, a, rlk)
	case 3:
		ev.RotateNew(b, 3, rk)
	}
	if second == 0 {
		e.checkRot("hoisted rotation", ev.RotateHoistedNew(a, 2, h, rk), a, set, 1, l, 2)
	} else {
		prod := e.mulP(e.dec(a.Ciphertext, set), e.dec(b.Ciphertext, set), e.Q[:l+1])
		e.checkProduct("hoisted product", ev.MulRelinHoistedNew(a, b, h, hb, rlk), set, 3, prod, l, scale*scale, 8)
	}
}

// C09_after: a multiplication with both, one or no hoisted operand, by an evaluator and a key set that served before.
func C09_after() {
	e := newEnv(4, 3, 2)
	first := vp.Pick("first", 3)
	kind := vp.Pick("hoisted", 4)
	l := 2 - vp.Pick("level", 2)
	set, rlk := e.secrets(3)
	x := e.symCT("x", 3, 2, scale)
	y := e.symCT("y", 1, 2, 4*scale)
	a := e.symCT("a", 2, l, scale)
	b := e.symCT("b", 1, 2, scale)
	ev := mkckks.NewEvaluator(e.p)
	switch first {
	case 0:
		ev.MulRelinNew(x, y, rlk)
	case 1:
		ev.MulRelinHoistedNew(y, x, ev.HoistedForm(y), ev.HoistedForm(x), rlk)
	case 2:
		ev.MulRelinHoistedNew(x, y, nil, ev.HoistedForm(y), rlk)
	}
	var ha, hb *mkrlwe.HoistedCiphertext
	if kind == 0 || kind == 2 {
		ha = ev.HoistedForm(a)
	}
	if kind == 0 || kind == 1 {
		hb = ev.HoistedForm(b)
	}
	prod := e.mulP(e.dec(a.Ciphertext, set), e.dec(b.Ciphertext, set), e.Q[:l+1])
	e.checkProduct("hoisted product", ev.MulRelinHoistedNew(a, b, ha, hb, rlk), set, 3, prod, l, scale*scale, 8)
}

// C09_onealpha: only one operand hoisted, digits of several primes.
func C09_onealpha() {
	np := []int{3, 4, 6}[vp.Pick("special primes", 3)]
	kind := 1 + vp.Pick("which", 2)
	e := newEnv(4, 4, np)
	lv := vp.Pick("levels", 4)
	la, lb := []int{3, 3, 2, 1}[lv], []int{3, 2, 3, 3}[lv]
	hoistedMul(e, 1, 1, la, lb, kind, 8)
}
