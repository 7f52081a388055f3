package props

import (
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"

	"verifharness/vp"
)

// refuses runs f and asserts that it panics exactly when a key it needs is missing.
func refuses(label string, missing bool, f func()) bool {
	r := vp.Panics(f)
	vp.True(label+": refused exactly when a needed key is missing", r == missing)
	return !r && !missing
}

// C23_mul: multiplication with every subset of the relinearization keys.
func C23_mul() {
	e := newEnv(4, 2, 2)
	m := [][2]int{{1, 2}, {3, 1}, {0, 1}, {2, 0}, {0, 0}, {2, 2}}[vp.Pick("parties", 6)]
	have := vp.Pick("keys", 8)
	hoisted := vp.Pick("hoisted", 2) == 1
	if vp.Tier() > 0 {
		vp.MapOrder(vp.Pick("order", 2))
	}
	set, all := e.secrets(7)
	some := mkrlwe.NewRelinearizationKeyKeySet(e.p.Parameters)
	deleted := vp.Pick("deleted", 2) == 1
	for i, id := range parties(7) {
		if have>>uint(i)&1 == 1 || deleted {
			some.AddRelinearizationKey(all.Value[id])
		}
	}
	if deleted {
		for _, id := range parties(7 &^ have) {
			some.DelRelinearizationKey(id)
		}
	}
	a := e.symCT("a", m[0], 1, scale)
	b := e.symCT("b", m[1], 1, scale)
	ev := mkckks.NewEvaluator(e.p)
	mul := func(rlk *mkrlwe.RelinearizationKeySet) *mkckks.Ciphertext {
		if hoisted {
			return ev.MulRelinHoistedNew(a, b, ev.HoistedForm(a), ev.HoistedForm(b), rlk)
		}
		return ev.MulRelinNew(a, b, rlk)
	}
	prod := e.mulP(e.dec(a.Ciphertext, set), e.dec(b.Ciphertext, set), e.Q)
	snap := vp.Snapshot(a, b, all.Value, some.Value)
	var out *mkckks.Ciphertext
	missing := (m[0]|m[1])&^have != 0
	if !refuses("multiplication", missing, func() { out = mul(some) }) {
		out = mul(all) // a refusal leaves nothing behind
		refuses("multiplication after one with all keys", missing, func() { mul(some) })
	}
	vp.Unchanged("operands and keys", snap, a, b, all.Value, some.Value)
	if vp.Tier() == 0 && (deleted || have != 7 && have != 0 && have != m[0]|m[1]) {
		return // costly, left to the thorough check
	}
	e.checkProduct("product", out, set, m[0]|m[1], prod, 1, scale*scale, 8)
}

// C23_rot: rotation where one party lacks the key of one amount.
func C23_rot() {
	e := newEnv(4, 2, 2)
	mask := []int{1, 2, 3, 0}[vp.Pick("parties", 4)]
	lacks := []int{1, 2, 4}[vp.Pick("missing amount", 3)]
	k := vp.Pick("amount", 9)
	hoisted := k&(k-1) == 0 && k > 0 && k < 8 && vp.Pick("hoisted", 2) == 1 // only for amounts with a key of their own
	vp.MapOrder(vp.Pick("order", 2))
	set, all := e.rotKeys(3)
	some := mkrlwe.NewRotationKeySet()
	deleted := vp.Pick("deleted", 2) == 1
	for _, id := range parties(3) {
		for _, n := range []int{1, 2, 4} {
			if id != "bob" || n != lacks || deleted {
				some.AddRotationKey(all.GetRotationKey(id, uint(n)))
			}
		}
	}
	if deleted {
		some.DelRotationKey("bob", uint(lacks))
	}
	ct := e.symCT("c", mask, 1, scale)
	ev := mkckks.NewEvaluator(e.p)
	rot := func(rk *mkrlwe.RotationKeySet) *mkckks.Ciphertext {
		if hoisted {
			return ev.RotateHoistedNew(ct, k, ev.HoistedForm(ct), rk)
		}
		return ev.RotateNew(ct, k, rk)
	}
	snap := vp.Snapshot(ct, all, some)
	var out *mkckks.Ciphertext
	missing := mask&2 != 0 && k%8&lacks != 0
	if !refuses("rotation", missing, func() { out = rot(some) }) {
		out = rot(all)
		refuses("rotation after one with all keys", missing, func() { rot(some) })
	}
	vp.Unchanged("operand and keys", snap, ct, all, some)
	e.checkRot("rotation", out, ct, set, mask, 1, k)
}

// C23_conj: conjugation with every subset of the keys.
func C23_conj() {
	e := newEnv(4, 2, 2)
	mask := vp.Pick("parties", 8)
	have := vp.Pick("keys", 8)
	vp.MapOrder(vp.Pick("order", 2))
	set := e.keys(7)
	deleted := vp.Pick("deleted", 2) == 1
	all, some := mkrlwe.NewConjugationKeySet(), mkrlwe.NewConjugationKeySet()
	for i, id := range parties(7) {
		k := e.kg.GenConjugationKey(set.Value[id])
		all.AddConjugationKey(k)
		if have>>uint(i)&1 == 1 || deleted {
			some.AddConjugationKey(k)
		}
	}
	if deleted {
		for _, id := range parties(7 &^ have) {
			some.DelConjugationKey(id)
		}
	}
	ct := e.symCT("c", mask, 1, scale)
	ev := mkckks.NewEvaluator(e.p)
	snap := vp.Snapshot(ct, all, some)
	var out *mkckks.Ciphertext
	if !refuses("conjugation", mask&^have != 0, func() { out = ev.ConjugateNew(ct, some) }) {
		out = ev.ConjugateNew(ct, all)
		refuses("conjugation after one with all keys", mask&^have != 0, func() { ev.ConjugateNew(ct, some) })
	}
	vp.Unchanged("operand and keys", snap, ct, all, some)
	e.checkConj("conjugation", out, ct, set, mask, 1)
}
