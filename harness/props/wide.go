package props

import (
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"

	"github.com/ldsec/lattigo/v2/rlwe"
	"verifharness/vp"
)

// Larger configurations: four to six parties, six to eight ciphertext primes.

var manyPairs = [][2]int{{15, 48}, {21, 42}, {63, 9}, {32, 31}, {63, 63}}

// C02_many: up to six parties; with all keys, and with one missing.
func C02_many() {
	e := newEnv(4, 2, 2)
	mask := []int{15, 31, 63, 42}[vp.Pick("parties", 4)]
	without := vp.Pick("missing", 7)
	vp.MapOrder(vp.Pick("order", 3))
	set := e.keys(63)
	ct := e.symCT("c", mask, 1, scale)
	want := e.dec(ct.Ciphertext, set)
	dec := mkckks.NewDecryptor(e.p)
	pt := rlwe.NewPlaintext(e.p.Parameters.Parameters, e.maxL)
	have := set
	if without < 6 {
		have = mkrlwe.NewSecretKeySet()
		for _, id := range parties(63 &^ (1 << uint(without))) {
			have.AddSecretKey(set.Value[id])
		}
	}
	missing := without < 6 && mask>>uint(without)&1 == 1
	refused := vp.Panics(func() { dec.Decryptor.Decrypt(ct.Ciphertext, have, pt) })
	vp.True("refused exactly when a key is missing", refused == missing)
	if missing {
		dec.Decryptor.Decrypt(ct.Ciphertext, set, pt)
	}
	vp.EqPoly("decryption", pt.Value, want, e.Q)
	for _, id := range parties(mask) {
		dec.PartialDecrypt(ct, set.Value[id])
	}
	vp.EqPoly("partial decryptions", ct.Value["0"], want, e.Q)
}

// C02_long: long modulus chains at every level.
func C02_long() {
	nq := 5 + 3*vp.Pick("primes", 2)
	e := newEnv(4, nq, 2)
	l := vp.Pick("level", nq)
	set := e.keys(3)
	ct := e.symCT("c", 3, l, scale)
	want := e.dec(ct.Ciphertext, set)
	pt := rlwe.NewPlaintext(e.p.Parameters.Parameters, e.maxL)
	mkckks.NewDecryptor(e.p).Decryptor.Decrypt(ct.Ciphertext, set, pt)
	vp.EqInt("level", pt.Level(), l)
	vp.EqPoly("decryption", pt.Value, want, e.Q[:l+1])
}

// C01_long: long modulus chains.
func C01_long() {
	nq := 5 + 3*vp.Pick("primes", 2)
	e := newEnv(4, nq, 2)
	pl, cl := vp.Pick("plaintext level", nq), nq-1
	if vp.Pick("low ciphertext", 2) == 1 {
		pl, cl = cl, pl
	}
	l := minInt(pl, cl)
	vp.Noise(true)
	sk, pk := e.kg.GenKeyPair("bob")
	set := mkrlwe.NewSecretKeySet()
	set.AddSecretKey(sk)
	pt := rlwe.NewPlaintext(e.p.Parameters.Parameters, pl)
	pt.Value.IsNTT = false
	vp.Residues("m", pt.Value, e.Q[:pl+1])
	m := pt.Value.CopyNew()
	ct := mkrlwe.NewCiphertext(e.p.Parameters, ids(2), cl)
	mkrlwe.NewEncryptor(e.p.Parameters).Encrypt(pt, pk, ct)
	if !e.hasParties("ciphertext", ct, 2, l) {
		return
	}
	vp.Near("decryption", e.dec(ct, set), m, e.Q[:l+1], nil, 10)
}

// C04_many: up to six parties.
func C04_many() {
	e := newEnv(4, 2, 2)
	m := manyPairs[vp.Pick("parties", len(manyPairs))]
	sc := scalePairs[vp.Pick("scales", 3)]
	sub := vp.Pick("sub", 2) == 1
	vp.MapOrder(vp.Pick("order", 2))
	a := e.symCT("a", m[0], 1, sc[0])
	b := e.symCT("b", m[1], 1, sc[1])
	ev := mkckks.NewEvaluator(e.p)
	r := ev.AddNew
	if sub {
		r = ev.SubNew
	}
	snap := vp.Snapshot(a, b)
	checkAddSub(e, sub, r(a, b), a, b, m[0], m[1])
	vp.Unchanged("operands", snap, a, b)
}

// C04_long: long modulus chains.
func C04_long() {
	nq := 5 + 3*vp.Pick("primes", 2)
	e := newEnv(4, nq, 2)
	la, lb := nq-1-vp.Pick("level", nq), nq-1
	sc := scalePairs[vp.Pick("scales", 3)]
	sub := vp.Pick("sub", 2) == 1
	a := e.symCT("a", 1, la, sc[0])
	b := e.symCT("b", 3, lb, sc[1])
	ev := mkckks.NewEvaluator(e.p)
	r := ev.AddNew
	if sub {
		r = ev.SubNew
	}
	checkAddSub(e, sub, r(a, b), a, b, 1, 3)
}

// C05_long: long modulus chains, digits of one to three primes.
func C05_long() {
	np := []int{2, 4, 6}[vp.Pick("special primes", 3)]
	nq := 5 + 2*vp.Tier()
	e := newEnv(4, nq, np)
	la, lb := nq-1-vp.Pick("level", 3), nq-1
	mulCase(e, 1, 2, la, lb, scale, scale, 8)
}

// C05_many: four parties.
func C05_many() {
	e := newEnv(4, 2, 2)
	m := [][2]int{{3, 12}, {1, 14}, {15, 1}, {15, 15}}[vp.Pick("parties", 2+2*vp.Tier())]
	set, rlk := e.secrets(15)
	a := e.symCT("a", m[0], 1, scale)
	b := e.symCT("b", m[1], 1, scale)
	prod := e.mulP(e.dec(a.Ciphertext, set), e.dec(b.Ciphertext, set), e.Q)
	out := mkckks.NewEvaluator(e.p).MulRelinNew(a, b, rlk)
	e.checkProduct("product", out, set, 15, prod, 1, scale*scale, 9)
}

// C07_many: up to six parties.
func C07_many() {
	e := newEnv(4, 2, 2)
	mask := []int{15, 63}[vp.Pick("parties", 2)]
	k := []int{4, 3}[vp.Pick("amount", 2)]
	vp.MapOrder(vp.Pick("order", 2))
	set, rk := e.rotKeys(mask)
	ct := e.symCT("c", mask, 1, scale)
	e.checkRot("rotation", mkckks.NewEvaluator(e.p).RotateNew(ct, k, rk), ct, set, mask, 1, k)
}

// C07_long: long modulus chains.
func C07_long() {
	np := []int{2, 4, 6}[vp.Pick("special primes", 3)]
	nq := 6 + vp.Tier()
	e := newEnv(4, nq, np)
	l := nq - 1 - vp.Pick("level", nq)
	k := []int{1, 6}[vp.Pick("amount", 2)]
	set, rk := e.rotKeys(1)
	ct := e.symCT("c", 1, l, scale)
	e.checkRot("rotation", mkckks.NewEvaluator(e.p).RotateNew(ct, k, rk), ct, set, 1, l, k)
}

// C08_many: up to six parties.
func C08_many() {
	e := newEnv(4, 2, 2)
	mask := []int{15, 63}[vp.Pick("parties", 2)]
	vp.MapOrder(vp.Pick("order", 2))
	set, ck := e.conjKeys(mask)
	ct := e.symCT("c", mask, 1, scale)
	e.checkConj("conjugation", mkckks.NewEvaluator(e.p).ConjugateNew(ct, ck), ct, set, mask, 1)
}

// C08_long: long modulus chains.
func C08_long() {
	np := []int{2, 4, 6}[vp.Pick("special primes", 3)]
	nq := 6 + vp.Tier()
	e := newEnv(4, nq, np)
	l := nq - 1 - vp.Pick("level", nq)
	set, ck := e.conjKeys(1)
	ct := e.symCT("c", 1, l, scale)
	e.checkConj("conjugation", mkckks.NewEvaluator(e.p).ConjugateNew(ct, ck), ct, set, 1, l)
}

// C09_many: hoisted evaluation with more parties.
func C09_many() {
	e := newEnv(4, 2, 2)
	ev := mkckks.NewEvaluator(e.p)
	if vp.Pick("operation", 2) == 1 {
		mask := []int{15, 63}[vp.Pick("parties", 2)]
		set, rk := e.rotKeys(mask)
		ct := e.symCT("c", mask, 1, scale)
		e.checkRot("rotation", ev.RotateHoistedNew(ct, 2, ev.HoistedForm(ct), rk), ct, set, mask, 1, 2)
		return
	}
	set, rlk := e.secrets(15)
	a := e.symCT("a", 3, 1, scale)
	b := e.symCT("b", 12, 1, scale)
	prod := e.mulP(e.dec(a.Ciphertext, set), e.dec(b.Ciphertext, set), e.Q)
	e.checkProduct("product", ev.MulRelinHoistedNew(a, b, ev.HoistedForm(a), ev.HoistedForm(b), rlk), set, 15, prod, 1, scale*scale, 9)
}

// C09_long: hoisted rotation and multiplication with long modulus chains.
func C09_long() {
	np := []int{2, 4, 6}[vp.Pick("special primes", 3)]
	nq := 5 + vp.Tier()
	e := newEnv(4, nq, np)
	l := nq - 1 - vp.Pick("level", 3)
	ev := mkckks.NewEvaluator(e.p)
	if vp.Pick("operation", 2) == 1 {
		set, rk := e.rotKeys(1)
		ct := e.symCT("c", 1, l, scale)
		e.checkRot("rotation", ev.RotateHoistedNew(ct, 2, ev.HoistedForm(ct), rk), ct, set, 1, l, 2)
		return
	}
	hoistedMul(e, 1, 2, nq-1, l, 0, 8)
}

// C10_long: up to five divisions at once.
func C10_long() {
	nq := 5 + 3*vp.Pick("primes", 2)
	e := newEnv(4, nq, 2)
	l := nq - 1 - vp.Pick("level", 3)
	c := []rescaleCase{{1 << 80, 1 << 40}, {1 << 160, 1 << 40}, {1 << 200, 1 << 40}, {1 << 240, 1 << 40}, {1 << 199, 1 << 40}, {1 << 198, 1 << 40}}[vp.Pick("scales", 6)]
	ct := e.symCT("c", 1, l, c.sc)
	in := ct.CopyNew()
	ev := mkckks.NewEvaluator(e.p)
	if vp.Pick("in place", 2) == 1 {
		vp.True("no error", ev.Rescale(ct, c.min, ct) == nil)
		e.checkRescale("rescaled", ct, in, 1, l, c.sc, c.min)
		return
	}
	out, err := ev.RescaleNew(ct, c.min)
	vp.True("no error", err == nil)
	e.checkRescale("rescaled", out, in, 1, l, c.sc, c.min)
}

// C11_long: long modulus chains, more parties.
func C11_long() {
	e := newEnv(4, 8, 2)
	l := 7 - 2*vp.Pick("level", 3)
	mask := []int{1, 63}[vp.Pick("parties", 2)]
	ct := e.symCT("c", mask, l, scale)
	if vp.Pick("operation", 2) == 1 {
		n := vp.Pick("levels to drop", l+1)
		e.checkDrop("DropLevelNew", mkckks.NewEvaluator(e.p).DropLevelNew(ct, n), ct, mask, l-n)
		return
	}
	c := constCases[vp.Pick("constant", len(constCases))]
	multConst(e, c, ct, mkckks.NewCiphertext(e.p, ids(mask), l, 1), mask, l)
}
