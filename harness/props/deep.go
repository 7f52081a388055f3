package props

import (
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"

	"github.com/ldsec/lattigo/v2/rlwe"
	"verifharness/vp"
)

// Chains as long as those of the training programs (21 primes), and with primes of the largest size.

var q60 = []uint64{1152921504606844289, 1152921504606843073, 1152921504606842753, 1152921504606841793, 1152921504606837377, 1152921504606836929, 1152921504606836161, 1152921504606834881, 1152921504606833473, 1152921504606833089, 1152921504606832769, 1152921504606832001, 1152921504606831937, 1152921504606831233, 1152921504606830209, 1152921504606829697, 1152921504606829249, 1152921504606829121, 1152921504606828353, 1152921504606827009, 1152921504606826433, 1152921504606823681, 1152921504606823297, 1152921504606815233, 1152921504606813889, 1152921504606813121, 1152921504606811393, 1152921504606809921, 1152921504606808193, 1152921504606807937, 1152921504606805057, 1152921504606804929, 1152921504606803521, 1152921504606802753}

// newDeep builds parameters with nq ciphertext primes and np special primes, all of 60 bits.
func newDeep(nq, np int) *env {
	e := &env{}
	e.Q = append(e.Q, q60[:nq]...)
	e.P = append(e.P, []uint64{p56[4], p56[5], q60[32], q60[33]}[:np]...)
	return e.finish(4)
}

// C14_deep: many digits of 60-bit primes, so that a sum over the digits must be reduced.
func C14_deep() {
	nq := []int{9, 32}[vp.Pick("primes", 2)]
	e := newDeep(nq, 2)
	g := &gadgetCase{env: e, pr: mkrlwe.NewParameters(e.p.Parameters.Parameters, 2)}
	g.kgen = mkrlwe.NewKeyGenerator(g.pr)
	l := nq - 1 - 3*vp.Pick("level", 2)
	sk := g.kgen.GenSecretKey("alice")
	bg := mkrlwe.NewSwitchingKey(g.pr)
	g.kgen.GenSwitchingKey(sk, bg)
	a, in := g.symPoly("a", l, false)
	ks := mkrlwe.NewKeySwitcher(g.pr)
	out := newPoly(g.N, l+1)
	if vp.Pick("hoisted", 2) == 1 {
		ad := mkrlwe.NewSwitchingKey(g.pr)
		ks.Decompose(l, in, ad)
		ks.ExternalProductHoisted(l, ad, bg, out)
	} else {
		ks.ExternalProduct(l, in, bg, out)
	}
	g.checkExternal("external product", out, a, sk, l)
}

// C15_deep: thirty-two ciphertext primes and four special primes, all of 60 bits.
func C15_deep() {
	e := newDeep(32, 4)
	lq := []int{31, 16}[vp.Pick("levelQ", 2)]
	be := e.extender(false)
	Q := e.Q[:lq+1]
	mods := joinMods(Q, e.P)
	switch vp.Pick("kind", 4) {
	case 0:
		a, b := e.lazyPoly("a", Q, false), newPoly(e.N, 4)
		be.ModUpQtoP(lq, 3, a, b)
		vp.Near("one integer below Q", e.join(a, b, lq+1, 4), newPoly(e.N, len(mods)), mods, nil, bitsOf(Q))
	case 1:
		a, b := e.lazyPoly("a", e.P, false), newPoly(e.N, lq+1)
		be.ModUpPtoQ(3, lq, a, b)
		vp.Near("one integer below P", e.join(b, a, lq+1, 4), newPoly(e.N, len(mods)), mods, nil, bitsOf(e.P))
	case 2:
		a, b := e.lazyPoly("a", Q, true), e.lazyPoly("b", e.P, true)
		t := e.join(a, b, lq+1, 4)
		out := newPoly(e.N, lq+1)
		be.ModDownQPtoQ(lq, 3, a, b, out)
		vp.NearDiv("quotient by P", out, Q, e.P, t, 2)
	case 3:
		a, b := e.lazyPoly("a", Q, false), e.lazyPoly("b", e.P, false)
		t := e.join(b, a, 4, lq+1)
		out := newPoly(e.N, 4)
		be.ModDownQPtoP(lq, 3, a, b, out)
		vp.NearDiv("quotient by Q", out, e.P, Q, t, 2)
	}
}

// C07_deep: rotation with thirty-two digits.
func C07_deep() {
	e := newDeep(32, 2)
	set, rk := e.rotKeys(1)
	l := 31 - vp.Pick("level", 2)
	ct := e.symCT("c", 1, l, scale)
	ev := mkckks.NewEvaluator(e.p)
	e.checkRot("rotation", ev.RotateNew(ct, 2, rk), ct, set, 1, l, 2)
}

// fixedCT is a ciphertext with fixed residues without structure.
func (e *env) fixedCT(mask, level int, sc float64) *mkckks.Ciphertext {
	ct := mkckks.NewCiphertext(e.p, ids(mask), level, sc)
	x := uint64(12345)
	for _, id := range append([]string{"0"}, parties(mask)...) {
		for j, q := range e.Q[:level+1] {
			for i := range ct.Value[id].Coeffs[j] {
				x = x*6364136223846793005 + 1442695040888963407
				ct.Value[id].Coeffs[j][i] = x % q
			}
		}
	}
	return ct
}

// deepMul multiplies an arbitrary ciphertext by a fixed one (or by another arbitrary one), with many digits of 60-bit primes.
func deepMul(hoisted bool) {
	nq := []int{9, 32}[vp.Pick("primes", 2)]
	e := newDeep(nq, 2)
	set, rlk := e.secrets(3)
	a := e.symCT("a", 1, nq-1, scale)
	b := e.fixedCT(2, nq-1, scale)
	if nq == 9 || vp.Tier() > 0 {
		b = e.symCT("b", 2, nq-1, scale)
	}
	prod := e.mulP(e.dec(a.Ciphertext, set), e.dec(b.Ciphertext, set), e.Q)
	ev := mkckks.NewEvaluator(e.p)
	var out *mkckks.Ciphertext
	if hoisted {
		out = ev.MulRelinHoistedNew(a, b, ev.HoistedForm(a), ev.HoistedForm(b), rlk)
	} else {
		out = ev.MulRelinNew(a, b, rlk)
	}
	e.checkProduct("product", out, set, 3, prod, nq-1, scale*scale, 9)
}

// C05_deep: multiplication with many digits of 60-bit primes.
func C05_deep() { deepMul(false) }

// C09_deep: hoisted multiplication with many digits of 60-bit primes.
func C09_deep() { deepMul(true) }

// C09_deeprot: hoisted rotation with many digits of 60-bit primes.
func C09_deeprot() {
	nq := []int{9, 32}[vp.Pick("primes", 2)]
	e := newDeep(nq, 2)
	ev := mkckks.NewEvaluator(e.p)
	set, rk := e.rotKeys(1)
	ct := e.symCT("c", 1, nq-1, scale)
	e.checkRot("rotation", ev.RotateHoistedNew(ct, 2, ev.HoistedForm(ct), rk), ct, set, 1, nq-1, 2)
}

// C08_deep: conjugation with thirty-two digits.
func C08_deep() {
	e := newDeep(32, 2)
	set, ck := e.conjKeys(1)
	l := 31 - vp.Pick("level", 2)
	ct := e.symCT("c", 1, l, scale)
	e.checkConj("conjugation", mkckks.NewEvaluator(e.p).ConjugateNew(ct, ck), ct, set, 1, l)
}

// C06_deep: multiplication by a plaintext, thirty-two primes of 60 bits.
func C06_deep() {
	e := newDeep(32, 2)
	l := 31 - 9*vp.Pick("level", 2)
	mulPtxtCase(e, 3, l, 31, []float64{scale, 1 << 80}[vp.Pick("scale", 2)])
}

// C06_many: up to six parties.
func C06_many() {
	e := newEnv(4, 3, 2)
	vp.MapOrder(vp.Pick("order", 2))
	mulPtxtCase(e, []int{15, 63, 42}[vp.Pick("parties", 3)], 2-vp.Pick("level", 2), 2, scale)
}

// C02_deep: decryption with primes of 60 bits and up to six parties.
func C02_deep() {
	e := newDeep(6, 2)
	mask := []int{63, 1}[vp.Pick("parties", 2)]
	l := 5 - vp.Pick("level", 3)
	set := e.keys(63)
	ct := e.symCT("c", mask, l, scale)
	want := e.dec(ct.Ciphertext, set)
	pt := rlwe.NewPlaintext(e.p.Parameters.Parameters, e.maxL)
	mkckks.NewDecryptor(e.p).Decryptor.Decrypt(ct.Ciphertext, set, pt)
	vp.EqInt("level", pt.Level(), l)
	vp.EqPoly("decryption", pt.Value, want, e.Q[:l+1])
}

// C04_deep: sums of sums with primes of 60 bits: ten additions in a row.
func C04_deep() {
	e := newDeep(3, 2)
	sub := vp.Pick("sub", 2) == 1
	l := 2 - vp.Pick("level", 2)
	ev := mkckks.NewEvaluator(e.p)
	b := e.symCT("b", 2, l, scale)
	acc := e.symCT("a", 1, l, scale)
	for i := 0; i < 10; i++ {
		in := acc
		m := 3
		if i == 0 {
			m = 1
		}
		if sub {
			acc = ev.SubNew(in, b)
		} else {
			acc = ev.AddNew(in, b)
		}
		checkAddSub(e, sub, acc, in, b, m, 2)
	}
}

// C10_deep: rescaling with primes of 60 bits, one and two at a time.
func C10_deep() {
	e := newDeep(12, 2)
	l := 11 - 5*vp.Pick("level", 3)
	c := []rescaleCase{{1 << 100, 1 << 40}, {1 << 160, 1 << 40}, {1 << 99, 1 << 40}}[vp.Pick("scales", 3)]
	ct := e.symCT("c", 3, l, c.sc)
	in := ct.CopyNew()
	out, err := mkckks.NewEvaluator(e.p).RescaleNew(ct, c.min)
	vp.True("no error", err == nil)
	e.checkRescale("rescaled", out, in, 3, l, c.sc, c.min)
}

// C11_deep: constants with primes of 60 bits.
func C11_deep() {
	e := newDeep(12, 2)
	l := 11 - 5*vp.Pick("level", 2)
	ct := e.symCT("c", 3, l, scale)
	c := constCases[vp.Pick("constant", len(constCases))]
	multConst(e, c, ct, mkckks.NewCiphertext(e.p, ids(3), l, 1), 3, l)
}

// The operations with thirty-four parties and primes of 60 bits, so that a sum over the parties must be reduced.
const crowd = 1<<34 - 1

// C02_crowd: decryption of a ciphertext of thirty-four parties.
func C02_crowd() {
	e := newDeep(2, 2)
	set := e.keys(crowd)
	ct := e.symCT("c", crowd, 1, scale)
	want := e.dec(ct.Ciphertext, set)
	pt := rlwe.NewPlaintext(e.p.Parameters.Parameters, e.maxL)
	mkckks.NewDecryptor(e.p).Decryptor.Decrypt(ct.Ciphertext, set, pt)
	vp.EqPoly("decryption", pt.Value, want, e.Q)
}

// C04_crowd: a sum of ciphertexts of thirty-four and of one or thirty-three parties.
func C04_crowd() {
	e := newDeep(2, 2)
	ma, mb := crowd, []int{2, crowd >> 1}[vp.Pick("parties", 2)]
	if vp.Pick("swapped", 2) == 1 {
		ma, mb = mb, ma
	}
	sub := vp.Pick("sub", 2) == 1
	a, b := e.symCT("a", ma, 1, scale), e.symCT("b", mb, 1, scale)
	ev := mkckks.NewEvaluator(e.p)
	r := ev.AddNew
	if sub {
		r = ev.SubNew
	}
	checkAddSub(e, sub, r(a, b), a, b, ma, mb)
}

// crowdMul: the product of a ciphertext of many parties (four of its components arbitrary, the others fixed) with one of one party in either order, plain or hoisted.
func crowdMul(hoisted bool) {
	e := newDeep(2, 2)
	set, rlk := e.secrets(crowd)
	a := e.fixedCT(crowd, 1, scale)
	for _, id := range []string{"0", names[0], names[3], names[33]} {
		vp.Residues("a."+id, a.Value[id], e.Q)
	}
	b := e.fixedCT(1<<3, 1, scale)
	prod := e.mulP(e.dec(a.Ciphertext, set), e.dec(b.Ciphertext, set), e.Q)
	if vp.Pick("swapped", 2) == 1 {
		a, b = b, a
	}
	ev := mkckks.NewEvaluator(e.p)
	kind := vp.Pick("kind", 2)
	var out *mkckks.Ciphertext
	switch {
	case hoisted && kind == 1:
		out = ev.MulRelinHoistedNew(a, b, nil, ev.HoistedForm(b), rlk)
	case hoisted:
		out = ev.MulRelinHoistedNew(a, b, ev.HoistedForm(a), ev.HoistedForm(b), rlk)
	case kind == 1:
		out = mkckks.NewCiphertext(e.p, ids(crowd), 1, scale*scale)
		mkrlwe.NewKeySwitcher(e.p.Parameters).MulAndRelin(a.Ciphertext, b.Ciphertext, rlk, out.Ciphertext)
	default:
		out = ev.MulRelinNew(a, b, rlk)
	}
	e.checkProduct("product", out, set, crowd, prod, 1, scale*scale, 11)
}

func C05_crowd() { crowdMul(false) }
func C09_crowd() { crowdMul(true) }

// C06_crowd: plaintext times ciphertext of thirty-four parties.
func C06_crowd() {
	mulPtxtCase(newDeep(2, 2), crowd, 1, 1, scale)
}

// C07_crowd: rotation of a ciphertext of thirty-four parties.
func C07_crowd() {
	e := newDeep(2, 2)
	set, rk := e.rotKeys(crowd)
	ct := e.symCT("c", crowd, 1, scale)
	e.checkRot("rotation", mkckks.NewEvaluator(e.p).RotateNew(ct, 2, rk), ct, set, crowd, 1, 2)
}

// C09_crowdrot: hoisted rotation of a ciphertext of thirty-four parties.
func C09_crowdrot() {
	e := newDeep(2, 2)
	set, rk := e.rotKeys(crowd)
	ct := e.symCT("c", crowd, 1, scale)
	ev := mkckks.NewEvaluator(e.p)
	e.checkRot("rotation", ev.RotateHoistedNew(ct, 2, ev.HoistedForm(ct), rk), ct, set, crowd, 1, 2)
}

// C08_crowd: conjugation of a ciphertext of thirty-four parties.
func C08_crowd() {
	e := newDeep(2, 2)
	set, ck := e.conjKeys(crowd)
	ct := e.symCT("c", crowd, 1, scale)
	e.checkConj("conjugation", mkckks.NewEvaluator(e.p).ConjugateNew(ct, ck), ct, set, crowd, 1)
}
