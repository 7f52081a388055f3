package props

import (
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"

	"verifharness/vp"
)

// rotKeys generates secret keys and the default rotation keys, plus dedicated keys for the extra amounts.
func (e *env) rotKeys(mask int, extra ...int) (*mkrlwe.SecretKeySet, *mkrlwe.RotationKeySet) {
	set := mkrlwe.NewSecretKeySet()
	rk := mkrlwe.NewRotationKeySet()
	for _, k := range extra {
		e.p.AddCRS(k)
	}
	kg := mkckks.NewKeyGenerator(e.p)
	for _, id := range parties(mask) {
		sk := kg.GenSecretKey(id)
		set.AddSecretKey(sk)
		kg.GenDefaultRotationKeys(sk, rk)
		for _, k := range extra {
			rk.AddRotationKey(kg.GenRotationKey(k, sk))
		}
	}
	return set, rk
}

// checkRot: out is ct rotated by k.
func (e *env) checkRot(label string, out, ct *mkckks.Ciphertext, set *mkrlwe.SecretKeySet, mask, level, k int) {
	if !e.hasParties(label, out.Ciphertext, mask, level) {
		return
	}
	vp.EqF(label+": scale", out.Scale, ct.Scale)
	mods := e.Q[:level+1]
	want := e.aut(e.dec(ct.Ciphertext, set), e.rotGal(k), mods)
	vp.Near(label, e.dec(out.Ciphertext, set), want, mods, e.P, 12)
}

// C07_rotate: every amount from -9 to 17 (8 slots) with the default keys.
func C07_rotate() {
	e := newEnv(4, 3, 2)
	k := vp.Pick("amount", 27) - 9
	m := []int{1, 3, 0, 6, 7}
	mask := m[vp.Pick("parties", 2+3*vp.Tier())]
	l := 2 - vp.Pick("level", 3)
	set, rk := e.rotKeys(mask)
	ct := e.symCT("c", mask, l, scale)
	snap := vp.Snapshot(ct)
	out := mkckks.NewEvaluator(e.p).RotateNew(ct, k, rk)
	vp.Unchanged("operand", snap, ct)
	e.checkRot("rotation", out, ct, set, mask, l, k)
}

// C07_dedicated: a dedicated key for one amount, used for congruent amounts and others.
func C07_dedicated() {
	e := newEnv(4, 3, 2)
	d := []int{3, 5, 6, 7}[vp.Pick("dedicated", 4)]
	k := []int{0, 8, -8, 16, 1, -1}[vp.Pick("amount", 6)]
	l := 2 - vp.Pick("level", 3)
	set, rk := e.rotKeys(3, d)
	ct := e.symCT("c", 3, l, 3*scale)
	ev := mkckks.NewEvaluator(e.p)
	e.checkRot("rotation", ev.RotateNew(ct, d+k, rk), ct, set, 3, l, d+k)
}

// C07_alpha: digits of several primes.
func C07_alpha() {
	np := []int{3, 4, 5, 6}[vp.Pick("special primes", 4)]
	nq := []int{3, 4}[vp.Pick("primes", 2)]
	e := newEnv(4, nq, np)
	l := vp.Pick("level", nq)
	k := []int{1, 4, 3}[vp.Pick("amount", 3)]
	set, rk := e.rotKeys(1)
	ct := e.symCT("c", 1, l, scale)
	e.checkRot("rotation", mkckks.NewEvaluator(e.p).RotateNew(ct, k, rk), ct, set, 1, l, k)
}

// C07_size: another ring degree.
func C07_size() {
	logN := 5 + vp.Pick("logN", 1+vp.Tier())
	e := newEnv(logN, 2, 2)
	h := e.N / 2
	k := []int{1, h - 1, h / 2, -1, h + 3, -h - 5, 2*h + 2}[vp.Pick("amount", 7)]
	set, rk := e.rotKeys(1)
	ct := e.symCT("c", 1, 1, scale)
	e.checkRot("rotation", mkckks.NewEvaluator(e.p).RotateNew(ct, k, rk), ct, set, 1, 1, k)
}

// C07_keygen: a key generated for any amount whose reference string exists serves that amount.
func C07_keygen() {
	e := newEnv(4, 2, 2)
	d := []int{3, 7}[vp.Pick("dedicated", 2)]
	k := d + []int{0, -8, 8, -16, 16}[vp.Pick("congruent", 5)]
	set, rk := e.rotKeys(1, d)
	rk.DelRotationKey(names[0], uint(d))
	rk.AddRotationKey(mkckks.NewKeyGenerator(e.p).GenRotationKey(k, set.GetSecretKey(names[0])))
	vp.True("key is stored under the amount it serves", rk.Value[names[0]][uint(d)] != nil)
	ct := e.symCT("c", 1, 1, scale)
	e.checkRot("rotation", mkckks.NewEvaluator(e.p).RotateNew(ct, k, rk), ct, set, 1, 1, k)
}

// C07_ksw: the key-switcher level operation with an output below the input's level, in non-negative and negative amounts.
func C07_ksw() {
	e := newEnv(4, 3, 2)
	k := []int{1, 2, 4, -4, -6, -7}[vp.Pick("amount", 6)]
	l := vp.Pick("level", 3)
	set, rk := e.rotKeys(3)
	ct := e.symCT("c", 3, 2, scale)
	out := e.symCT("old", 3, l, scale)
	mkrlwe.NewKeySwitcher(e.p.Parameters).Rotate(ct.Ciphertext, k, rk, out.Ciphertext)
	mkckks.NewEvaluator(e.p).DropLevel(ct, 2-l)
	e.checkRot("rotation", out, ct, set, 3, l, k)
}

// C07_history: one evaluator performs several rotations in a row; each is right.
func C07_history() {
	e := newEnv(4, 3, 2)
	set, rk := e.rotKeys(7)
	ev := mkckks.NewEvaluator(e.p)
	first := vp.Pick("first", 3)
	for i := 0; i < 2; i++ {
		mask, l, k := []int{3, 1, 6}[(first+i)%3], []int{2, 0, 1}[(first+i)%3], []int{7, 3, 4}[(first+i)%3]
		ct := e.symCT("c"+itoa(i), mask, l, scale)
		e.checkRot("rotation "+itoa(i), ev.RotateNew(ct, k, rk), ct, set, mask, l, k)
	}
}
