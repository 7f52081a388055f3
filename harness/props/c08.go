package props

import (
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"

	"verifharness/vp"
)

func (e *env) conjKeys(mask int) (*mkrlwe.SecretKeySet, *mkrlwe.ConjugationKeySet) {
	set := mkrlwe.NewSecretKeySet()
	ck := mkrlwe.NewConjugationKeySet()
	for _, id := range parties(mask) {
		sk := e.kg.GenSecretKey(id)
		set.AddSecretKey(sk)
		ck.AddConjugationKey(e.kg.GenConjugationKey(sk))
	}
	return set, ck
}

func (e *env) checkConj(label string, out, ct *mkckks.Ciphertext, set *mkrlwe.SecretKeySet, mask, level int) {
	if !e.hasParties(label, out.Ciphertext, mask, level) {
		return
	}
	vp.EqF(label+": scale", out.Scale, ct.Scale)
	mods := e.Q[:level+1]
	want := e.aut(e.dec(ct.Ciphertext, set), uint64(2*e.N-1), mods)
	vp.Near(label, e.dec(out.Ciphertext, set), want, mods, e.P, 12)
}

// C08_conj: every party set at every level.
func C08_conj() {
	e := newEnv(4, 3, 2)
	mask := vp.Pick("parties", 8)
	l := 2 - vp.Pick("level", 3)
	vp.MapOrder(vp.Pick("order", 2))
	set, ck := e.conjKeys(mask)
	ct := e.symCT("c", mask, l, 5*scale)
	snap := vp.Snapshot(ct)
	out := mkckks.NewEvaluator(e.p).ConjugateNew(ct, ck)
	vp.Unchanged("operand", snap, ct)
	e.checkConj("conjugation", out, ct, set, mask, l)
}

// C08_alpha: digits of several primes.
func C08_alpha() {
	np := []int{3, 4, 5, 6}[vp.Pick("special primes", 4)]
	nq := []int{3, 4}[vp.Pick("primes", 2)]
	e := newEnv(4, nq, np)
	l := nq - 1 - vp.Pick("level", nq)
	set, ck := e.conjKeys(1)
	ct := e.symCT("c", 1, l, scale)
	e.checkConj("conjugation", mkckks.NewEvaluator(e.p).ConjugateNew(ct, ck), ct, set, 1, l)
}

// C08_size: another ring degree.
func C08_size() {
	e := newEnv(5+vp.Pick("logN", 1+vp.Tier()), 2, 2)
	l := 1 - vp.Pick("level", 2)
	set, ck := e.conjKeys(1)
	ct := e.symCT("c", 1, l, scale)
	e.checkConj("conjugation", mkckks.NewEvaluator(e.p).ConjugateNew(ct, ck), ct, set, 1, l)
}

// C08_history: one evaluator conjugates ciphertexts of different parties and levels in a row.
func C08_history() {
	e := newEnv(4, 3, 2)
	set, ck := e.conjKeys(7)
	ev := mkckks.NewEvaluator(e.p)
	first := vp.Pick("first", 3)
	for i := 0; i < 2; i++ {
		mask, l := []int{3, 1, 6}[(first+i)%3], []int{2, 0, 1}[(first+i)%3]
		ct := e.symCT("c"+itoa(i), mask, l, scale)
		e.checkConj("conjugation "+itoa(i), ev.ConjugateNew(ct, ck), ct, set, mask, l)
	}
}

// C08_ksw: the key-switcher level operation with an output below the input's level.
func C08_ksw() {
	e := newEnv(4, 3, 2)
	l := vp.Pick("level", 3)
	mask := []int{1, 3}[vp.Pick("parties", 2)]
	set, ck := e.conjKeys(mask)
	ct := e.symCT("c", mask, 2, scale)
	out := e.symCT("old", mask, l, scale)
	mkrlwe.NewKeySwitcher(e.p.Parameters).Conjugate(ct.Ciphertext, ck, out.Ciphertext)
	mkckks.NewEvaluator(e.p).DropLevel(ct, 2-l)
	e.checkConj("conjugation", out, ct, set, mask, l)
}
