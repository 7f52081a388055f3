package props

import (
	"math"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"

	"github.com/ldsec/lattigo/v2/ring"
	"verifharness/vp"
)

// secrets generates secret keys and relinearization keys (concrete pseudo-random values in the engine).
func (e *env) secrets(mask int) (*mkrlwe.SecretKeySet, *mkrlwe.RelinearizationKeySet) {
	set := mkrlwe.NewSecretKeySet()
	rlk := mkrlwe.NewRelinearizationKeyKeySet(e.p.Parameters)
	for _, id := range parties(mask) {
		sk := e.kg.GenSecretKey(id)
		r := e.kg.GenSecretKey(id)
		set.AddSecretKey(sk)
		rlk.AddRelinearizationKey(e.kg.GenRelinearizationKey(sk, r))
	}
	return set, rlk
}

// drops is the number of automatic rescalings for a scale at a level, by the documented rule.
func (e *env) drops(sc float64, level int, min float64) int {
	n := 0
	for level-n > 0 && sc/float64(e.Q[level-n]) >= min/2 {
		sc /= float64(e.Q[level-n])
		n++
	}
	return n
}

// checkProduct: out decrypts to (da*db)/D up to noise, at the right level and scale.
func (e *env) checkProduct(label string, out *mkckks.Ciphertext, set *mkrlwe.SecretKeySet, mask int, prod *ring.Poly, level int, sc float64, logB int) {
	nd := e.drops(sc, level, e.p.Scale())
	if !e.hasParties(label, out.Ciphertext, mask, level-nd) {
		return
	}
	want := sc
	for i := 0; i < nd; i++ {
		want /= float64(e.Q[level-i])
	}
	vp.EqF(label+": scale", out.Scale, want)
	mods, drop := e.Q[:level-nd+1], e.Q[level-nd+1:level+1]
	bits := logB
	if nd == 0 {
		bits += 17 // key switching noise, not divided by anything
	}
	for _, q := range drop {
		bits += int(math.Ceil(math.Log2(float64(q)))) + 6
	}
	vp.NearScaled(label, e.dec(out.Ciphertext, set), mods, drop, prod, e.P, bits)
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// mulCase multiplies two arbitrary ciphertexts and checks the product.
func mulCase(e *env, ma, mb, la, lb int, sa, sb float64, logB int) {
	set, rlk := e.secrets(7)
	a := e.symCT("a", ma, la, sa)
	b := e.symCT("b", mb, lb, sb)
	l := minInt(la, lb)
	prod := e.mulP(e.dec(a.Ciphertext, set), e.dec(b.Ciphertext, set), e.Q[:l+1])
	snap := vp.Snapshot(a, b)
	out := mkckks.NewEvaluator(e.p).MulRelinNew(a, b, rlk)
	vp.Unchanged("operands", snap, a, b)
	e.checkProduct("product", out, set, ma|mb, prod, l, sa*sb, logB)
}

var mulMasks = [][2]int{{1, 1}, {1, 2}, {3, 1}, {2, 3}, {0, 1}, {1, 0}, {3, 3}, {3, 6}}

// C05_mul: every party combination and level combination with one prime per digit.
func C05_mul() {
	e := newEnv(4, 3, 2)
	n := 6
	if vp.Tier() > 0 {
		n = len(mulMasks)
		vp.MapOrder(vp.Pick("order", 2))
	}
	m := mulMasks[vp.Pick("parties", n)]
	lv := vp.Pick("levels", 4)
	la, lb := []int{2, 2, 1, 1}[lv], []int{2, 1, 2, 1}[lv]
	mulCase(e, m[0], m[1], la, lb, scale, scale, 8)
}

// C05_two: two shared parties.
func C05_two() {
	e := newEnv(4, 2, 2)
	vp.MapOrder(vp.Pick("order", 2))
	m := [][2]int{{3, 3}, {3, 6}, {5, 2}}[vp.Pick("parties", 3)]
	mulCase(e, m[0], m[1], 1, 1, scale, scale, 8)
}

// C05_square: both operands are the same ciphertext.
func C05_square() {
	e := newEnv(4, 3, 2)
	mask := []int{1, 2, 0, 3}[vp.Pick("parties", 3+vp.Tier())]
	l := 1 + vp.Pick("level", 2)
	set, rlk := e.secrets(7)
	a := e.symCT("a", mask, l, scale)
	d := e.dec(a.Ciphertext, set)
	prod := e.mulP(d, d, e.Q[:l+1])
	snap := vp.Snapshot(a)
	out := mkckks.NewEvaluator(e.p).MulRelinNew(a, a, rlk)
	vp.Unchanged("operand", snap, a)
	e.checkProduct("square", out, set, mask, prod, l, scale*scale, 8)
}

// C05_scales: the number of automatic rescalings follows from the scales (none, one, two).
func C05_scales() {
	e := newEnv(4, 3, 2)
	k := vp.Pick("scales", 5)
	sa := []float64{1 << 20, 1 << 39, 1 << 60, 1 << 60, scale}[k]
	sb := []float64{1 << 20, 1 << 40, 1 << 60, 1 << 59, 1 << 39}[k]
	l := vp.Pick("level", 3)
	if l == 0 && sa*sb > 1<<50 {
		sa, sb = 1<<20, 1<<20
	}
	mulCase(e, 1, 2, l, l, sa, sb, 8)
}

// C05_alpha: digits of several primes, with a complete and a partial last group.
func C05_alpha() {
	np := []int{3, 4, 5, 6}[vp.Pick("special primes", 4)]
	nq := []int{3, 4}[vp.Pick("primes", 2)]
	e := newEnv(4, nq, np)
	l := 1 + vp.Pick("level", nq-1)
	mulCase(e, 1, 1, l, l, scale, scale, 8)
}

// C05_ksw: the key switcher's own multiplication, into an output at or below the operands' level; no rescaling there.
func C05_ksw() {
	np := []int{2, 4}[vp.Pick("special primes", 2)]
	e := newEnv(4, 3, np)
	m := mulMasks[vp.Pick("parties", 3)]
	lv := vp.Pick("levels", 4)
	la, lb, l := []int{2, 2, 1, 2}[lv], []int{2, 1, 2, 2}[lv], []int{2, 1, 1, 0}[lv]
	set, rlk := e.secrets(3)
	a := e.symCT("a", m[0], la, 1)
	b := e.symCT("b", m[1], lb, 1)
	ev := mkckks.NewEvaluator(e.p)
	prod := e.mulP(e.dec(ev.DropLevelNew(a, la-l).Ciphertext, set), e.dec(ev.DropLevelNew(b, lb-l).Ciphertext, set), e.Q[:l+1])
	snap := vp.Snapshot(a, b)
	out := e.symCT("old", m[0]|m[1], l, 1) // whatever the receiver held before
	mkrlwe.NewKeySwitcher(e.p.Parameters).MulAndRelin(a.Ciphertext, b.Ciphertext, rlk, out.Ciphertext)
	vp.Unchanged("operands", snap, a, b)
	e.checkProduct("product", out, set, m[0]|m[1], prod, l, 1, 8)
}

// C05_kswagain: the key switcher's own multiplication after an earlier one by the same key switcher.
func C05_kswagain() {
	e := newEnv(4, 3, 2)
	set, rlk := e.secrets(3)
	ks := mkrlwe.NewKeySwitcher(e.p.Parameters)
	l := 2 - vp.Pick("level", 2)
	for i, m := range [][2]int{{3, 1}, {1, 2}} {
		a := e.symCT("a"+itoa(i), m[0], 2, 1)
		b := e.symCT("b"+itoa(i), m[1], 2, 1)
		out := mkckks.NewCiphertext(e.p, ids(m[0]|m[1]), 2, 1)
		if i == 1 {
			out = mkckks.NewCiphertext(e.p, ids(m[0]|m[1]), l, 1)
		}
		ks.MulAndRelin(a.Ciphertext, b.Ciphertext, rlk, out.Ciphertext)
		if i == 1 {
			ev := mkckks.NewEvaluator(e.p)
			prod := e.mulP(e.dec(ev.DropLevelNew(a, 2-l).Ciphertext, set), e.dec(ev.DropLevelNew(b, 2-l).Ciphertext, set), e.Q[:l+1])
			e.checkProduct("product", out, set, 3, prod, l, 1, 8)
		}
	}
}
