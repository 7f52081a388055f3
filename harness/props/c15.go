package props

import (
	"mk-lr/mkrlwe"

	"github.com/ldsec/lattigo/v2/ring"
	"verifharness/vp"
)

// lazyPoly has arbitrary residues below twice the modulus (lazy) or below the modulus.
func (e *env) lazyPoly(name string, mods []uint64, lazy bool) *ring.Poly {
	p := newPoly(e.N, len(mods))
	if !lazy {
		vp.Residues(name, p, mods)
		return p
	}
	for j, q := range mods {
		for i := range p.Coeffs[j] {
			p.Coeffs[j][i] = vp.U64(name+"["+itoa(j)+"]["+itoa(i)+"]", 0, 2*q-1)
		}
	}
	return p
}

func (e *env) join(a, b *ring.Poly, na, nb int) *ring.Poly {
	r := newPoly(e.N, na+nb)
	for j := 0; j < na; j++ {
		copy(r.Coeffs[j], a.Coeffs[j])
	}
	for j := 0; j < nb; j++ {
		copy(r.Coeffs[na+j], b.Coeffs[j])
	}
	return r
}

func joinMods(a, b []uint64) []uint64 { return append(append([]uint64{}, a...), b...) }

// extender is a basis extender, possibly a shallow copy that shares tables with one that has been used.
func (e *env) extender(copied bool) *mkrlwe.FastBasisExtender {
	be := mkrlwe.NewFastBasisExtender(e.ringQ, e.ringP)
	if copied {
		a, b := e.lazyPoly("w", e.Q, false), e.lazyPoly("x", e.P, false)
		be.ModDownQPtoQ(len(e.Q)-1, len(e.P)-1, a, b, newPoly(e.N, len(e.Q)))
		return be.ShallowCopy()
	}
	return be
}

// C15_up: extension in both directions between every pair of levels.
func C15_up() {
	e := newEnv(4, 4, 4)
	lq, lp := vp.Pick("levelQ", 4), vp.Pick("levelP", 4)
	dir := vp.Pick("direction", 2)
	be := e.extender(false)
	Q, P := e.Q[:lq+1], e.P[:lp+1]
	mods := joinMods(Q, P)
	if dir == 0 {
		a, b := e.lazyPoly("a", Q, false), newPoly(e.N, lp+1)
		snap := vp.Snapshot(a)
		be.ModUpQtoP(lq, lp, a, b)
		vp.Unchanged("source", snap, a)
		vp.Near("one integer below Q", e.join(a, b, lq+1, lp+1), newPoly(e.N, len(mods)), mods, nil, bitsOf(Q))
	} else {
		a, b := e.lazyPoly("a", P, false), newPoly(e.N, lq+1)
		snap := vp.Snapshot(a)
		be.ModUpPtoQ(lp, lq, a, b)
		vp.Unchanged("source", snap, a)
		vp.Near("one integer below P", e.join(b, a, lq+1, lp+1), newPoly(e.N, len(mods)), mods, nil, bitsOf(P))
	}
}

// C15_down: division by the special modulus, in the coefficient and in the NTT domain.
func C15_down() {
	e := newEnv(4, 4, 4)
	lq, lp := vp.Pick("levelQ", 4), vp.Pick("levelP", 4)
	kind := vp.Pick("kind", 4)
	be := e.extender(kind == 1)
	Q, P := e.Q[:lq+1], e.P[:lp+1]
	a, b := e.lazyPoly("a", Q, kind == 2), e.lazyPoly("b", P, kind == 2)
	t := e.join(a, b, lq+1, lp+1)
	out := newPoly(e.N, lq+1)
	if kind == 3 {
		e.ringQ.NTTLvl(lq, a, a)
		e.ringP.NTTLvl(lp, b, b)
		be.ModDownQPtoQNTT(lq, lp, a, b, out)
		e.ringQ.InvNTTLvl(lq, out, out)
	} else {
		be.ModDownQPtoQ(lq, lp, a, b, out)
	}
	vp.NearDiv("quotient by P", out, Q, P, t, 2)
}

// C15_inplace: the output overwrites the ciphertext-modulus input.
func C15_inplace() {
	e := newEnv(4, 3, 2)
	lq, lp := vp.Pick("levelQ", 3), vp.Pick("levelP", 2)
	Q, P := e.Q[:lq+1], e.P[:lp+1]
	a, b := e.lazyPoly("a", Q, false), e.lazyPoly("b", P, false)
	t := e.join(a, b, lq+1, lp+1)
	e.extender(false).ModDownQPtoQ(lq, lp, a, b, a)
	vp.NearDiv("quotient by P", a, Q, P, t, 2)
}

// C15_downP: division by the ciphertext modulus.
func C15_downP() {
	e := newEnv(4, 4, 4)
	lq, lp := vp.Pick("levelQ", 4), vp.Pick("levelP", 4)
	be := e.extender(vp.Pick("copied", 2) == 1)
	Q, P := e.Q[:lq+1], e.P[:lp+1]
	a, b := e.lazyPoly("a", Q, false), e.lazyPoly("b", P, false)
	t := e.join(b, a, lp+1, lq+1)
	out := newPoly(e.N, lp+1)
	be.ModDownQPtoP(lq, lp, a, b, out)
	vp.NearDiv("quotient by Q", out, P, Q, t, 2)
}

// C15_history: one extender used at several levels in a row.
func C15_history() {
	e := newEnv(4, 3, 3)
	be := e.extender(false)
	for i := 0; i < 2; i++ {
		lq, lp := vp.Pick("levelQ", 3), vp.Pick("levelP", 3)
		Q, P := e.Q[:lq+1], e.P[:lp+1]
		a, b := e.lazyPoly("a"+itoa(i), Q, false), e.lazyPoly("b"+itoa(i), P, false)
		t := e.join(a, b, lq+1, lp+1)
		out := newPoly(e.N, lq+1)
		be.ModDownQPtoQ(lq, lp, a, b, out)
		vp.NearDiv("quotient by P", out, Q, P, t, 2)
	}
}

// C15_size: more primes and another ring degree.
func C15_size() {
	e := newEnv(5, 5, 6)
	lq, lp := []int{4, 3, 0}[vp.Pick("levelQ", 3)], []int{5, 4, 0}[vp.Pick("levelP", 3)]
	be := e.extender(false)
	Q, P := e.Q[:lq+1], e.P[:lp+1]
	a, b := e.lazyPoly("a", Q, false), e.lazyPoly("b", P, false)
	t := e.join(a, b, lq+1, lp+1)
	out := newPoly(e.N, lq+1)
	be.ModDownQPtoQ(lq, lp, a, b, out)
	vp.NearDiv("quotient by P", out, Q, P, t, 2)
	up := newPoly(e.N, lp+1)
	be.ModUpQtoP(lq, lp, a, up)
	mods := joinMods(Q, P)
	vp.Near("one integer below Q", e.join(a, up, lq+1, lp+1), newPoly(e.N, len(mods)), mods, nil, bitsOf(Q))
}
