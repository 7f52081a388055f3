package props

import (
	"math/big"
	"mk-lr/mkrlwe"

	"github.com/ldsec/lattigo/v2/ring"
	"verifharness/vp"
)

// gadgetCase is a parameter set with its own number of primes per digit.
type gadgetCase struct {
	*env
	pr   mkrlwe.Parameters
	kgen *mkrlwe.KeyGenerator
}

func newGadget(logN, nq, np, gamma int) *gadgetCase {
	e := newEnv(logN, nq, np)
	g := &gadgetCase{env: e}
	g.pr = mkrlwe.NewParameters(e.p.Parameters.Parameters, gamma)
	g.kgen = mkrlwe.NewKeyGenerator(g.pr)
	g.alpha = np / gamma
	return g
}

var gadgets = [][3]int{{3, 2, 2}, {3, 4, 2}, {4, 3, 2}, {4, 4, 2}, {4, 6, 2}, {4, 5, 2}, {4, 2, 1}, {4, 3, 1}, {4, 3, 3}, {4, 6, 3}, {5, 4, 2}, {5, 6, 2}, {2, 6, 2}, {8, 4, 2}, {7, 6, 2}}

func pickGadget() *gadgetCase {
	g := gadgets[vp.Pick("primes", len(gadgets))]
	return newGadget(4, g[0], g[1], g[2])
}

// group is the list of prime indices of digit i at a level.
func (g *gadgetCase) group(i, level int) []int {
	var r []int
	for j := i * g.alpha; j < (i+1)*g.alpha && j <= level; j++ {
		r = append(r, j)
	}
	return r
}

func (g *gadgetCase) digits(level int) int { return (level + g.alpha) / g.alpha }

func bitsOf(qs []uint64) int {
	x := big.NewInt(1)
	for _, q := range qs {
		x.Mul(x, new(big.Int).SetUint64(q))
	}
	return x.BitLen()
}

// checkDigit: the digit (coefficients modulo Q[:level+1] then P) is the residue of a modulo its group, the same small
// integer modulo every prime.
func (g *gadgetCase) checkDigit(label string, dq, dp, a *ring.Poly, i, level int) {
	d := newPoly(g.N, level+1+len(g.P))
	for j := 0; j <= level; j++ {
		copy(d.Coeffs[j], dq.Coeffs[j])
	}
	for j := range g.P {
		copy(d.Coeffs[level+1+j], dp.Coeffs[j])
	}
	var grp []uint64
	for _, j := range g.group(i, level) {
		vp.EqRow(label+": residue modulo its own prime", d.Coeffs[j], a.Coeffs[j], g.Q[j])
		grp = append(grp, g.Q[j])
	}
	mods := append(append([]uint64{}, g.Q[:level+1]...), g.P...)
	vp.Near(label+": one integer below the group's product", d, newPoly(g.N, len(mods)), mods, nil, bitsOf(grp))
}

func (g *gadgetCase) symPoly(name string, level int, ntt bool) (a, in *ring.Poly) {
	a = newPoly(g.N, level+1)
	vp.Residues(name, a, g.Q[:level+1])
	in = a.CopyNew()
	if ntt {
		g.ringQ.NTTLvl(level, in, in)
		in.IsNTT = true
	}
	return
}

// C14_decompose: every digit, at every level, for inputs in either domain.
func C14_decompose() {
	g := pickGadget()
	l := vp.Pick("level", len(g.Q))
	ntt := vp.Pick("input in the NTT domain", 2) == 1
	a, in := g.symPoly("a", l, ntt)
	ks := mkrlwe.NewKeySwitcher(g.pr)
	ad := mkrlwe.NewSwitchingKey(g.pr)
	snap := vp.Snapshot(in)
	ks.Decompose(l, in, ad)
	vp.Unchanged("input", snap, in)
	for i := 0; i < g.digits(l); i++ {
		dq, dp := ad.Value[i].Q.CopyNew(), ad.Value[i].P.CopyNew()
		g.ringQ.InvNTTLvl(l, dq, dq)
		g.ringP.InvNTTLvl(len(g.P)-1, dp, dp)
		g.checkDigit("digit "+itoa(i), dq, dp, a, i, l)
	}
}

// C14_split: the decomposer itself, digit by digit, without transforms.
func C14_split() {
	g := pickGadget()
	l := vp.Pick("level", len(g.Q))
	a, _ := g.symPoly("a", l, false)
	d := mkrlwe.NewDecomposer(g.ringQ, g.ringP, g.pr.Gamma())
	for i := g.digits(l) - 1; i >= 0; i-- {
		dq, dp := newPoly(g.N, l+1), newPoly(g.N, len(g.P))
		d.DecomposeAndSplit(l, len(g.P)-1, g.alpha, i, g.pr.Gamma(), a, dq, dp)
		g.checkDigit("digit "+itoa(i), dq, dp, a, i, l)
	}
}

// C14_product: the external product with a gadget encryption of s is a*s up to small noise.
func C14_product() {
	g := pickGadget()
	l := vp.Pick("level", len(g.Q))
	ntt := vp.Pick("input in the NTT domain", 2) == 1
	sk := g.kgen.GenSecretKey("alice")
	bg := mkrlwe.NewSwitchingKey(g.pr)
	g.kgen.GenSwitchingKey(sk, bg)
	a, in := g.symPoly("a", l, ntt)
	ks := mkrlwe.NewKeySwitcher(g.pr)
	out := newPoly(g.N, l+1)
	snap := vp.Snapshot(in, bg)
	ks.ExternalProduct(l, in, bg, out)
	vp.Unchanged("input and gadget", snap, in, bg)
	g.checkExternal("external product", out, a, sk, l)
}

func (g *gadgetCase) checkExternal(label string, out, a *ring.Poly, sk *mkrlwe.SecretKey, l int) {
	mods := g.Q[:l+1]
	s := g.skCoeffs(sk)
	// digits of up to alpha primes times errors, summed and divided by P, plus rounding
	big := 0
	for i := 0; i < g.digits(l); i++ {
		var grp []uint64
		for _, j := range g.group(i, l) {
			grp = append(grp, g.Q[j])
		}
		if b := bitsOf(grp) + 11 - bitsOf(g.P); b > big {
			big = b
		}
	}
	vp.Near(label, out, g.mulP(a, s.Q, mods), mods, g.P, big+2)
}

// C14_hoisted: decompose first, multiply later; one decomposition serves two gadgets.
func C14_hoisted() {
	g := pickGadget()
	l := vp.Pick("level", len(g.Q))
	ks := mkrlwe.NewKeySwitcher(g.pr)
	a, in := g.symPoly("a", l, false)
	ad := mkrlwe.NewSwitchingKey(g.pr)
	ks.Decompose(l, in, ad)
	for i := 0; i < 2; i++ {
		sk := g.kgen.GenSecretKey(names[i])
		bg := mkrlwe.NewSwitchingKey(g.pr)
		g.kgen.GenSwitchingKey(sk, bg)
		out := newPoly(g.N, l+1)
		snap := vp.Snapshot(ad, bg)
		ks.ExternalProductHoisted(l, ad, bg, out)
		vp.Unchanged("digits and gadget", snap, ad, bg)
		g.checkExternal("external product "+itoa(i), out, a, sk, l)
	}
}

// C14_history: a key switcher that worked at another level before.
func C14_history() {
	g := newGadget(4, 4, []int{2, 4}[vp.Pick("special primes", 2)], 2)
	ks := mkrlwe.NewKeySwitcher(g.pr)
	sk := g.kgen.GenSecretKey("alice")
	bg := mkrlwe.NewSwitchingKey(g.pr)
	g.kgen.GenSwitchingKey(sk, bg)
	for i := 0; i < 2; i++ {
		l := vp.Pick("level", 4)
		a, in := g.symPoly("a"+itoa(i), l, i == 1)
		out := newPoly(g.N, l+1)
		ks.ExternalProduct(l, in, bg, out)
		g.checkExternal("external product "+itoa(i), out, a, sk, l)
	}
}
