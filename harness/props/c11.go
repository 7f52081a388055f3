package props

import (
	"math"
	"math/big"
	"mk-lr/mkckks"

	"github.com/ldsec/lattigo/v2/ring"
	"verifharness/vp"
)

// constRes is round(c*sc) modulo q, computed exactly.
func constRes(c, sc float64, q uint64) uint64 {
	x := new(big.Float).SetPrec(400).SetFloat64(math.Abs(c))
	x.Mul(x, new(big.Float).SetPrec(400).SetFloat64(sc))
	x.Add(x, new(big.Float).SetPrec(400).SetFloat64(0.5))
	n, _ := x.Int(nil)
	n.Mod(n, new(big.Int).SetUint64(q))
	r := n.Uint64()
	if c < 0 {
		return subMod(0, r, q)
	}
	return r
}

// constPoly is the polynomial re + im*X^(N/2) at scale sc.
func (e *env) constPoly(re, im, sc float64, mods []uint64) *ring.Poly {
	p := newPoly(e.N, len(mods))
	for j, q := range mods {
		p.Coeffs[j][0] = constRes(re, sc, q)
		p.Coeffs[j][e.N/2] = constRes(im, sc, q)
	}
	return p
}

type constCase struct {
	c      interface{}
	re, im float64
}

var constCases = []constCase{
	{int(3), 3, 0}, {int(-7), -7, 0}, {int64(-1), -1, 0}, {int64(1) << 45, 1 << 45, 0}, {uint64(12345678901), 12345678901, 0},
	{uint64(0), 0, 0}, {float64(2), 2, 0}, {float64(-5), -5, 0}, {float64(0), 0, 0}, {float64(0.5), 0.5, 0}, {float64(-0.3), -0.3, 0},
	{float64(1234.75), 1234.75, 0}, {float64(1e-9), 1e-9, 0}, {float64(-65537.125), -65537.125, 0},
	{complex(2, 0), 2, 0}, {complex(-0.25, 0), -0.25, 0}, {complex(0, 1), 0, 1}, {complex(3, -4), 3, -4}, {complex(0, -0.75), 0, -0.75},
	{complex(0.5, 0.125), 0.5, 0.125}, {complex(-1.5, 2), -1.5, 2}, {complex(0, 0), 0, 0}, {complex(5, 1.0/3), 5, 1.0 / 3},
}

func integral(x float64) bool { return x == math.Trunc(x) }

// multConst checks MultByConst with the given output ciphertext (nil: in place).
func multConst(e *env, c constCase, ct, out *mkckks.Ciphertext, mask, l int) {
	ev := mkckks.NewEvaluator(e.p)
	mods := e.Q[:l+1]
	in := ct.CopyNew()
	sc := 1.0
	if !integral(c.re) || !integral(c.im) {
		sc = float64(e.Q[l])
	}
	k := e.constPoly(c.re, c.im, sc, mods)
	// the multiplier the code uses is the constant up to the precision of a float64
	one := mkckks.NewCiphertext(e.p, ids(0), l, scale)
	for j := range mods {
		one.Value["0"].Coeffs[j][0] = 1
	}
	res := mkckks.NewCiphertext(e.p, ids(0), l, scale)
	ev.MultByConst(one, c.c, res)
	tol := 0
	for _, x := range []float64{c.re, c.im} {
		if b := int(math.Ceil(math.Log2(math.Abs(x)*sc+1))) - 52; b > tol {
			tol = b
		}
	}
	if sc == 1 {
		vp.EqPoly("multiplier", res.Value["0"], k, mods)
	} else {
		vp.Near("multiplier", res.Value["0"], k, mods, nil, tol+1)
	}
	k = res.Value["0"].CopyNew()
	ev.MultByConst(ct, c.c, out)
	vp.EqF("scale", out.Scale, in.Scale*sc)
	if !e.hasParties("product", out.Ciphertext, mask, l) {
		return
	}
	for _, id := range append([]string{"0"}, parties(mask)...) {
		vp.EqPoly("component "+id, out.Value[id], e.mulP(in.Value[id], k, mods), mods)
	}
}

// C11_const: a fresh output.
func C11_const() {
	e := newEnv(4, 3, 2)
	mask := []int{3, 0, 1, 7}[vp.Pick("parties", 2+2*vp.Tier())]
	l := 2 - vp.Pick("level", 2)
	c := constCases[vp.Pick("constant", len(constCases))]
	ct := e.symCT("c", mask, l, scale)
	out := mkckks.NewCiphertext(e.p, ids(mask), l, 1)
	snap := vp.Snapshot(ct)
	multConst(e, c, ct, out, mask, l)
	vp.Unchanged("operand", snap, ct)
	vp.Disjoint("result and operand", out, ct)
}

// C11_inplace: the output is the operand.
func C11_inplace() {
	e := newEnv(4, 2, 2)
	mask := vp.Pick("parties", 2)
	c := constCases[vp.Pick("constant", len(constCases))]
	ct := e.symCT("c", mask, 1, scale)
	multConst(e, c, ct, ct, mask, 1)
}

// C11_old: the output has old contents.
func C11_old() {
	e := newEnv(4, 2, 2)
	c := constCases[vp.Pick("constant", len(constCases))]
	ct := e.symCT("c", 1, 1, scale)
	multConst(e, c, ct, e.symCT("old", 1, 1, 9), 1, 1)
}

// C11_size: another ring degree.
func C11_size() {
	e := newEnv(5+vp.Pick("logN", 1+vp.Tier()), 2, 2)
	c := constCases[vp.Pick("constant", len(constCases))]
	ct := e.symCT("c", 1, 1, scale)
	multConst(e, c, ct, mkckks.NewCiphertext(e.p, ids(1), 1, 1), 1, 1)
}

// C11_zero: level zero with an integral constant.
func C11_zero() {
	e := newEnv(4, 2, 2)
	c := []constCase{constCases[0], constCases[1], constCases[6], constCases[16], constCases[17]}[vp.Pick("constant", 5)]
	ct := e.symCT("c", 3, 0, scale)
	multConst(e, c, ct, mkckks.NewCiphertext(e.p, ids(3), 0, 1), 3, 0)
}

// C11_drop: dropping levels, in place and copying.
func C11_drop() {
	e := newEnv(4, 4, 2)
	mask := vp.Pick("parties", 8)
	l := vp.Pick("level", 4)
	n := vp.Pick("levels to drop", l+1)
	ct := e.symCT("c", mask, l, 3*scale)
	in := ct.CopyNew()
	ev := mkckks.NewEvaluator(e.p)
	snap := vp.Snapshot(ct)
	out := ev.DropLevelNew(ct, n)
	vp.Unchanged("operand", snap, ct)
	vp.Disjoint("result and operand", out, ct)
	e.checkDrop("DropLevelNew", out, in, mask, l-n)
	ev.DropLevel(ct, n)
	e.checkDrop("DropLevel", ct, in, mask, l-n)
}

func (e *env) checkDrop(label string, out, in *mkckks.Ciphertext, mask, l int) {
	if !e.hasParties(label, out.Ciphertext, mask, l) {
		return
	}
	vp.EqF(label+": scale", out.Scale, in.Scale)
	for _, id := range append([]string{"0"}, parties(mask)...) {
		vp.EqPoly(label+": component "+id, out.Value[id], in.Value[id], e.Q[:l+1])
	}
}
