package props

import (
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/rlwe"
	"verifharness/vp"
)

// rawParams builds mkrlwe parameters with nq ciphertext primes, np special primes and np/gamma primes per digit.
func rawParams(logN, nq, np, gamma int) (mkrlwe.Parameters, []uint64, []uint64) {
	Q := append([]uint64{q55[0]}, q40[:nq-1]...)
	P := append([]uint64{}, p56[:np]...)
	rp, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: logN, Q: Q, P: P, Sigma: rlwe.DefaultSigma})
	if err != nil {
		panic(err)
	}
	return mkrlwe.NewParameters(rp, gamma), Q, P
}

// shape of a parameter set: every number of ciphertext primes up to 5, of special primes up to 6 and every gamma that
// leaves at least one prime per digit.
func pickShape() (nq, np, gamma int) {
	nq = 1 + vp.Pick("ciphertext primes", 5)
	np = 1 + vp.Pick("special primes", 6)
	gamma = 1 + vp.Pick("gamma", np)
	return
}

// C20_digits: number of digits at every level.
func C20_digits() {
	nq, np, gamma := pickShape()
	p, _, _ := rawParams(4, nq, np, gamma)
	a := np / gamma
	vp.EqInt("primes per digit", p.Alpha(), a)
	vp.EqInt("gamma", p.Gamma(), gamma)
	for l := 0; l < nq; l++ {
		b := p.Beta(l)
		vp.True("digits at level "+itoa(l)+" cover every prime", b*a >= l+1)
		vp.True("digits at level "+itoa(l)+" are the fewest", (b-1)*a < l+1)
	}
	vp.EqInt("rows of a key", len(mkrlwe.NewSwitchingKey(p).Value), p.Beta(nq-1))
}

// C20_beta: the number of digits for an arbitrary level of an arbitrarily long chain.
func C20_beta() {
	np := 1 + vp.Pick("special primes", 6)
	gamma := 1 + vp.Pick("gamma", np)
	p, _, _ := rawParams(4, 1, np, gamma)
	a := np / gamma
	l := int(vp.Int("level", 0, 1<<20))
	b := p.Beta(l)
	vp.True("digits cover every prime", b*a >= l+1)
	vp.True("digits are the fewest", (b-1)*a < l+1)
}

func fullRow(k *mkrlwe.SwitchingKey, rows, n int, Q, P []uint64) bool {
	ok := k != nil && len(k.Value) == rows
	for i := 0; ok && i < rows; i++ {
		r := k.Value[i]
		ok = r.Q != nil && r.P != nil && len(r.Q.Coeffs) == len(Q) && len(r.P.Coeffs) == len(P)
		for j := 0; ok && j < len(Q); j++ {
			ok = len(r.Q.Coeffs[j]) == n
		}
		for j := 0; ok && j < len(P); j++ {
			ok = len(r.P.Coeffs[j]) == n
		}
	}
	return ok
}

func crsIndices(logN int) []int {
	idx := []int{0, -1, -2, -3, -4}
	for i := 0; i < logN-1; i++ {
		idx = append(idx, 1<<uint(i))
	}
	return idx
}

// C20_crs: the default entries, and one added later.
func C20_crs() {
	nq, np, gamma := pickShape()
	logN := 4 + vp.Pick("logN", 1+vp.Tier())
	p, Q, P := rawParams(logN, nq, np, gamma)
	rows := (nq + np/gamma - 1) / (np / gamma)
	n := 1 << uint(logN)
	idx := crsIndices(logN)
	for _, i := range idx {
		vp.True("entry "+itoa(i), fullRow(p.CRS[i], rows, n, Q, P))
	}
	vp.True("an amount that is no power of two has no entry", p.CRS[3] == nil)
	snap := vp.Snapshot(p.CRS)
	add := []int{3, 5, 7, n/2 - 1}[vp.Pick("new entry", 4)]
	p.AddCRS(add)
	fresh := p.CRS[add]
	vp.True("new entry", fullRow(fresh, rows, n, Q, P))
	delete(p.CRS, add)
	vp.Unchanged("the other entries", snap, p.CRS)
	for _, i := range idx {
		vp.Disjoint("new entry and entry "+itoa(i), fresh, p.CRS[i])
	}
}

// C20_distinct: the entries of a parameter set are distinct uniform polynomials: no two rows share storage or equal each other.
func C20_distinct() {
	nq := 1 + vp.Pick("ciphertext primes", 3)
	p, Q, P := rawParams(4, nq, 2, 2)
	p.AddCRS(3)
	p.AddCRS(5)
	p.AddCRS(6)
	mods := joinMods(Q, P)
	idx := append(crsIndices(4), 3, 5, 6)
	e := &env{N: 16}
	for x, i := range idx {
		for r := range p.CRS[i].Value {
			for y := 0; y <= x; y++ {
				for s := range p.CRS[idx[y]].Value {
					if y == x && s >= r {
						continue
					}
					a, b := p.CRS[i].Value[r], p.CRS[idx[y]].Value[s]
					vp.Differ("rows "+itoa(i)+"."+itoa(r)+" and "+itoa(idx[y])+"."+itoa(s), e.join(a.Q, a.P, nq, 2), e.join(b.Q, b.P, nq, 2), mods)
				}
			}
		}
	}
}

// C20_ckks: the scheme parameters keep the shape they are created with, for every number of slots; messages have that many values.
func C20_ckks() {
	nq, np := 1+vp.Pick("ciphertext primes", 4), 2+vp.Pick("special primes", 4)
	logN := 4 + vp.Pick("logN", 2)
	ls := vp.Pick("logSlots", logN)
	Q := append([]uint64{q55[0]}, q40[:nq-1]...)
	P := append([]uint64{}, p56[:np]...)
	rp, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: logN, Q: Q, P: P, Sigma: rlwe.DefaultSigma})
	if err != nil {
		panic(err)
	}
	sc := []float64{1 << 40, 1 << 30, 12345.5}[vp.Pick("scale", 3)]
	cp, err := ckks.NewParameters(rp, ls, sc)
	if err != nil {
		panic(err)
	}
	p := mkckks.NewParameters(cp)
	vp.EqInt("logSlots", p.LogSlots(), ls)
	vp.EqInt("slots", p.Slots(), 1<<uint(ls))
	vp.EqF("scale", p.Scale(), sc)
	vp.EqInt("values of a message", len(mkckks.NewMessage(p).Value), 1<<uint(ls))
	vp.EqInt("slots of a message", mkckks.NewMessage(p).Slots(), 1<<uint(ls))
	vp.EqInt("ring degree", p.N(), 1<<uint(logN))
	vp.EqInt("ciphertext primes", p.QCount(), nq)
	vp.EqInt("special primes", p.PCount(), np)
	for i := range Q {
		vp.True("ciphertext prime "+itoa(i), p.RingQ().Modulus[i] == Q[i])
	}
	for i := range P {
		vp.True("special prime "+itoa(i), p.RingP().Modulus[i] == P[i])
	}
	vp.EqInt("primes per digit", p.Alpha(), np/2)
	vp.True("default entries of the reference string", fullRow(p.CRS[0], p.Beta(nq-1), 1<<uint(logN), Q, P))
}
