// Package props holds the harnesses: each function C<nn>_<name> states one obligation of property C<nn>
// over the real code, for every value of the symbolic inputs it makes and every choice it picks.
package props

import (
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	"strconv"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"

	"verifharness/vp"
)

const scale = float64(1 << 40)

var q55 = []uint64{36028797018964481, 36028797018963457}
var q40 = []uint64{1099511630593, 1099511630849, 1099511619841, 1099511638529, 1099511633153, 1099511639297, 1099511643137, 1099511646721}
var p56 = []uint64{72057594037934081, 72057594037934849, 72057594037940993, 72057594037941761, 1152921504606844417, 1152921504606830593}

type env struct {
	p     mkckks.Parameters
	Q, P  []uint64
	N     int
	alpha int
	kg    *mkrlwe.KeyGenerator
	ringQ *ring.Ring
	ringP *ring.Ring
	maxL  int
	logN  int
}

// newEnv builds parameters with nq ciphertext primes (55, 40, 40, ... bits) and np special primes.
func newEnv(logN, nq, np int) *env {
	e := &env{}
	e.Q = append(e.Q, q55[0])
	e.Q = append(e.Q, q40[:nq-1]...)
	e.P = append(e.P, p56[:np]...)
	return e.finish(logN)
}

func (e *env) finish(logN int) *env {
	cp, err := ckks.NewParametersFromLiteral(ckks.ParametersLiteral{LogN: logN, LogSlots: logN - 1, Q: e.Q, P: e.P, Scale: scale, Sigma: rlwe.DefaultSigma})
	if err != nil {
		panic(err)
	}
	e.logN = logN
	e.N = 1 << uint(logN)
	e.p = mkckks.NewParameters(cp)
	e.alpha = len(e.P) / 2
	e.maxL = len(e.Q) - 1
	e.ringQ = e.p.RingQ()
	e.ringP = e.p.RingP()
	e.kg = mkckks.NewKeyGenerator(e.p)
	return e
}

var names = []string{"alice", "bob", "carol", "dave", "erin", "frank",
	"grace", "heidi", "ivan", "judy", "kim", "leo", "mallory", "niaj", "olivia", "peggy", "rupert", "sybil", "trent", "ursula",
	"victor", "wendy", "xavier", "yves", "zoe", "ann", "bill", "cid", "dora", "eve", "fay", "gus", "hal", "ida"}

func ids(mask int) *mkrlwe.IDSet {
	s := mkrlwe.NewIDSet()
	for i, n := range names {
		if mask>>uint(i)&1 == 1 {
			s.Add(n)
		}
	}
	return s
}

func parties(mask int) []string {
	var r []string
	for i, n := range names {
		if mask>>uint(i)&1 == 1 {
			r = append(r, n)
		}
	}
	return r
}

// symCT is a ciphertext whose residues are all arbitrary.
func (e *env) symCT(name string, mask, level int, sc float64) *mkckks.Ciphertext {
	ct := mkckks.NewCiphertext(e.p, ids(mask), level, sc)
	vp.Residues(name+".0", ct.Value["0"], e.Q[:level+1])
	for _, id := range parties(mask) {
		vp.Residues(name+"."+id, ct.Value[id], e.Q[:level+1])
	}
	return ct
}

// keys generates secret keys for the parties in mask.
func (e *env) keys(mask int) *mkrlwe.SecretKeySet {
	set := mkrlwe.NewSecretKeySet()
	for _, id := range parties(mask) {
		set.AddSecretKey(e.kg.GenSecretKey(id))
	}
	return set
}

// skCoeffs is the secret key as coefficients modulo every prime of Q and P.
func (e *env) skCoeffs(sk *mkrlwe.SecretKey) rlwe.PolyQP {
	c := sk.Value.CopyNew()
	qp := e.p.RingQP()
	lq, lp := len(e.Q)-1, len(e.P)-1
	qp.InvMFormLvl(lq, lp, c, c)
	e.ringQ.InvNTTLvl(lq, c.Q, c.Q)
	e.ringP.InvNTTLvl(lp, c.P, c.P)
	return c
}

func newPoly(n, rows int) *ring.Poly { return ring.NewPoly(n, rows) }

// dec is the reference decryption c0 + sum_i c_i*s_i at the level of ct.
func (e *env) dec(ct *mkrlwe.Ciphertext, set *mkrlwe.SecretKeySet) *ring.Poly {
	lvl := len(ct.Value["0"].Coeffs) - 1
	r := newPoly(e.N, lvl+1)
	for j := 0; j <= lvl; j++ {
		copy(r.Coeffs[j], ct.Value["0"].Coeffs[j])
	}
	for _, id := range names {
		c, ok := ct.Value[id]
		if !ok {
			continue
		}
		s := e.skCoeffs(set.Value[id])
		for j := 0; j <= lvl; j++ {
			t := vp.NegMul(c.Coeffs[j], s.Q.Coeffs[j], e.Q[j])
			for i := range t {
				r.Coeffs[j][i] = addMod(r.Coeffs[j][i], t[i], e.Q[j])
			}
		}
	}
	return r
}

func addMod(a, b, q uint64) uint64 { return vp.AddMod(a, b, q) }
func subMod(a, b, q uint64) uint64 { return vp.SubMod(a, b, q) }

// aut applies X -> X^g to coefficient rows.
func (e *env) aut(p *ring.Poly, g uint64, mods []uint64) *ring.Poly {
	r := newPoly(e.N, len(mods))
	n := uint64(e.N)
	for j, q := range mods {
		for i := uint64(0); i < n; i++ {
			k := i * g % (2 * n)
			if k < n {
				r.Coeffs[j][k] = p.Coeffs[j][i]
			} else {
				r.Coeffs[j][k-n] = subMod(0, p.Coeffs[j][i], q)
			}
		}
	}
	return r
}

// rotGal is 5^k modulo 2N, k taken modulo N/2.
func (e *env) rotGal(k int) uint64 {
	h := e.N / 2
	k = ((k % h) + h) % h
	g := uint64(1)
	for i := 0; i < k; i++ {
		g = g * 5 % uint64(2*e.N)
	}
	return g
}

func (e *env) addP(a, b *ring.Poly, mods []uint64) *ring.Poly {
	r := newPoly(e.N, len(mods))
	for j, q := range mods {
		for i := range r.Coeffs[j] {
			r.Coeffs[j][i] = addMod(a.Coeffs[j][i], b.Coeffs[j][i], q)
		}
	}
	return r
}

func (e *env) subP(a, b *ring.Poly, mods []uint64) *ring.Poly {
	r := newPoly(e.N, len(mods))
	for j, q := range mods {
		for i := range r.Coeffs[j] {
			r.Coeffs[j][i] = subMod(a.Coeffs[j][i], b.Coeffs[j][i], q)
		}
	}
	return r
}

func (e *env) mulP(a, b *ring.Poly, mods []uint64) *ring.Poly {
	r := newPoly(e.N, len(mods))
	for j, q := range mods {
		copy(r.Coeffs[j], vp.NegMul(a.Coeffs[j], b.Coeffs[j], q))
	}
	return r
}

func (e *env) scaleP(a *ring.Poly, k uint64, mods []uint64) *ring.Poly {
	r := newPoly(e.N, len(mods))
	for j, q := range mods {
		for i := range r.Coeffs[j] {
			r.Coeffs[j][i] = vp.MulMod(a.Coeffs[j][i], k%q, q)
		}
	}
	return r
}

// hasParties asserts that ct involves exactly the parties in mask, all at the given level.
func (e *env) hasParties(label string, ct *mkrlwe.Ciphertext, mask, level int) bool {
	ok := len(ct.Value) == 1+len(parties(mask)) && ct.Value["0"] != nil
	for _, id := range parties(mask) {
		ok = ok && ct.Value[id] != nil
	}
	vp.True(label+": parties", ok)
	if !ok {
		return false
	}
	vp.EqInt(label+": level", len(ct.Value["0"].Coeffs)-1, level)
	if len(ct.Value["0"].Coeffs)-1 != level {
		return false
	}
	for _, id := range parties(mask) {
		if len(ct.Value[id].Coeffs)-1 != level {
			vp.True(label+": component level", false)
			return false
		}
	}
	return true
}

func itoa(i int) string { return strconv.Itoa(i) }

// encode returns the coefficients, modulo every ciphertext prime, of the encoding of msg at the given scale.
func (e *env) encode(msg []complex128, sc float64) *ring.Poly {
	pt := ckks.NewPlaintext(e.ckks(), e.maxL, sc)
	ckks.NewEncoder(e.ckks()).Encode(pt, msg, e.p.LogSlots())
	c := pt.Value.CopyNew()
	if pt.Value.IsNTT {
		e.ringQ.InvNTTLvl(e.maxL, c, c)
		c.IsNTT = false
	}
	return c
}
