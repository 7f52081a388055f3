package props

import (
	"mk-lr/mkrlwe"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"verifharness/vp"
)

const noiseBound = 19 // 6 sigma

func (e *env) all() []uint64 { return append(append([]uint64{}, e.Q...), e.P...) }

// coeffs is the coefficient representation of an NTT-domain row modulo every prime of Q and P.
func (e *env) coeffs(row rlwe.PolyQP, mform bool) *ring.Poly {
	c := row.CopyNew()
	lq, lp := len(e.Q)-1, len(e.P)-1
	if mform {
		e.p.RingQP().InvMFormLvl(lq, lp, c, c)
	}
	e.ringQ.InvNTTLvl(lq, c.Q, c.Q)
	e.ringP.InvNTTLvl(lp, c.P, c.P)
	r := newPoly(e.N, len(e.Q)+len(e.P))
	for j := range e.Q {
		copy(r.Coeffs[j], c.Q.Coeffs[j])
	}
	for j := range e.P {
		copy(r.Coeffs[len(e.Q)+j], c.P.Coeffs[j])
	}
	return r
}

// gadget is P*s on the primes of group i and zero elsewhere.
func (e *env) gadget(s *ring.Poly, i int) *ring.Poly {
	r := newPoly(e.N, len(e.Q)+len(e.P))
	for j := i * e.alpha; j < (i+1)*e.alpha && j < len(e.Q); j++ {
		pm := uint64(1)
		for _, p := range e.P {
			pm = vp.MulMod(pm, p%e.Q[j], e.Q[j])
		}
		for k := range r.Coeffs[j] {
			r.Coeffs[j][k] = vp.MulMod(s.Coeffs[j][k], pm, e.Q[j])
		}
	}
	return r
}

func (e *env) beta() int { return (len(e.Q) + e.alpha - 1) / e.alpha }

// rows asserts that a key vector has one full-size row per digit.
func (e *env) rows(label string, k *mkrlwe.SwitchingKey) bool {
	ok := k != nil && len(k.Value) == e.beta()
	for i := 0; ok && i < e.beta(); i++ {
		ok = k.Value[i].Q != nil && k.Value[i].P != nil && len(k.Value[i].Q.Coeffs) == len(e.Q) && len(k.Value[i].P.Coeffs) == len(e.P)
	}
	vp.True(label+": one full row per digit", ok)
	return ok
}

// errors returns row_i + s*a_i - g_i for every row.
func (e *env) errors(label string, k *mkrlwe.SwitchingKey, crs int, s, g *ring.Poly, neg bool) []*ring.Poly {
	if !e.rows(label, k) {
		return nil
	}
	mods := e.all()
	var r []*ring.Poly
	for i := 0; i < e.beta(); i++ {
		x := e.coeffs(k.Value[i], true)
		if crs > -100 {
			x = e.addP(x, e.mulP(e.coeffs(e.p.CRS[crs].Value[i], true), s, mods), mods)
		}
		if g != nil {
			if neg {
				x = e.addP(x, e.gadget(g, i), mods)
			} else {
				x = e.subP(x, e.gadget(g, i), mods)
			}
		}
		r = append(r, x)
	}
	return r
}

func pickParams() *env {
	k := vp.Pick("primes", 9+2*vp.Tier())
	if k == 0 {
		return newDeep(32, 2) // thirty-two primes of 60 bits
	}
	k--
	return newEnv([]int{4, 4, 4, 4, 4, 5, 4, 4, 5, 4}[k], []int{1, 2, 3, 4, 3, 2, 6, 7, 4, 8}[k], []int{2, 2, 4, 4, 3, 2, 2, 6, 4, 5}[k])
}

// C13_pk: the public key is (-s*a + e, a) with a the shared reference string.
func C13_pk() {
	e := pickParams()
	vp.Noise(true)
	sk, pk := e.kg.GenKeyPair("alice")
	pk2 := e.kg.GenPublicKey(sk)
	vp.True("owner", sk.ID == "alice" && pk.ID == "alice" && pk2.ID == "alice")
	mods := e.all()
	s := e.coeffs(sk.Value, true)
	var errs []*ring.Poly
	for _, k := range []*mkrlwe.PublicKey{pk, pk2} {
		a := e.coeffs(k.Value[1], false)
		vp.EqPoly("second component is the reference string", a, e.coeffs(e.p.CRS[0].Value[0], false), mods)
		errs = append(errs, e.addP(e.coeffs(k.Value[0], false), e.mulP(a, s, mods), mods))
	}
	vp.Fresh("public key error", errs, mods, noiseBound)
}

// C13_rlk: b = -s*a + e, d = -r*a + P*s*g + e, v = -s*u - P*r*g + e.
func C13_rlk() {
	e := pickParams()
	vp.Noise(true)
	sk, r := e.kg.GenSecretKey("bob"), e.kg.GenSecretKey("bob")
	snap := vp.Snapshot(sk, r, e.p.CRS)
	rlk := e.kg.GenRelinearizationKey(sk, r)
	vp.Unchanged("secret keys and reference strings", snap, sk, r, e.p.CRS)
	vp.True("owner", rlk.ID == "bob")
	s, rr := e.coeffs(sk.Value, true), e.coeffs(r.Value, true)
	errs := e.errors("b", rlk.Value[0], 0, s, nil, false)
	errs = append(errs, e.errors("d", rlk.Value[1], 0, rr, s, false)...)
	errs = append(errs, e.errors("v", rlk.Value[2], -1, s, rr, true)...)
	vp.Fresh("relinearization key error", errs, e.all(), noiseBound)
}

// C13_rot: rk = -s'*a + P*s*g + e with s' the secret key under the inverse rotation.
func C13_rot() {
	e := pickParams()
	vp.Noise(true)
	k := 1 << uint(vp.Pick("amount", e.logN-1))
	sk := e.kg.GenSecretKey("carol")
	snap := vp.Snapshot(sk, e.p.CRS)
	rk := e.kg.GenRotationKey(k, sk)
	vp.Unchanged("secret key and reference strings", snap, sk, e.p.CRS)
	vp.True("owner and amount", rk.ID == "carol" && rk.RotIdx == uint(k))
	s := e.coeffs(sk.Value, true)
	vp.Fresh("rotation key error", e.errors("rotation key", rk.Value, k, e.aut(s, e.rotGal(-k), e.all()), s, false), e.all(), noiseBound)
}

// C13_default: the default rotation keys are one per power of two, each for its own amount, with independent noise.
func C13_default() {
	e := newEnv(4+vp.Pick("logN", 2), 2, 2)
	vp.Noise(true)
	sk := e.kg.GenSecretKey("carol")
	set := mkrlwe.NewRotationKeySet()
	e.kg.GenDefaultRotationKeys(sk, set)
	s := e.coeffs(sk.Value, true)
	vp.EqInt("parties", len(set.Value), 1)
	vp.EqInt("keys", len(set.Value["carol"]), e.logN-1)
	var errs []*ring.Poly
	for k := 1; k < e.N/2; k *= 2 {
		rk := set.Value["carol"][uint(k)]
		vp.True("key present", rk != nil)
		if rk == nil {
			return
		}
		errs = append(errs, e.errors("rotation key", rk.Value, k, e.aut(s, e.rotGal(-k), e.all()), s, false)...)
	}
	vp.Fresh("rotation key errors", errs, e.all(), noiseBound)
}

// C13_conj: ck = -s*a + P*s'*g + e with s' the conjugate of the secret key.
func C13_conj() {
	e := pickParams()
	vp.Noise(true)
	sk := e.kg.GenSecretKey("alice")
	snap := vp.Snapshot(sk, e.p.CRS)
	ck := e.kg.GenConjugationKey(sk)
	vp.Unchanged("secret key and reference strings", snap, sk, e.p.CRS)
	vp.True("owner", ck.ID == "alice")
	s := e.coeffs(sk.Value, true)
	vp.Fresh("conjugation key error", e.errors("conjugation key", ck.Value, -2, s, e.aut(s, uint64(2*e.N-1), e.all()), false), e.all(), noiseBound)
}

// C13_swk: a switching key is P*s*g + e, also when the receiver has old contents; two calls use fresh noise.
func C13_swk() {
	e := pickParams()
	vp.Noise(true)
	sk := e.kg.GenSecretKey("alice")
	other := e.kg.GenSecretKey("alice")
	s, t := e.coeffs(sk.Value, true), e.coeffs(other.Value, true)
	k1, k2 := mkrlwe.NewSwitchingKey(e.p.Parameters), mkrlwe.NewSwitchingKey(e.p.Parameters)
	e.kg.GenSwitchingKey(other, k1)
	errs := e.errors("switching key", k1, -100, nil, t, false)
	e.kg.GenSwitchingKey(sk, k2)
	errs = append(errs, e.errors("switching key", k2, -100, nil, s, false)...)
	e.kg.GenSwitchingKey(sk, k1)
	errs = append(errs, e.errors("switching key", k1, -100, nil, s, false)...)
	vp.Fresh("switching key error", errs, e.all(), noiseBound)
}

// C13_gauss: GenGaussianError is one fresh small polynomial modulo every prime.
func C13_gauss() {
	e := pickParams()
	vp.Noise(true)
	a, b := e.p.RingQP().NewPoly(), e.p.RingQP().NewPoly()
	e.kg.GenGaussianError(a)
	e.kg.GenGaussianError(b)
	vp.Fresh("error", []*ring.Poly{e.coeffs(a, false), e.coeffs(b, false)}, e.all(), noiseBound)
}

// C13_secret: every secret key generator gives one small polynomial modulo all primes, with the requested distribution.
func C13_secret() {
	e := pickParams()
	kind := vp.Pick("generator", 6)
	var sk *mkrlwe.SecretKey
	hw := -1
	switch kind {
	case 0:
		vp.Noise(true)
		sk = e.kg.GenSecretKey("alice")
	case 1:
		vp.Noise(true)
		sk = e.kg.GenSecretKeyGaussian("alice")
	case 2:
		vp.Noise(true)
		sk = e.kg.GenSecretKeyWithDistrib(0.25, "alice")
	case 3:
		hw = 5
		sk = e.kg.GenSecretKeySparse(hw, "alice")
	case 4:
		hw = e.N
		sk = e.kg.GenSecretKeySparse(hw, "alice")
	case 5:
		hw = 0
		sk = e.kg.GenSecretKeyWithDistrib(1, "alice")
	}
	vp.True("owner", sk.ID == "alice")
	s := e.coeffs(sk.Value, true)
	if hw < 0 {
		b := uint64(1)
		if kind == 1 {
			b = noiseBound
		}
		vp.Fresh("secret key", []*ring.Poly{s}, e.all(), b)
		return
	}
	e.weight(s, hw)
}

// weight: s is ternary, the same modulo every prime, with exactly hw non-zero coefficients.
func (e *env) weight(s *ring.Poly, hw int) {
	n := 0
	for i := 0; i < e.N; i++ {
		v := s.Coeffs[0][i]
		for j, q := range e.all() {
			switch v {
			case 0, 1:
				vp.EqU("same small coefficient modulo every prime", s.Coeffs[j][i], v)
			case e.Q[0] - 1:
				vp.EqU("same small coefficient modulo every prime", s.Coeffs[j][i], q-1)
			default:
				vp.True("ternary coefficient", false)
			}
		}
		if v != 0 {
			n++
		}
	}
	vp.EqInt("number of non-zero coefficients", n, hw)
}

// C13_independent: keys of different parties are independent, and the generator has no memory between keys.
func C13_independent() {
	e := newEnv(4, 3, 2)
	vp.Noise(true)
	a, b := e.kg.GenSecretKey("alice"), e.kg.GenSecretKey("bob")
	vp.Fresh("secret keys", []*ring.Poly{e.coeffs(a.Value, true), e.coeffs(b.Value, true)}, e.all(), 1)
	vp.True("owners", a.ID == "alice" && b.ID == "bob")
	order := vp.Pick("order", 2)
	var errs []*ring.Poly
	for i := 0; i < 2; i++ {
		sk := []*mkrlwe.SecretKey{a, b}[(i+order)%2]
		s := e.coeffs(sk.Value, true)
		ck := e.kg.GenConjugationKey(sk)
		rk := e.kg.GenRotationKey(2, sk)
		errs = append(errs, e.errors("conjugation key", ck.Value, -2, s, e.aut(s, uint64(2*e.N-1), e.all()), false)...)
		errs = append(errs, e.errors("rotation key", rk.Value, 2, e.aut(s, e.rotGal(-2), e.all()), s, false)...)
	}
	vp.Fresh("errors", errs, e.all(), noiseBound)
}

// C13_sparsepair: a sparse key pair is a sparse secret key and its public key.
func C13_sparsepair() {
	e := pickParams()
	hw := []int{1, 7}[vp.Pick("weight", 2)]
	vp.Noise(true)
	sk, pk := e.kg.GenKeyPairSparse(hw, "dave")
	vp.True("owner", sk.ID == "dave" && pk.ID == "dave")
	mods := e.all()
	s := e.coeffs(sk.Value, true)
	e.weight(s, hw)
	a := e.coeffs(pk.Value[1], false)
	vp.Fresh("public key error", []*ring.Poly{e.addP(e.coeffs(pk.Value[0], false), e.mulP(a, s, mods), mods)}, mods, noiseBound)
}
