package props

import (
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"verifharness/vp"
)

// constPK is a public key whose two polynomials are the given constants, so that an encryption under it shows its randomness.
func (e *env) constPK(id string, c0, c1 uint64) *mkrlwe.PublicKey {
	pk := mkrlwe.NewPublicKey(e.p.Parameters, id)
	for k, c := range []uint64{c0, c1} {
		for j := range e.Q {
			for i := range pk.Value[k].Q.Coeffs[j] {
				pk.Value[k].Q.Coeffs[j][i] = c % e.Q[j]
			}
		}
		for j := range e.P {
			for i := range pk.Value[k].P.Coeffs[j] {
				pk.Value[k].P.Coeffs[j][i] = c % e.P[j]
			}
		}
	}
	return pk
}

// masks encrypts a symbolic plaintext and returns what the two components add to it.
func (e *env) masks(name string, enc *mkrlwe.Encryptor, pk *mkrlwe.PublicKey, pl, cl int, ptNTT, ctNTT bool) (r0, r1 *ring.Poly, mods []uint64) {
	l := pl
	if cl < l {
		l = cl
	}
	mods = e.Q[:l+1]
	pt := rlwe.NewPlaintext(e.p.Parameters.Parameters, pl)
	pt.Value.IsNTT = false
	vp.Residues(name, pt.Value, e.Q[:pl+1])
	m := pt.Value.CopyNew()
	if ptNTT {
		e.ringQ.NTTLvl(pl, pt.Value, pt.Value)
		pt.Value.IsNTT = true
	}
	ct := mkrlwe.NewCiphertext(e.p.Parameters, ids(2), cl)
	if ctNTT {
		ct = mkrlwe.NewCiphertextNTT(e.p.Parameters, ids(2), cl)
	}
	enc.Encrypt(pt, pk, ct)
	if ctNTT {
		for _, p := range ct.Value {
			e.ringQ.InvNTTLvl(l, p, p)
		}
	}
	return e.subP(ct.Value["0"], m, mods), ct.Value["bob"], mods
}

// C21_errors: each component of each encryption carries its own fresh small error.
func C21_errors() {
	e := newEnv(4, 2, 2)
	vp.Noise(true)
	enc := mkrlwe.NewEncryptor(e.p.Parameters)
	pk := e.constPK("bob", 0, 0)
	ptNTT, ctNTT := vp.Pick("ptNTT", 2) == 1, vp.Pick("ctNTT", 2) == 1
	pl, cl := vp.Pick("ptlevel", 2), vp.Pick("ctlevel", 2)
	a0, a1, mods := e.masks("m", enc, pk, pl, cl, ptNTT, ctNTT)
	b0, b1, _ := e.masks("n", enc, pk, pl, cl, ptNTT, ctNTT)
	vp.Fresh("errors", []*ring.Poly{a0, a1, b0, b1}, mods, noiseBound)
}

// C21_mask: both components carry the public key times one ternary polynomial, which is drawn for this encryption.
func C21_mask() {
	e := newEnv(4, 2, 2)
	vp.Noise(true)
	enc := mkrlwe.NewEncryptor(e.p.Parameters)
	ptNTT, ctNTT := vp.Pick("ptNTT", 2) == 1, vp.Pick("ctNTT", 2) == 1
	pl, cl := vp.Pick("ptlevel", 2), vp.Pick("ctlevel", 2)
	const k0, k1 = 1000, 7000
	pk := e.constPK("bob", k0, k1)
	a0, a1, mods := e.masks("m", enc, pk, pl, cl, ptNTT, ctNTT)
	b0, b1, _ := e.masks("n", enc, pk, pl, cl, ptNTT, ctNTT)
	vp.Fresh("first components", []*ring.Poly{a0, b0}, mods, k0+noiseBound)
	vp.Fresh("second components", []*ring.Poly{a1, b1}, mods, k1+noiseBound)
	for _, p := range []*ring.Poly{a0, b0} {
		vp.Spread("first component is masked", p, mods, k0/2)
	}
	for _, p := range []*ring.Poly{a1, b1} {
		vp.Spread("second component is masked", p, mods, k1/2)
	}
	vp.Spread("the masks of two encryptions differ", e.subP(a0, b0, mods), mods, k0/2)
	vp.Spread("the masks of two encryptions differ (second components)", e.subP(a1, b1, mods), mods, k1/2)
	// k1*(k0*u + e0) - k0*(k1*u + e1): the mask is the same in both components
	d := newPoly(e.N, len(mods))
	x := newPoly(e.N, len(mods))
	e.ringQ.MulScalarLvl(len(mods)-1, a0, k1, d)
	e.ringQ.MulScalarLvl(len(mods)-1, a1, k0, x)
	vp.Fresh("difference of the components", []*ring.Poly{e.subP(d, x, mods)}, mods, (k0+k1)*noiseBound)
}

// C21_msg: the message-level entry points randomise like the polynomial-level one.
func C21_msg() {
	e := newEnv(4, 2, 2)
	vp.Noise(true)
	enc := mkckks.NewEncryptor(e.p)
	const k = 1000
	pk := e.constPK("bob", 0, k)
	msg := mkckks.NewMessage(e.p)
	copy(msg.Value, vp.Msg("msg", e.N/2))
	pt := enc.EncodeMsgNew(msg)
	m := pt.Value.CopyNew()
	if pt.Value.IsNTT {
		e.ringQ.InvNTTLvl(e.maxL, m, m)
	}
	var errs, masks []*ring.Poly
	for i := 0; i < 2; i++ {
		var ct *mkckks.Ciphertext
		l := e.maxL
		switch vp.Pick("entry", 4) {
		case 0:
			ct = enc.EncryptMsgNew(msg, pk)
		case 1:
			ct = enc.EncryptMsgNewExpand(msg, pk, ids(3))
		case 2:
			l = 0
			ct = mkckks.NewCiphertext(e.p, ids(2), l, 99)
			enc.EncryptMsg(msg, pk, ct)
		case 3:
			ct = mkckks.NewCiphertext(e.p, ids(2), l, 99)
			enc.EncryptPtxt(pt, pk, ct)
		}
		mods := e.Q[:1]
		errs = append(errs, e.subP(ct.Value["0"], m, mods))
		x := newPoly(e.N, 1)
		copy(x.Coeffs[0], ct.Value["bob"].Coeffs[0])
		masks = append(masks, x)
	}
	vp.Fresh("errors", errs, e.Q[:1], noiseBound)
	vp.Fresh("masks", masks, e.Q[:1], k+noiseBound)
	vp.Spread("the masks of two encryptions differ", e.subP(masks[0], masks[1], e.Q[:1]), e.Q[:1], k/2)
	for _, p := range masks {
		vp.Spread("second component is masked", p, e.Q[:1], k/2)
	}
}
