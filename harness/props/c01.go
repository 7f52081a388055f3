package props

import (
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"verifharness/vp"
)

// C01_poly: polynomial-level encryption at every combination of plaintext and ciphertext level and domain.
func C01_poly() {
	e := newEnv(4, 2, 2)
	pl, cl := vp.Pick("ptlevel", 2), vp.Pick("ctlevel", 2)
	ptNTT := vp.Pick("ptNTT", 2) == 1
	ctNTT := vp.Pick("ctNTT", 2) == 1
	extra := vp.Pick("extra", 3)
	vp.MapOrder(vp.Pick("order", 2))
	vp.Noise(true)
	set := mkrlwe.NewSecretKeySet()
	sk, pk := e.kg.GenKeyPair("bob")
	set.AddSecretKey(sk)
	mask := []int{2, 3, 7}[extra]
	for _, id := range parties(mask &^ 2) {
		set.AddSecretKey(e.kg.GenSecretKey(id))
	}
	pt := rlwe.NewPlaintext(e.p.Parameters.Parameters, pl)
	pt.Value.IsNTT = false
	vp.Residues("m", pt.Value, e.Q[:pl+1])
	m := pt.Value.CopyNew()
	if ptNTT {
		e.ringQ.NTTLvl(pl, pt.Value, pt.Value)
		pt.Value.IsNTT = true
	}
	var ct *mkrlwe.Ciphertext
	if ctNTT {
		ct = mkrlwe.NewCiphertextNTT(e.p.Parameters, ids(mask), cl)
	} else {
		ct = mkrlwe.NewCiphertext(e.p.Parameters, ids(mask), cl)
	}
	l := pl
	if cl < l {
		l = cl
	}
	snap := vp.Snapshot(pt, pk, sk)
	mkrlwe.NewEncryptor(e.p.Parameters).Encrypt(pt, pk, ct)
	vp.Unchanged("plaintext and keys", snap, pt, pk, sk)
	vp.EqInt("level", ct.Level(), l)
	vp.EqInt("parties", len(ct.Value), 1+len(parties(mask)))
	if ct.Level() != l {
		return
	}
	if ctNTT {
		for id, p := range ct.Value {
			if !p.IsNTT {
				vp.True("domain of "+id, false)
			}
			e.ringQ.InvNTTLvl(l, p, p)
			p.IsNTT = false
		}
	}
	vp.Near("decryption", e.dec(ct, set), m, e.Q[:l+1], nil, 10)
	for _, id := range parties(mask &^ 2) {
		vp.EqPoly("extra component "+id, ct.Value[id], newPoly(e.N, l+1), e.Q[:l+1])
	}
}

// C01_ptxt: EncryptPtxt at every plaintext level; scale and full decryption through the CKKS decryptor's polynomial entry point.
func C01_ptxt() {
	e := newEnv(4, 3, 2)
	pl, cl := vp.Pick("ptlevel", 3), vp.Pick("ctlevel", 3)
	sc := []float64{scale, 1 << 30}[vp.Pick("scale", 2)]
	vp.Noise(true)
	set := mkrlwe.NewSecretKeySet()
	sk, pk := e.kg.GenKeyPair("bob")
	set.AddSecretKey(sk)
	pt := ckks.NewPlaintext(e.ckks(), pl, sc)
	pt.Value.IsNTT = vp.Pick("ptNTT", 2) == 1
	vp.Residues("m", pt.Value, e.Q[:pl+1])
	m := pt.Value.CopyNew()
	if pt.Value.IsNTT {
		e.ringQ.InvNTTLvl(pl, m, m)
	}
	ct := mkckks.NewCiphertext(e.p, ids(2), cl, 12345)
	mkckks.NewEncryptor(e.p).EncryptPtxt(pt, pk, ct)
	l := pl
	if cl < l {
		l = cl
	}
	vp.EqF("scale", ct.Scale, sc)
	if !e.hasParties("ciphertext", ct.Ciphertext, 2, l) {
		return
	}
	out := rlwe.NewPlaintext(e.p.Parameters.Parameters, e.maxL)
	mkckks.NewDecryptor(e.p).Decryptor.Decrypt(ct.Ciphertext, set, out)
	vp.EqInt("decrypted level", out.Level(), l)
	if out.Level() != l {
		return
	}
	vp.Near("decryption", out.Value, m, e.Q[:l+1], nil, 10)
}

func (e *env) ckks() ckks.Parameters {
	cp, err := ckks.NewParameters(e.p.Parameters.Parameters, e.p.LogSlots(), e.p.Scale())
	if err != nil {
		panic(err)
	}
	return cp
}

// C01_msg: message-level entry points.
func C01_msg() {
	e := newEnv(4, 2, 2)
	how := vp.Pick("entry", 4)
	vp.MapOrder(vp.Pick("order", 2))
	vp.Noise(true)
	set := mkrlwe.NewSecretKeySet()
	sk, pk := e.kg.GenKeyPair("bob")
	set.AddSecretKey(sk)
	enc := mkckks.NewEncryptor(e.p)
	msg := mkckks.NewMessage(e.p)
	vp.EqInt("slots", msg.Slots(), e.N/2)
	copy(msg.Value, vp.Msg("msg", e.N/2))
	keep := append([]complex128{}, msg.Value...)
	var ct *mkckks.Ciphertext
	level := e.maxL
	mask := 2
	switch how {
	case 0:
		ct = enc.EncryptMsgNew(msg, pk)
	case 1:
		mask = 3
		set.AddSecretKey(e.kg.GenSecretKey("alice"))
		ct = enc.EncryptMsgNewExpand(msg, pk, ids(mask))
	case 2:
		level = 0
		ct = mkckks.NewCiphertext(e.p, ids(mask), level, 99)
		enc.EncryptMsg(msg, pk, ct)
	case 3:
		pt := enc.EncodeMsgNew(msg)
		vp.EqF("plaintext scale", pt.Scale, scale)
		vp.EqInt("plaintext level", pt.Level(), e.maxL)
		ct = mkckks.NewCiphertext(e.p, ids(mask), level, 99)
		enc.EncryptPtxt(pt, pk, ct)
	}
	vp.EqF("scale", ct.Scale, scale)
	if !e.hasParties("ciphertext", ct.Ciphertext, mask, level) {
		return
	}
	out := mkckks.NewDecryptor(e.p).Decrypt(ct, set)
	vp.EqMsg("message", out.Value, keep, e.Q[:level+1], scale, 10)
}

// C01_sparse: fewer slots than N/2.
func C01_sparse() {
	e := newEnv(4, 2, 2)
	cp, err := ckks.NewParametersFromLiteral(ckks.ParametersLiteral{LogN: 4, LogSlots: 2, Q: e.Q, P: e.P, Scale: scale, Sigma: rlwe.DefaultSigma})
	if err != nil {
		panic(err)
	}
	e.p = mkckks.NewParameters(cp)
	e.ringQ, e.ringP = e.p.RingQ(), e.p.RingP()
	e.kg = mkckks.NewKeyGenerator(e.p)
	vp.Noise(true)
	set := mkrlwe.NewSecretKeySet()
	sk, pk := e.kg.GenKeyPair("bob")
	set.AddSecretKey(sk)
	enc := mkckks.NewEncryptor(e.p)
	msg := mkckks.NewMessage(e.p)
	vp.EqInt("slots", msg.Slots(), 4)
	copy(msg.Value, vp.Msg("msg", 4))
	keep := append([]complex128{}, msg.Value...)
	ct := enc.EncryptMsgNew(msg, pk)
	out := mkckks.NewDecryptor(e.p).Decrypt(ct, set)
	vp.EqMsg("message", out.Value, keep, e.Q, scale, 10)
}

var _ = ring.NewPoly
