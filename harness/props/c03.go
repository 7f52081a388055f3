package props

import (
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/rlwe"
	"verifharness/vp"
)

// msgCT is an (exact) encryption under arbitrary components of an arbitrary message; it returns the message.
func (e *env) msgCT(name string, mask, level int, sc float64, set *mkrlwe.SecretKeySet) (*mkckks.Ciphertext, []complex128) {
	ct := e.symCT(name, mask, level, sc)
	msg := vp.Msg(name+".m", e.N/2)
	keep := append([]complex128{}, msg...)
	c0 := e.encode(msg, sc)
	ct.Value["0"] = newPoly(e.N, level+1)
	neg := e.dec(ct.Ciphertext, set)
	ct.Value["0"] = e.subP(c0, neg, e.Q[:level+1])
	return ct, keep
}

const bigScale = float64(1<<62) * 64 // 2^68: a message at this scale needs two primes

// C03_dec: a decryptor used on a sequence of ciphertexts of different levels, scales and parties.
func C03_dec() {
	e := newEnv(4, 3, 2)
	set := e.keys(3)
	dec := mkckks.NewDecryptor(e.p)
	steps := 2
	if vp.Tier() > 0 {
		steps = 3
	}
	for i := 0; i < steps; i++ {
		level := vp.Pick("level", 3)
		mask := []int{1, 3}[vp.Pick("parties", 2)]
		sc := scale
		if level > 0 && vp.Pick("large scale", 2) == 1 {
			sc = bigScale
		}
		ct, want := e.msgCT("c"+itoa(i), mask, level, sc, set)
		out := dec.Decrypt(ct, set)
		vp.EqMsg("message "+itoa(i), out.Value, want, e.Q[:level+1], sc, 10)
	}
}

// C03_alias: the message returned earlier is not changed by later decryptions.
func C03_alias() {
	e := newEnv(4, 2, 2)
	set := e.keys(3)
	dec := mkckks.NewDecryptor(e.p)
	ct1, want1 := e.msgCT("c1", 1, 1, scale, set)
	ct2, _ := e.msgCT("c2", 3, vp.Pick("level", 2), scale, set)
	out1 := dec.Decrypt(ct1, set)
	vp.True("decryption without the key is refused", vp.Panics(func() { dec.Decrypt(ct2, mkrlwe.NewSecretKeySet()) }))
	dec.Decrypt(ct2, set)
	vp.EqMsg("first message", out1.Value, want1, e.Q, scale, 10)
	out := dec.Decrypt(ct1, set)
	vp.EqMsg("first message again", out.Value, want1, e.Q, scale, 10)
}

// C03_polydec: the polynomial-level decryptor into plaintexts of different levels.
func C03_polydec() {
	e := newEnv(4, 3, 2)
	set := e.keys(3)
	dec := mkrlwe.NewDecryptor(e.p.Parameters)
	for i := 0; i < 2; i++ {
		level := vp.Pick("level", 3)
		pl := vp.Pick("plaintext level", 3)
		ct := e.symCT("c"+itoa(i), 1+2*i, level, scale)
		want := e.dec(ct.Ciphertext, set)
		pt := rlwe.NewPlaintext(e.p.Parameters.Parameters, pl)
		vp.Residues("old"+itoa(i), pt.Value, e.Q[:pl+1]) // what an earlier use left in the receiver
		dec.Decrypt(ct.Ciphertext, set, pt)
		l := level
		if pl < l {
			l = pl
		}
		vp.EqInt("plaintext level", pt.Level(), l)
		vp.EqPoly("value", pt.Value, want, e.Q[:l+1])
	}
}

// C03_enc: an encryptor used on a sequence of messages and plaintexts.
func C03_enc() {
	e := newEnv(4, 2, 2)
	vp.Noise(true)
	set := mkrlwe.NewSecretKeySet()
	var pks []*mkrlwe.PublicKey
	for _, id := range names[:2] {
		sk, pk := e.kg.GenKeyPair(id)
		set.AddSecretKey(sk)
		pks = append(pks, pk)
	}
	enc := mkckks.NewEncryptor(e.p)
	dec := mkckks.NewDecryptor(e.p)
	type rec struct {
		ct    *mkckks.Ciphertext
		msg   []complex128
		level int
		sc    float64
	}
	var all []rec
	for i := 0; i < 2; i++ {
		who := vp.Pick("who", 2)
		pk := pks[who]
		msg := mkckks.NewMessage(e.p)
		copy(msg.Value, vp.Msg("m"+itoa(i), e.N/2))
		keep := append([]complex128{}, msg.Value...)
		level, sc := e.maxL, scale
		var ct *mkckks.Ciphertext
		switch vp.Pick("entry", 5) {
		case 0:
			ct = enc.EncryptMsgNew(msg, pk)
		case 1:
			level = 0
			ct = mkckks.NewCiphertext(e.p, ids(1<<uint(who)), 0, 7)
			enc.EncryptMsg(msg, pk, ct)
		case 2:
			ct = enc.EncryptMsgNewExpand(msg, pk, ids(3))
		case 3:
			sc = bigScale
			pt := ckks.NewPlaintext(e.ckks(), e.maxL, sc)
			ckks.NewEncoder(e.ckks()).Encode(pt, msg.Value, e.p.LogSlots())
			ct = mkckks.NewCiphertext(e.p, ids(1<<uint(who)), e.maxL, 7)
			enc.EncryptPtxt(pt, pk, ct)
		case 4:
			pt := ckks.NewPlaintext(e.ckks(), 0, sc)
			level = 0
			ckks.NewEncoder(e.ckks()).Encode(pt, msg.Value, e.p.LogSlots())
			ct = mkckks.NewCiphertext(e.p, ids(1<<uint(who)), e.maxL, 7)
			enc.EncryptPtxt(pt, pk, ct)
		}
		all = append(all, rec{ct, keep, level, sc})
	}
	for i, r := range all {
		vp.EqF("scale "+itoa(i), r.ct.Scale, r.sc)
		vp.EqInt("level "+itoa(i), r.ct.Level(), r.level)
		out := mkckks.NewDecryptor(e.p).Decrypt(r.ct, set)
		vp.EqMsg("message "+itoa(i), out.Value, r.msg, e.Q[:r.level+1], r.sc, 10)
	}
	vp.Disjoint("the two ciphertexts", all[0].ct, all[1].ct)
	_ = dec
}

// C03_fresh: encrypting the same message twice uses fresh randomness in both components.
func C03_fresh() {
	e := newEnv(4, 2, 2)
	vp.Noise(true)
	_, pk := e.kg.GenKeyPair("bob")
	enc := mkckks.NewEncryptor(e.p)
	pt := rlwe.NewPlaintext(e.p.Parameters.Parameters, vp.Pick("level", 2))
	pt.Value.IsNTT = vp.Pick("ntt", 2) == 1
	vp.Residues("m", pt.Value, e.Q[:pt.Level()+1])
	a := mkrlwe.NewCiphertext(e.p.Parameters, ids(2), 1)
	b := mkrlwe.NewCiphertext(e.p.Parameters, ids(2), 1)
	enc.Encryptor.Encrypt(pt, pk, a)
	enc.Encryptor.Encrypt(pt, pk, b)
	mods := e.Q[:pt.Level()+1]
	vp.Differ("c0 of two encryptions", a.Value["0"], b.Value["0"], mods)
	vp.Differ("c_id of two encryptions", a.Value["bob"], b.Value["bob"], mods)
}

// C03_receiver: an encryption into a receiver that still holds an earlier ciphertext's contents.
func C03_receiver() {
	e := newEnv(4, 2, 2)
	vp.Noise(true)
	set := mkrlwe.NewSecretKeySet()
	sk, pk := e.kg.GenKeyPair("bob")
	set.AddSecretKey(sk)
	enc := mkckks.NewEncryptor(e.p)
	l := vp.Pick("level", 2)
	ct := e.symCT("old", 2, l, 7)
	if vp.Pick("entry", 2) == 0 {
		msg := mkckks.NewMessage(e.p)
		copy(msg.Value, vp.Msg("m", e.N/2))
		keep := append([]complex128{}, msg.Value...)
		enc.EncryptMsg(msg, pk, ct)
		vp.EqF("scale", ct.Scale, scale)
		if !e.hasParties("ciphertext", ct.Ciphertext, 2, l) {
			return
		}
		vp.EqMsg("message", mkckks.NewDecryptor(e.p).Decrypt(ct, set).Value, keep, e.Q[:l+1], scale, 10)
		return
	}
	ntt := vp.Pick("ctNTT", 2) == 1
	for _, p := range ct.Value {
		p.IsNTT = ntt
	}
	pt := rlwe.NewPlaintext(e.p.Parameters.Parameters, l)
	pt.Value.IsNTT = false
	vp.Residues("m", pt.Value, e.Q[:l+1])
	m := pt.Value.CopyNew()
	mkrlwe.NewEncryptor(e.p.Parameters).Encrypt(pt, pk, ct.Ciphertext)
	if ntt {
		for _, p := range ct.Value {
			e.ringQ.InvNTTLvl(l, p, p)
			p.IsNTT = false
		}
	}
	vp.Near("decryption", e.dec(ct.Ciphertext, set), m, e.Q[:l+1], nil, 10)
}

// C03_long: one encryptor and one decryptor through a longer sequence; every ciphertext is decrypted at once and again at the end.
func C03_long() {
	e := newEnv(4, 3, 2)
	vp.Noise(true)
	set := mkrlwe.NewSecretKeySet()
	var pks []*mkrlwe.PublicKey
	for _, id := range names[:3] {
		sk, pk := e.kg.GenKeyPair(id)
		set.AddSecretKey(sk)
		pks = append(pks, pk)
	}
	enc, dec := mkckks.NewEncryptor(e.p), mkckks.NewDecryptor(e.p)
	start := vp.Pick("start", 6)
	var cts []*mkckks.Ciphertext
	var msgs [][]complex128
	for i := 0; i < 6; i++ {
		k := (start + i) % 6
		msg := mkckks.NewMessage(e.p)
		copy(msg.Value, vp.Msg("m"+itoa(i), e.N/2))
		msgs = append(msgs, append([]complex128{}, msg.Value...))
		who := i % 3
		level, sc := e.maxL, scale
		var ct *mkckks.Ciphertext
		switch k {
		case 0, 3:
			ct = enc.EncryptMsgNew(msg, pks[who])
		case 1:
			level = 0
			ct = mkckks.NewCiphertext(e.p, ids(1<<uint(who)), 0, 7)
			enc.EncryptMsg(msg, pks[who], ct)
		case 2:
			ct = enc.EncryptMsgNewExpand(msg, pks[who], ids(7))
		case 4:
			sc = bigScale
			pt := ckks.NewPlaintext(e.ckks(), e.maxL, sc)
			ckks.NewEncoder(e.ckks()).Encode(pt, msg.Value, e.p.LogSlots())
			ct = mkckks.NewCiphertext(e.p, ids(1<<uint(who)), e.maxL, 7)
			enc.EncryptPtxt(pt, pks[who], ct)
		case 5:
			level = 1
			ct = mkckks.NewCiphertext(e.p, ids(1<<uint(who)), 1, 7)
			enc.EncryptMsg(msg, pks[who], ct)
			vp.Panics(func() { dec.Decrypt(ct, mkrlwe.NewSecretKeySet()) })
		}
		vp.EqF("scale", ct.Scale, sc)
		vp.EqInt("level", ct.Level(), level)
		cts = append(cts, ct)
		vp.EqMsg("message "+itoa(i), dec.Decrypt(ct, set).Value, msgs[i], e.Q[:level+1], sc, 10)
	}
	for i, ct := range cts {
		vp.EqMsg("message "+itoa(i)+" at the end", dec.Decrypt(ct, set).Value, msgs[i], e.Q[:ct.Level()+1], ct.Scale, 10)
	}
}
