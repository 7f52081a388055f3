package props

import (
	"mk-lr/mkckks"

	"github.com/ldsec/lattigo/v2/rlwe"
	"verifharness/vp"
)

// C02_decrypt: full decryption is c0 + sum c_i s_i, for symbolic secret keys and ciphertext.
func C02_decrypt() {
	e := newEnv(4, 2, 2)
	mask := vp.Pick("parties", 8)
	level := vp.Pick("level", 2)
	vp.MapOrder(vp.Pick("order", 3))
	vp.Noise(true)
	set := e.keys(7)
	ct := e.symCT("c", mask, level, scale)
	want := e.dec(ct.Ciphertext, set)
	snap := vp.Snapshot(ct, set)
	dec := mkckks.NewDecryptor(e.p)
	pt := rlwe.NewPlaintext(e.p.Parameters.Parameters, e.maxL)
	pt.Value.IsNTT = false
	dec.Decryptor.Decrypt(ct.Ciphertext, set, pt)
	vp.EqInt("level", pt.Level(), level)
	vp.EqPoly("decrypt", pt.Value, want, e.Q[:level+1])
	vp.Unchanged("ciphertext and keys", snap, ct, set)
}

// C02_shared: one key set serves ciphertexts of different parties one after the other.
func C02_shared() {
	e := newEnv(4, 2, 2)
	m1, m2 := 1+vp.Pick("first", 7), 1+vp.Pick("second", 7)
	vp.Noise(true)
	set := e.keys(7)
	dec := mkckks.NewDecryptor(e.p)
	for i, mask := range []int{m1, m2} {
		ct := e.symCT("c"+itoa(i), mask, 1, scale)
		want := e.dec(ct.Ciphertext, set)
		pt := rlwe.NewPlaintext(e.p.Parameters.Parameters, e.maxL)
		dec.Decryptor.Decrypt(ct.Ciphertext, set, pt)
		vp.EqPoly("decrypt "+itoa(i), pt.Value, want, e.Q[:2])
	}
}

var perms3 = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

// C02_partial: partial decryptions in any order remove one party each and add up to the full decryption.
func C02_partial() {
	e := newEnv(4, 2, 2)
	mask := 1 + vp.Pick("parties", 7)
	level := vp.Pick("level", 2)
	perm := perms3[vp.Pick("order of keys", 6)]
	ntt := vp.Pick("ntt", 2) == 1
	vp.Noise(true)
	set := e.keys(7)
	ct := e.symCT("c", mask, level, scale)
	want := e.dec(ct.Ciphertext, set)
	snap := vp.Snapshot(set)
	if ntt {
		for _, p := range ct.Value {
			e.ringQ.NTTLvl(level, p, p)
			p.IsNTT = true
		}
	}
	dec := mkckks.NewDecryptor(e.p)
	left := mask
	for _, i := range perm {
		if mask>>uint(i)&1 == 0 {
			continue
		}
		dec.PartialDecrypt(ct, set.Value[names[i]])
		left &^= 1 << uint(i)
		if !e.hasParties("after partial decryption", ct.Ciphertext, left, level) {
			return
		}
		if left != 0 && !ntt {
			vp.EqPoly("remaining decryption", e.dec(ct.Ciphertext, set), want, e.Q[:level+1])
		}
	}
	c0 := ct.Value["0"]
	if ntt {
		e.ringQ.InvNTTLvl(level, c0, c0)
	}
	vp.EqPoly("final value", c0, want, e.Q[:level+1])
	vp.EqF("scale", ct.Scale, scale)
	vp.Unchanged("keys", snap, set)
}

// C02_missing: without the key of an involved party every full decryption refuses.
func C02_missing() {
	e := newEnv(4, 2, 2)
	mask := 1 + vp.Pick("parties", 7)
	have := vp.Pick("keys", 8)
	vp.MapOrder(vp.Pick("order", 3))
	set := e.keys(have)
	ct := e.symCT("c", mask, 1, scale)
	missing := mask&^have != 0
	dec := mkckks.NewDecryptor(e.p)
	pt := rlwe.NewPlaintext(e.p.Parameters.Parameters, e.maxL)
	refused := vp.Panics(func() { dec.Decryptor.Decrypt(ct.Ciphertext, set, pt) })
	vp.True("polynomial decryption refuses exactly when a key is missing", refused == missing)
	if missing {
		refused = vp.Panics(func() { dec.Decrypt(ct, set) })
		vp.True("message decryption refuses when a key is missing", refused)
	}
}

// C02_msg: the message entry point decodes c0 + sum c_i s_i at the ciphertext's scale.
func C02_msg() {
	e := newEnv(4, 2, 2)
	mask := vp.Pick("parties", 8)
	level := vp.Pick("level", 2)
	vp.MapOrder(vp.Pick("order", 2))
	sc := []float64{scale, 1 << 36}[vp.Pick("scale", 2)]
	set := e.keys(7)
	// c0 = m - sum c_i s_i for a small message m and arbitrary c_i
	ct := e.symCT("c", mask, level, sc)
	msg := mkckks.NewMessage(e.p)
	copy(msg.Value, vp.Msg("msg", e.N/2))
	keep := append([]complex128{}, msg.Value...)
	c0 := e.encode(msg.Value, sc)
	z := newPoly(e.N, level+1)
	ct.Value["0"] = z
	neg := e.dec(ct.Ciphertext, set)
	ct.Value["0"] = e.subP(c0, neg, e.Q[:level+1])
	snap := vp.Snapshot(ct, set)
	out := mkckks.NewDecryptor(e.p).Decrypt(ct, set)
	vp.Unchanged("ciphertext and keys", snap, ct, set)
	vp.EqMsg("message", out.Value, keep, e.Q[:level+1], sc, 10)
}
