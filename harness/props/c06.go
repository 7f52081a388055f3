package props

import (
	"mk-lr/mkckks"

	"github.com/ldsec/lattigo/v2/ckks"
	"verifharness/vp"
)

// ptxt makes an arbitrary coefficient-domain plaintext.
func (e *env) ptxt(name string, level int, sc float64) *ckks.Plaintext {
	pt := ckks.NewPlaintext(e.ckks(), level, sc)
	pt.Value.IsNTT = false
	vp.Residues(name, pt.Value, e.Q[:level+1])
	return pt
}

// C06_mul: arbitrary ciphertext times arbitrary plaintext.
func C06_mul() {
	e := newEnv(4, 3, 2)
	mask := vp.Pick("parties", 8)
	l := vp.Pick("level", 3)
	pl := vp.Pick("plaintext level", 3)
	if pl < l {
		pl = l
	}
	sc := []float64{scale, 1 << 20, 1 << 60}[vp.Pick("scale", 3)]
	if l == 0 {
		sc = 1 << 14
	}
	vp.MapOrder(vp.Pick("order", 1+vp.Tier()))
	vp.Noise(true)
	mulPtxtCase(e, mask, l, pl, sc)
}

// mulPtxtCase: arbitrary ciphertext of the parties in mask at level l times an arbitrary plaintext at level pl, exact, componentwise.
func mulPtxtCase(e *env, mask, l, pl int, sc float64) {
	ct := e.symCT("c", mask, l, scale)
	pt := e.ptxt("m", pl, sc)
	mods := e.Q[:l+1]
	snap := vp.Snapshot(ct, pt)
	out := mkckks.NewEvaluator(e.p).MulPtxtNew(ct, pt)
	vp.Unchanged("ciphertext and plaintext", snap, ct, pt)
	nd := e.drops(scale*sc, l, e.p.Scale())
	if !e.hasParties("product", out.Ciphertext, mask, l-nd) {
		return
	}
	want := scale * sc
	for i := 0; i < nd; i++ {
		want /= float64(e.Q[l-i])
	}
	vp.EqF("scale", out.Scale, want)
	for _, id := range append([]string{"0"}, parties(mask)...) {
		prod := e.mulP(ct.Value[id], pt.Value, mods)
		if nd == 0 {
			vp.EqPoly("component "+id, out.Value[id], prod, mods)
		} else {
			vp.NearDiv("component "+id, out.Value[id], e.Q[:l-nd+1], e.Q[l-nd+1:l+1], prod, 1)
		}
	}
}

// C06_msg: the encoded message times the decryption.
func C06_msg() {
	e := newEnv(4, 3, 2)
	mask := 1 + vp.Pick("parties", 3)
	l := 1 + vp.Pick("level", 2)
	set := e.keys(7)
	ct := e.symCT("c", mask, l, scale)
	d := e.dec(ct.Ciphertext, set)
	msg := mkckks.NewMessage(e.p)
	copy(msg.Value, vp.Msg("m", e.N/2))
	pt := mkckks.NewEncryptor(e.p).EncodeMsgNew(msg)
	m := e.encode(msg.Value, scale)
	prod := e.mulP(d, m, e.Q[:l+1])
	out := mkckks.NewEvaluator(e.p).MulPtxtNew(ct, pt)
	e.checkProduct("product", out, set, mask, prod, l, scale*scale, 0)
}

// C06_twice: one plaintext used with ciphertexts of different levels, one after the other.
func C06_twice() {
	e := newEnv(4, 3, 2)
	ev := mkckks.NewEvaluator(e.p)
	pt := e.ptxt("m", 2, 1<<10)
	for i := 0; i < 2; i++ {
		l := vp.Pick("level", 3)
		ct := e.symCT("c"+itoa(i), 1+i, l, 1<<10)
		out := ev.MulPtxtNew(ct, pt)
		if !e.hasParties("product", out.Ciphertext, 1+i, l) {
			return
		}
		for _, id := range append([]string{"0"}, parties(1+i)...) {
			vp.EqPoly("component "+id, out.Value[id], e.mulP(ct.Value[id], pt.Value, e.Q[:l+1]), e.Q[:l+1])
		}
	}
}
