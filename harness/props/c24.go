package props

import (
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"

	"verifharness/vp"
)

// twoEnvs builds two parameter sets that differ in their primes, their number, the digits, or the degree.
func twoEnvs(kind int) []*env {
	e := &env{}
	logN := 4
	first := newEnv(4, 3, 2)
	switch kind {
	case 0: // other primes of the same sizes
		e.Q = []uint64{q55[1], q40[2], q40[3]}
		e.P = []uint64{p56[2], p56[3]}
	case 1: // the same primes in another order, two primes per digit
		e.Q = []uint64{q55[0], q40[1], q40[0]}
		e.P = []uint64{p56[1], p56[0], p56[2], p56[3]}
	case 2: // another ring
		logN = 5
		e.Q = []uint64{q55[0], q40[0], q40[1]}
		e.P = []uint64{p56[0], p56[1]}
	case 3: // fewer primes
		e.Q = []uint64{q55[0], q40[0]}
		e.P = []uint64{p56[0], p56[1]}
	case 4: // other primes, two per digit
		first = newEnv(4, 3, 4)
		e.Q = []uint64{q55[1], q40[2], q40[3]}
		e.P = []uint64{p56[4], p56[5], p56[0], p56[1]}
	}
	return []*env{first, e.finish(logN)}
}

// equip makes keys for a parameter set.
func (e *env) equip(mask int) *world {
	w := &world{env: e}
	w.set, w.rk = w.rotKeys(mask)
	w.rlk = mkrlwe.NewRelinearizationKeyKeySet(w.p.Parameters)
	w.ck = mkrlwe.NewConjugationKeySet()
	for _, id := range parties(mask) {
		sk := w.set.Value[id]
		w.rlk.AddRelinearizationKey(w.kg.GenRelinearizationKey(sk, w.kg.GenSecretKey(id)))
		w.ck.AddConjugationKey(w.kg.GenConjugationKey(sk))
	}
	return w
}

// C24_eval: two parameter sets in use at once: what one evaluator did has no influence on the other.
func C24_eval() {
	kind := vp.Pick("parameters", 5)
	k := 0
	if vp.Tier() == 0 && kind == 2 {
		k = []int{0, 1, 2, 3, 6, 7, 8, 9, 10, 11, 13}[vp.Pick("operation", 11)] // multiplication in the larger ring is left to the thorough check
	} else {
		k = vp.Pick("operation", nsteps)
	}
	e := twoEnvs(kind)
	w := []*world{e[0].equip(3), e[1].equip(3)}
	ev := []*mkckks.Evaluator{mkckks.NewEvaluator(w[0].p), mkckks.NewEvaluator(w[1].p)}
	first := vp.Pick("first", 2)
	for _, i := range []int{first, 1 - first, first} {
		l := w[i].maxL
		c := w[i].symCT("x"+itoa(i), 1, l, scale)
		y := w[i].symCT("y"+itoa(i), 2, l, scale)
		w[i].step("parameter set "+itoa(i), k, ev[i], c, y, 1, 2, true)
	}
}

// C24_keys: keys and reference strings of one parameter set are those of this set, whatever was generated for the other.
func C24_keys() {
	e := twoEnvs(vp.Pick("parameters", 5))
	first := vp.Pick("first", 2)
	for _, i := range []int{first, 1 - first} {
		e[i].p.AddCRS(3)
	}
	for x := range e[0].p.CRS {
		for r := range e[0].p.CRS[x].Value {
			vp.Disjoint("reference strings", e[0].p.CRS[x].Value[r], e[1].p.CRS)
		}
	}
	for _, i := range []int{first, 1 - first} {
		w := e[i]
		rows := w.p.Beta(w.maxL)
		for _, x := range append(crsIndices(w.logN), 3) {
			vp.True("reference string "+itoa(x), fullRow(w.p.CRS[x], rows, w.N, w.Q, w.P))
		}
	}
}

// C24_crypt: encryptors and decryptors of two parameter sets used in turn.
func C24_crypt() {
	e := twoEnvs(vp.Pick("parameters", 5))
	first := vp.Pick("first", 2)
	var enc []*mkckks.Encryptor
	var dec []*mkckks.Decryptor
	var sk []*mkrlwe.SecretKey
	var pk []*mkrlwe.PublicKey
	for i := range e {
		enc = append(enc, mkckks.NewEncryptor(e[i].p))
		dec = append(dec, mkckks.NewDecryptor(e[i].p))
		s, p := e[i].kg.GenKeyPair("alice")
		sk, pk = append(sk, s), append(pk, p)
	}
	for n, i := range []int{first, 1 - first, first} {
		msg := mkckks.NewMessage(e[i].p)
		copy(msg.Value, vp.Msg("m"+itoa(n), e[i].N/2))
		keep := append([]complex128{}, msg.Value...)
		ct := enc[i].EncryptMsgNew(msg, pk[i])
		set := mkrlwe.NewSecretKeySet()
		set.AddSecretKey(sk[i])
		out := dec[i].Decrypt(ct, set)
		vp.EqInt("slots", len(out.Value), e[i].N/2)
		vp.EqMsg("message", out.Value, keep, e[i].Q, scale, 24)
	}
}
