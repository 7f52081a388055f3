S=SEEDS=[]
def s(id,prop,edits,needs,breaks,demo,**k):
    S.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,**k))
EV="mkckks/evaluator.go"
s("add-unscaled-carry","C04",[(EV,"ring.CopyValuesLvl(level, tmp1.Value[id], ctOut.Value[id])","ring.CopyValuesLvl(level, c1.Value[id], ctOut.Value[id])")],
  "an addition or subtraction whose second operand has a party the first lacks and a scale smaller by a factor of at least two",
  "the carried-over component is not multiplied by the scale ratio while c0 is, so the sum decrypts to garbage",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40, 40}, []int{56, 56}, "a", "b")
	x, y := c.encrypt("a", zzPat), c.encrypt("b", zzPat)
	c.eval.MultByConst(x, 8, x)
	x.Scale *= 8
	c.check(t, "sum", c.eval.AddNew(x, y), func(i int) complex128 { return 2 * zzPat(i) })
	c.check(t, "sum the other way", c.eval.AddNew(y, x), func(i int) complex128 { return 2 * zzPat(i) })
}
''')
s("mul-stale-hoist-cache","C12",[(EV,'''		for id := range idset1.Value {
			eval.ksw.Decompose(op1.Level(), op1.Value[id], rlkSet.HoistPool[1].Value[id])
		}

		return eval.MulRelinHoistedNew(op0, op1, rlkSet.HoistPool[0], rlkSet.HoistPool[1], rlkSet)''','''		// op1 is typically a model that multiplies many ciphertexts: decompose it only once
		if eval.lastOp1 != op1 || eval.lastSet != rlkSet {
			for id := range idset1.Value {
				eval.ksw.Decompose(op1.Level(), op1.Value[id], rlkSet.HoistPool[1].Value[id])
			}
			eval.lastOp1, eval.lastSet = op1, rlkSet
		}

		return eval.MulRelinHoistedNew(op0, op1, rlkSet.HoistPool[0], rlkSet.HoistPool[1], rlkSet)'''),
  (EV,"	polyQPool *ring.Poly\n}","	polyQPool *ring.Poly\n	lastOp1   *Ciphertext\n	lastSet   *mkrlwe.RelinearizationKeySet\n}")],
  "two multiplications by the same ciphertext object whose contents were changed in between (in-place rescale, multiplication by a constant)",
  "the second product uses the decomposition of the old contents",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40, 40}, []int{56, 56}, "a", "b")
	x, y := c.encrypt("a", zzPat), c.encrypt("b", zzPat)
	c.check(t, "first product", c.eval.MulRelinNew(x, y, c.rlk), func(i int) complex128 { return zzPat(i) * zzPat(i) })
	c.eval.MultByConst(y, 3, y)
	c.check(t, "second product", c.eval.MulRelinNew(x, y, c.rlk), func(i int) complex128 { return 3 * zzPat(i) * zzPat(i) })
}
''')
s("rotate-clobbers-input","C12",[(EV,"	ctTmp := ct0.CopyNew()\n	for k := 1;","	ctTmp := ct0\n	for k := 1;")],
  "a rotation by an amount without a reference string (not a power of two) and a later use of the operand",
  "RotateNew overwrites its operand with the rotated ciphertext",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40}, []int{56, 56}, "a")
	x := c.encrypt("a", zzPat)
	r := c.eval.RotateNew(x, 3, c.rtk)
	c.check(t, "rotated", r, func(i int) complex128 { return zzPat((i + 3) % 32) })
	c.check(t, "operand", x, zzPat)
}
''')
s("rotate-slotcount","C07",[(EV,'''	// normalize rotidx
	for rotidx >= eval.params.N()/2 {
		rotidx -= eval.params.N() / 2
	}

	for rotidx < 0 {
		rotidx += eval.params.N() / 2
	}

	if rotidx == 0 {
		ctOut.Ciphertext.Copy(ct0.Ciphertext)
		return
	}

	_, in := eval.params.CRS[rotidx]

	if in {
		eval.ksw.Rotate(''','''	// normalize rotidx
	for rotidx > eval.params.N() {
		rotidx -= eval.params.N() / 2
	}

	for rotidx < 0 {
		rotidx += eval.params.N() / 2
	}

	if rotidx == 0 || rotidx == eval.params.N()/2 {
		ctOut.Ciphertext.Copy(ct0.Ciphertext)
		return
	}

	rotidx &= eval.params.N()/2 - 1
	_, in := eval.params.CRS[rotidx]

	if in {
		eval.ksw.Rotate(''')],
  "a rotation by exactly N (twice the slot count)","the output is the zero ciphertext instead of the input",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40}, []int{56, 56}, "a")
	x := c.encrypt("a", zzPat)
	for _, k := range []int{0, 1, 32, 33, 64, 96, -32, -64, 65} {
		c.check(t, "rotated", c.eval.RotateNew(x, k, c.rtk), func(i int) complex128 { return zzPat(((i+k)%32 + 32) % 32) })
	}
}
''')
s("rescale-scale-of-output-level","C10",[(EV,"ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))","ctOut.Scale /= (float64(ringQ.Modulus[ctOut.Level()-nbRescales]))")],
  "rescaling into a ciphertext of a higher level than the operand","the residues are divided by one prime and the recorded scale by another",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40, 45}, []int{56, 56}, "a")
	q := c.p.RingQ().Modulus
	ct := NewCiphertext(c.p, mkrlwe.NewIDSet(), 1, math.Exp2(80))
	out := NewCiphertext(c.p, mkrlwe.NewIDSet(), 2, 1)
	if err := c.eval.Rescale(ct, math.Exp2(40), out); err != nil || out.Level() != 0 {
		t.Fatal("rescale", err)
	}
	if out.Scale != math.Exp2(80)/float64(q[1]) {
		t.Fatalf("scale %v, expected %v", out.Scale, math.Exp2(80)/float64(q[1]))
	}
}
''')
s("rlk-shared-noise","C13",[("mkrlwe/keygen.go",'''	for i := 0; i < beta; i++ {
		ringQP.MulCoeffsMontgomeryLvl(levelQ, levelP, a.Value[i], sk.Value, b.Value[i])
		ringQP.InvMFormLvl(levelQ, levelP, b.Value[i], b.Value[i])
		keygen.GenGaussianError(tmp)
''','''	keygen.GenGaussianError(tmp)
	for i := 0; i < beta; i++ {
		ringQP.MulCoeffsMontgomeryLvl(levelQ, levelP, a.Value[i], sk.Value, b.Value[i])
		ringQP.InvMFormLvl(levelQ, levelP, b.Value[i], b.Value[i])
''')],"relinearization keys of at least two rows","all rows of b share one error polynomial: differences of rows are noise-free equations in the secret key",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40, 40}, []int{56, 56}, "a")
	qp := c.p.RingQP()
	lq, lp := 2, 1
	s := c.sk.GetSecretKey("a")
	var es []rlwe.PolyQP
	for i, b := range c.rlk.GetRelinearizationKey("a").Value[0].Value {
		e := qp.NewPoly()
		qp.MulCoeffsMontgomeryLvl(lq, lp, c.p.CRS[0].Value[i], s.Value, e)
		qp.AddLvl(lq, lp, e, b, e)
		es = append(es, e)
	}
	same := true
	for k := range es[0].Q.Coeffs[0] {
		same = same && es[0].Q.Coeffs[0][k] == es[1].Q.Coeffs[0][k]
	}
	if same {
		t.Fatal("two rows of the relinearization key have the same error")
	}
}
''')
s("dec-sticky-scale","C03",[("mkckks/decryptor.go","	dec.ptxtPool.Scale = ctTmp.Scale\n","	if ctTmp.Scale != dec.params.Scale() {\n		dec.ptxtPool.Scale = ctTmp.Scale\n	}\n")],
  "one decryptor that first handles a ciphertext of another scale and then one of the default scale","the second message is decoded with the first ciphertext's scale",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40, 40}, []int{56, 56}, "a")
	x, y := c.encrypt("a", zzPat), c.encrypt("a", zzPat)
	c.eval.MultByConst(x, 8, x)
	x.Scale *= 8
	for _, ct := range []*Ciphertext{y, x, y} {
		m := c.dec.Decrypt(ct, c.sk)
		for i, v := range m.Value {
			if d := v - zzPat(i); math.Abs(real(d)) > 1e-3 || math.Abs(imag(d)) > 1e-3 {
				t.Fatalf("slot %d is %v, expected %v", i, v, zzPat(i))
			}
		}
	}
}
''')
s("dec-count-keys","C02",[("mkrlwe/decryptor.go","	if len(ctTmp.Value) > 1 {","	if len(skSet.Value) < idset.Size() {")],
  "a key set with as many keys as the ciphertext has parties, but not the right ones","the key of an involved party is missing and decryption returns a wrong value instead of refusing",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40}, []int{56, 56}, "a", "b", "z")
	x := c.eval.AddNew(c.encrypt("a", zzPat), c.encrypt("b", zzPat))
	c.check(t, "full", x, func(i int) complex128 { return 2 * zzPat(i) })
	set := mkrlwe.NewSecretKeySet()
	set.AddSecretKey(c.sk.GetSecretKey("a"))
	set.AddSecretKey(c.sk.GetSecretKey("z"))
	defer func() {
		if recover() == nil {
			t.Fatal("decryption without b's key returned a value")
		}
	}()
	c.dec.Decrypt(x, set)
}
''')
s("moddown-lazy-underflow","C15",[("mkrlwe/basis_extension.go",'''		p3tmp := polypool.Coeffs[i]
		params := qi - modDownParams[levelP][i]
		mredParams := ringQ.MredParams[i]

		// Then for each''','''		p3tmp := polypool.Coeffs[i]
		params := qi - modDownParams[levelP][i]
		mredParams := ringQ.MredParams[i]
		twoqi = qi // the inputs are reduced

		// Then for each''')],"a numerator in lazy form (residues between q and 2q) that exceeds the extended remainder by more than q","unsigned underflow: the quotient is garbage",'''
package mkrlwe

import (
	"math/big"
	"testing"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
)

func TestZZDemo(t *testing.T) {
	p, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: 5, LogQ: []int{55, 40}, LogP: []int{56, 56}, Sigma: rlwe.DefaultSigma})
	if err != nil {
		t.Fatal(err)
	}
	rq, rp := p.RingQ(), p.RingP()
	be := NewFastBasisExtender(rq, rp)
	a, b, c := rq.NewPoly(), rp.NewPoly(), rq.NewPoly()
	// integers that leave various remainders modulo P, their residues modulo Q given lazily (between q and 2q)
	P := rp.ModulusBigint
	for k := 0; k < 32; k++ {
		x := new(big.Int).Mul(P, big.NewInt(int64((k+1)*(1<<30))))
		x.Add(x, new(big.Int).Mul(big.NewInt(0x1e3779b97f4a7c15), big.NewInt(int64(0x1234567*k))))
		for j, q := range rq.Modulus {
			a.Coeffs[j][k] = q + new(big.Int).Mod(x, new(big.Int).SetUint64(q)).Uint64()
			_ = j
		}
		for j, q := range rp.Modulus {
			b.Coeffs[j][k] = new(big.Int).Mod(x, new(big.Int).SetUint64(q)).Uint64()
		}
	}
	be.ModDownQPtoQ(1, 1, a, b, c)
	for k := 0; k < 32; k++ {
		x := big.NewInt(int64((k + 1) * (1 << 30)))
		for j, q := range rq.Modulus {
			want := new(big.Int).Mod(x, new(big.Int).SetUint64(q)).Uint64()
			got := c.Coeffs[j][k] % q
			if d := (got + q - want) % q; d > 1 && d < q-1 {
				t.Fatalf("coefficient %d mod q%d: %d, expected %d", k, j, got, want)
			}
		}
	}
}

var _ *ring.Poly
''',pkg="mkrlwe")
s("addcrs-floor","C20",[("mkrlwe/params.go","	beta := params.Beta(params.MaxLevel())\n","	beta := params.QCount() / params.Alpha()\n")],
  "AddCRS with several primes per digit and a number of ciphertext primes that is no multiple of it","the added reference string lacks the row of the last, partial digit group",'''
func TestZZDemo(t *testing.T) {
	for _, np := range [][]int{{56, 56}, {56, 56, 56, 56}} {
		c := zzNew([]int{55, 40, 40}, np, "a")
		c.p.AddCRS(3)
		if len(c.p.CRS[3].Value) != len(c.p.CRS[1].Value) {
			t.Fatalf("%d rows, expected %d", len(c.p.CRS[3].Value), len(c.p.CRS[1].Value))
		}
	}
}
''')
s("pk-copy-shares","C16",[("mkrlwe/keys.go","	ret.Value[1] = pk.Value[1].CopyNew()\n","	ret.Value[1] = pk.Value[1] // the shared reference string is read-only\n")],
  "changing the second polynomial of a copied public key","the copy shares storage with the original",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40}, []int{56, 56}, "a")
	pk := c.pk.GetPublicKey("a")
	cp := pk.CopyNew()
	old := pk.Value[1].Q.Coeffs[1][3]
	cp.Value[1].Q.Coeffs[1][3] ^= 1
	cp.Value[1].P.Coeffs[0][0] ^= 1
	if pk.Value[1].Q.Coeffs[1][3] != old {
		t.Fatal("changing the copy changed the original")
	}
}
''')
s("const-imag-fraction","C11",[(EV,'''		if cImag != 0 {
			valueInt := int64(cImag)
			valueFloat := cImag - float64(valueInt)

			if valueFloat != 0 {
				scale = float64(eval.params.RingQ().Modulus[level])
			}
		}
''','''		if cReal == 0 {
			valueInt := int64(cImag)
			valueFloat := cImag - float64(valueInt)

			if valueFloat != 0 {
				scale = float64(eval.params.RingQ().Modulus[level])
			}
		}
''')],"a complex constant with a non-zero integral real part and a fractional imaginary part","the fraction of the imaginary part is lost",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40, 40}, []int{56, 56}, "a")
	for _, k := range []complex128{2, 0.5, complex(0, 0.5), complex(0.5, 0.25), complex(0.5, 2), complex(2, 3), complex(2, 0.5)} {
		x := c.encrypt("a", zzPat)
		c.eval.MultByConst(x, k, x)
		c.check(t, "product", x, func(i int) complex128 { return k * zzPat(i) })
	}
}
''')
s("ptxt-ntt-inplace","C06",[(EV,'''	eval.params.RingQ().NTTLvl(level, pt.Value, eval.polyQPool)
	eval.params.RingQ().MFormLvl(level, eval.polyQPool, eval.polyQPool)
''','''	poly := pt.Value
	if level < pt.Level() {
		poly = eval.polyQPool
	}
	eval.params.RingQ().NTTLvl(level, pt.Value, poly)
	eval.params.RingQ().MFormLvl(level, poly, eval.polyQPool)
''')],"one plaintext used twice, the first time with a ciphertext at the plaintext's own level","the plaintext is overwritten by its transform",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40, 40}, []int{56, 56}, "a")
	x := c.encrypt("a", zzPat)
	pt := c.enc.EncodeMsgNew(c.msg(zzPat))
	for n := 0; n < 2; n++ {
		c.check(t, "product", c.eval.MulPtxtNew(x, pt), func(i int) complex128 { return zzPat(i) * zzPat(i) })
	}
}
''')
s("encrypt-default-scale","C01",[("mkckks/encryptor.go","	ctOut.Scale = plaintext.Scale\n","	ctOut.Scale = enc.params.Scale()\n")],
  "EncryptPtxt with a plaintext whose scale is not the default","the ciphertext records the wrong scale and decrypts to a multiple of the message",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40, 40}, []int{56, 56}, "a")
	pt := ckks.NewPlaintext(c.cp, 2, math.Exp2(45))
	ckks.NewEncoder(c.cp).Encode(pt, c.msg(zzPat).Value, 5)
	ids := mkrlwe.NewIDSet()
	ids.Add("a")
	ct := NewCiphertext(c.p, ids, 2, 1)
	c.enc.EncryptPtxt(pt, c.pk.GetPublicKey("a"), ct)
	c.check(t, "message", ct, zzPat)
}
''')
s("decompose-partial-group","C14",[("mkrlwe/basis_extension.go",'''	if levelQ > alpha*(beta+1)-1 {
		decompLvl = alpha - 2
	} else {''','''	if levelQ >= alpha*beta+1 {
		decompLvl = alpha - 2
	} else {''')],"three or more primes per digit and a level that leaves a partial group of at least two primes","the partial group is treated as full: primes above the level enter the digit",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40, 40, 40}, []int{56, 56, 56, 56, 56, 56}, "a")
	for l := 0; l < 3; l++ {
		x := c.encrypt("a", zzPat)
		c.eval.DropLevel(x, l)
		c.check(t, "rotated", c.eval.RotateNew(x, 1, c.rtk), func(i int) complex128 { return zzPat((i + 1) % 32) })
	}
}
''')
s("conj-galois-wrap","C08",[("mkrlwe/keyswitch.go",'''	// c_i <- IP(c_i, a)
	a := params.CRS[-2]
	for id := range idset.Value {
		ks.ExternalProduct(level, ctOut.Value[id], a, ks.polyQPool[0])
		ctOut.Value[id].Copy(ks.polyQPool[0])
	}''','''	// c_i <- IP(c_i, a)
	a := params.CRS[-2]
	for id := range idset.Value {
		ks.Decompose(params.MaxLevel(), ctOut.Value[id], ks.swkPool3)
		ks.ExternalProductHoisted(level, ks.swkPool3, a, ks.polyQPool[0])
		ctOut.Value[id].Copy(ks.polyQPool[0])
	}''')],"conjugation below the top level","the decomposition reads moduli the ciphertext no longer has",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40, 40}, []int{56, 56}, "a")
	for l := 0; l < 2; l++ {
		x := c.encrypt("a", zzPat)
		c.eval.DropLevel(x, l)
		c.check(t, "conjugate", c.eval.ConjugateNew(x, c.cjk), func(i int) complex128 { z := zzPat(i); return complex(real(z), -imag(z)) })
	}
}
''')
s("hoisted-zero-digits","C09",[("mkrlwe/keyswitch_hoisted.go",'''	//initialize x1, x2, y1, y2
	for i := 0; i < beta; i++ {''','''	//initialize x1, x2, y1, y2
	beta0 := params.Beta(level)
	if op0Hoisted != nil && op1Hoisted == nil {
		beta0 = params.Beta(level - 1)
	}
	for i := 0; i < beta0; i++ {''')],"a multiplication with only the first operand hoisted, after another multiplication by the same evaluator","the last digit accumulates onto the previous product's",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40, 40}, []int{56, 56}, "a", "b")
	x, y := c.encrypt("a", zzPat), c.encrypt("b", zzPat)
	want := func(i int) complex128 { return zzPat(i) * zzPat(i) }
	h := c.eval.HoistedForm(x)
	for n := 0; n < 2; n++ {
		c.check(t, "plain", c.eval.MulRelinNew(x, y, c.rlk), want)
		c.check(t, "hoisted", c.eval.MulRelinHoistedNew(x, y, h, nil, c.rlk), want)
	}
}
''')
s("mul-scale-min","C05",[(EV,'''	eval.ksw.MulAndRelinHoisted(op0.Ciphertext, op1.Ciphertext, op0Hoisted, op1Hoisted, rlkSet, ctOut.Ciphertext)
	eval.Rescale(ctOut, eval.params.Scale(), ctOut)''','''	eval.ksw.MulAndRelinHoisted(op0.Ciphertext, op1.Ciphertext, op0Hoisted, op1Hoisted, rlkSet, ctOut.Ciphertext)
	eval.Rescale(ctOut, math.Min(op0.Scale, op1.Scale), ctOut)''')],"a product of ciphertexts of different scales, one of them well below the default scale","rescaling divides once too often and the result loses its precision",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40, 40, 40}, []int{56, 56}, "a")
	pt := ckks.NewPlaintext(c.cp, 3, math.Exp2(20))
	ckks.NewEncoder(c.cp).Encode(pt, c.msg(zzPat).Value, 5)
	ids := mkrlwe.NewIDSet()
	ids.Add("a")
	x := NewCiphertext(c.p, ids, 3, 1)
	c.enc.EncryptPtxt(pt, c.pk.GetPublicKey("a"), x)
	y := c.encrypt("a", zzPat)
	c.eval.MultByConst(y, 1<<3, y)
	y.Scale *= 1 << 3
	z := c.eval.MulRelinNew(x, y, c.rlk)
	if z.Level() != 3 || z.Scale < math.Exp2(39) {
		t.Fatalf("level %d scale 2^%v", z.Level(), math.Log2(z.Scale))
	}
}
''')
LRSH='''#!/bin/bash
# exit 0: behaves as expected; non-zero: the demonstrated misbehaviour
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/lr/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$t/o.json"
timeout 280 go test -overlay "$t/o.json" -vet=off -count=1 -run '^TestZZDemo$' ./lr/%s ./lr/zz_demo_test.go
'''
import os
LRC=open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"common_lr_test.go.txt")).read()
def lr(id,prop,prog,edits,needs,breaks,demo,common=True):
    s(id,prop,[("lr/"+prog,a,b) for a,b in edits],needs,breaks,"",sh=LRSH%prog,files={"demo_test.go":(LRC if common else "")+demo})
MBDEMO='''
func TestZZDemo(t *testing.T) {
	numTrain, batchSize, numBatch, numIter, numData = %s
	numSlots, PN15QP880.LogN, PN15QP880.LogSlots, numCompany = 16, 14, 4, 1
	x := zzTable(numData, numFeature)
	zzCompare(t, zzBetas(zzRun(t, "data.csv", x)), zzTrain(x, numFeature, batchSize, numBatch, numIter))
}
'''
lr("lr-batch-clamped","C17","lr_minibatch.go",[("		batchId := a % numBatch\n","		batchId := a\n		if batchId >= numBatch {\n			batchId = numBatch - 1\n		}\n")],
  "more iterations than batches","after the last batch the training stays on it instead of starting over",MBDEMO%"4, 2, 2, 4, 1951")
lr("lr-momentum-weight-by-batch","C17","lr_minibatch.go",[("const2_pt[batchId][ctId][a])","const2_pt[batchId][ctId][batchId])")],
  "more iterations than batches","the constant part of the momentum uses the weight of an earlier iteration",MBDEMO%"4, 2, 2, 4, 1951")
lr("lr-stale-rows","C19","lr_minibatch.go",[("		for i := 0; i < numCtPerBatch; i++ {\n			z_vector := make([]complex128, numSlots)\n","		z_vector := make([]complex128, numSlots)\n		for i := 0; i < numCtPerBatch; i++ {\n")],
  "a batch of several ciphertexts that does not fill the last one","the unused rows of the last ciphertext repeat records of the one before, which so count twice in the gradient",MBDEMO%"6, 3, 2, 2, 1951")
SUMDEMO='''package main

import (
	"math/cmplx"
	"testing"

	"github.com/ldsec/lattigo/v2/ckks"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

func TestZZDemo(t *testing.T) {
	lit := PN15QP880
	lit.LogN, lit.LogSlots, lit.Q = 5, 4, lit.Q[:4]
	cp, err := ckks.NewParametersFromLiteral(lit)
	if err != nil {
		t.Fatal(err)
	}
	p := mkckks.NewParameters(cp)
	kgen := mkckks.NewKeyGenerator(p)
	sk, pk := kgen.GenKeyPair("a")
	sks, rks := mkrlwe.NewSecretKeySet(), mkrlwe.NewRotationKeySet()
	sks.AddSecretKey(sk)
	kgen.GenDefaultRotationKeys(sk, rks)
	rlks := mkrlwe.NewRelinearizationKeyKeySet(p.Parameters)
	enc, dec, eval := mkckks.NewEncryptor(p), mkckks.NewDecryptor(p), mkckks.NewEvaluator(p)
	for cols := 1; cols <= 16; cols *= 2 {
		rows := 16 / cols
		msg, mask := mkckks.NewMessage(p), mkckks.NewMessage(p)
		v := make([]complex128, 16)
		for i := range v {
			v[i] = complex(float64(i*i%7)/7, float64(i%3)/5)
			msg.Value[i] = v[i]
			if i%cols == 0 {
				mask.Value[i] = 1
			}
		}
		ct := enc.EncryptMsgNew(msg, pk)
		row := dec.Decrypt(SumRowVec(eval, rks, ct, rows, cols), sks)
		col := dec.Decrypt(SumColVec(eval, rlks, rks, ct, enc.EncodeMsgNew(mask), rows, cols), sks)
		for i := range v {
			var r, c complex128
			for k := 0; k < rows; k++ {
				r += v[k*cols+i%cols]
			}
			for k := 0; k < cols; k++ {
				c += v[i/cols*cols+k]
			}
			if cmplx.Abs(row.Value[i]-r) > 1e-3 {
				t.Errorf("%dx%d row sum, slot %d: %v, expected %v", rows, cols, i, row.Value[i], r)
			}
			if cmplx.Abs(col.Value[i]-c) > 1e-3 {
				t.Errorf("%dx%d column sum, slot %d: %v, expected %v", rows, cols, i, col.Value[i], c)
			}
		}
	}
}
'''
lr("lr-rowsum-two-rows","C18","lr_toy.go",[("	for i := 1; i < numRow; i *= 2 {","	for i := 1; i < numRow-1; i *= 2 {")],
  "a matrix of exactly two rows","the last doubling step is skipped, so the second row is not added",SUMDEMO,common=False)
lr("lr-colsum-unmasked","C18","lr.go",[("	ctOut = eval.MulPtxtNew(ctOut, mask)\n","	if numRow > 1 {\n		// a single row fills the ciphertext: every slot already has the sum\n		ctOut = eval.MulPtxtNew(ctOut, mask)\n	}\n")],
  "a matrix of a single row","the sum is added up once more by the second half, giving numCol times the sum",SUMDEMO,common=False)
lr("lr-header-guess","C19","lr.go",[('''		if i == 0 {
			continue
		}
''','''		// skip the header
		if _, err := strconv.ParseFloat(row[0], 64); err != nil {
			continue
		}
''')],
  "a record whose first field is malformed","the malformed record is silently taken for a header and left out (a nil row) instead of being refused",'''package main

import (
	"os"
	"testing"
)

func TestZZDemo(t *testing.T) {
	f := t.TempDir() + "/d.csv"
	numData = 2
	os.WriteFile(f, []byte("a,b,c,d,e,f,g,t\\n1,2,3,4,5,6,7,0\\n1..5,2,3,4,5,6,7,1\\n"), 0o644)
	refused := false
	func() {
		defer func() { refused = recover() != nil }()
		readData(f)
	}()
	if !refused {
		t.Error("the malformed number 1..5 was accepted")
	}
	os.WriteFile(f, []byte("a,b,c,d,e,f,g,t\\n1,2,3,4,5,6,7,0\\n1.5,2,3,4,5,6,7,1\\n"), 0o644)
	if x, y := readData(f); x[1][0] != 1.5 || x[0][6] != 7 || y[1] != 1 {
		t.Error("wrong table", x, y)
	}
}
''',common=False)
lr("lr-std-first-batch","C19","lr_minibatch_toy.go",[('''		for i := 0; i < numTrain; i++ {
			std[j] += math.Pow(real(featureData[i][j])-mean[j], 2)
		}
		std[j] = math.Sqrt(std[j] / (float64(numTrain) - 1))''','''		for i := 0; i < numBatch*batchSize; i++ {
			std[j] += math.Pow(real(featureData[i][j])-mean[j], 2)
		}
		std[j] = math.Sqrt(std[j] / (float64(numTrain) - 1))''')],
  "a training set whose size is no multiple of the batch size","the left-over records are missing from the standard deviation, so standardised columns have the wrong scale",'''
func TestZZDemo(t *testing.T) {
	numTrain, batchSize, numBatch, numData = 5, 2, 2, 6
	numSlots, PN15QP880.LogN, PN15QP880.LogSlots, numCompany = 64, 14, 6, 1
	x := zzTable(numData, numFeature)
	for j := 0; j < numFeature; j++ {
		x[4][j] += 3
	}
	z := make([][]float64, len(x))
	for i := range x {
		z[i] = append([]float64{}, x[i]...)
	}
	for j := 0; j < 17; j++ {
		if j == 1 || j == 3 || j == 5 {
			continue
		}
		mean, v := 0.0, 0.0
		for i := 0; i < numTrain; i++ {
			mean += x[i][j] / float64(numTrain)
		}
		for i := 0; i < numTrain; i++ {
			v += (x[i][j] - mean) * (x[i][j] - mean)
		}
		sd := math.Sqrt(v / float64(numTrain-1))
		for i := range z {
			z[i][j] = (x[i][j] - mean) / sd
		}
	}
	zzCompare(t, zzBetas(zzRun(t, "toyData.csv", x)), zzTrain(z, numFeature, batchSize, numBatch, 3))
}
''')
s("enc-one-error","C21",[("mkrlwe/encryptor.go",'''		// ct[0] = pk[0]*u + e0
		encryptor.gaussianSampler.ReadAndAddLvl(ctOut.Level(), ctOut.Value["0"])

		// ct[1] = pk[1]*u + e1
		encryptor.gaussianSampler.ReadAndAddLvl(ctOut.Level(), ctOut.Value[id])
''','''		// ct = pk*u + e
		encryptor.gaussianSampler.ReadLvl(levelQ, poolQ0)
		ringQ.AddLvl(levelQ, ctOut.Value["0"], poolQ0, ctOut.Value["0"])
		ringQ.AddLvl(levelQ, ctOut.Value[id], poolQ0, ctOut.Value[id])
''')],"an observer who compares the two components of a ciphertext","both components carry the same error polynomial, so their difference is a noise-free equation in the mask",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40, 40}, []int{56, 56}, "a")
	// under an all-zero public key a ciphertext of zero shows its two errors
	pk := mkrlwe.NewPublicKey(c.p.Parameters, "a")
	ct := c.enc.EncryptMsgNew(c.msg(func(int) complex128 { return 0 }), pk)
	for i := range ct.Value["a"].Coeffs[0] {
		if ct.Value["a"].Coeffs[0][i] != ct.Value["0"].Coeffs[0][i] {
			return
		}
	}
	t.Fatal("the two components have the same error")
}
''')
s("enc-mask-per-key","C21",[("mkrlwe/encryptor.go",'''	encryptor.ternarySampler.ReadLvl(levelQ, poolQ0)
	ringQ.NTTLvl(levelQ, poolQ0, poolQ0)
	ringQ.MFormLvl(levelQ, poolQ0, poolQ0)

	// ct0 = u*pk0
	ringQ.MulCoeffsMontgomeryLvl(levelQ, poolQ0, pk.Value[0].Q, ctOut.Value["0"])
	// ct1 = u*pk1
	ringQ.MulCoeffsMontgomeryLvl(levelQ, poolQ0, pk.Value[1].Q, ctOut.Value[id])
''','''	// u*pk only depends on the key: keep it while encrypting a batch for one party
	if encryptor.cachePK != pk || encryptor.cache[0].Level() < levelQ {
		encryptor.ternarySampler.ReadLvl(levelQ, poolQ0)
		ringQ.NTTLvl(levelQ, poolQ0, poolQ0)
		ringQ.MFormLvl(levelQ, poolQ0, poolQ0)
		for i := range encryptor.cache {
			encryptor.cache[i] = ringQ.NewPolyLvl(levelQ)
			ringQ.MulCoeffsMontgomeryLvl(levelQ, poolQ0, pk.Value[i].Q, encryptor.cache[i])
		}
		encryptor.cachePK = pk
	}

	// ct0 = u*pk0
	ring.CopyValuesLvl(levelQ, encryptor.cache[0], ctOut.Value["0"])
	// ct1 = u*pk1
	ring.CopyValuesLvl(levelQ, encryptor.cache[1], ctOut.Value[id])
'''),("mkrlwe/encryptor.go","	encryptorBase\n}","	encryptorBase\n	cachePK *PublicKey\n	cache   [2]*ring.Poly\n}"),
  ("mkrlwe/encryptor.go","	return &Encryptor{newEncryptorBase(params)}","	return &Encryptor{encryptorBase: newEncryptorBase(params)}")],
  "two encryptions in a row for the same public key","the second encryption reuses the mask of the first, so the difference of the two ciphertexts reveals the difference of the messages",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40, 40}, []int{56, 56}, "a")
	x, y := c.encrypt("a", zzPat), c.encrypt("a", zzPat)
	q := c.p.Q()[0]
	for i, v := range x.Value["a"].Coeffs[0] {
		d := (v + q - y.Value["a"].Coeffs[0][i]) % q
		if d > 100 && q-d > 100 {
			return
		}
	}
	t.Fatal("two encryptions share their mask")
}
''')
s("enc-seeded-stream","C21",[("mkrlwe/encryptor.go","	prng, err := utils.NewPRNG()\n","	// one stream per set of parameters\n	prng, err := utils.NewKeyedPRNG([]byte{byte(params.LogN()), byte(params.QCount()), byte(params.PCount())})\n")],
  "two encryptors of the same parameters","all encryptors draw the same predictable masks and errors: anybody can recompute them and decrypt",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40, 40}, []int{56, 56}, "a")
	x := c.encrypt("a", zzPat)
	c.enc = NewEncryptor(c.p)
	y := c.encrypt("a", zzPat)
	for i, v := range x.Value["a"].Coeffs[0] {
		if v != y.Value["a"].Coeffs[0][i] {
			return
		}
	}
	t.Fatal("two encryptors draw the same randomness")
}
''')
s("secret-seeded-by-name","C13",[("mkrlwe/keygen.go",'''	prng, err := utils.NewPRNG()
	if err != nil {
		panic(err)
	}
	ternarySamplerMontgomery := ring.NewTernarySampler(prng, keygen.params.RingQ(), p, false)''','''	prng, err := utils.NewKeyedPRNG([]byte(id))
	if err != nil {
		panic(err)
	}
	ternarySamplerMontgomery := ring.NewTernarySampler(prng, keygen.params.RingQ(), p, false)''')],
  "two keys generated under one name","secret keys are a function of the owner's name",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40, 40}, []int{56, 56}, "a")
	x, y := c.kg.GenSecretKey("b"), NewKeyGenerator(c.p).GenSecretKey("b")
	for i, v := range x.Value.Q.Coeffs[0] {
		if v != y.Value.Q.Coeffs[0][i] {
			return
		}
	}
	t.Fatal("the secret key depends on the name only")
}
''')
s("addcrs-keyed","C20",[("mkrlwe/params.go",'''func (params *Parameters) AddCRS(idx int) {

	prng, err := utils.NewPRNG()''','''func (params *Parameters) AddCRS(idx int) {

	// every party has to derive the same string
	prng, err := utils.NewKeyedPRNG([]byte("mk-lr common reference string"))''')],
  "reference strings added for two indices","all added reference strings are the same, so rotation keys for different amounts share their randomness",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40, 40}, []int{56, 56}, "a")
	c.p.AddCRS(3)
	c.p.AddCRS(5)
	for i, v := range c.p.CRS[3].Value[0].Q.Coeffs[0] {
		if v != c.p.CRS[5].Value[0].Q.Coeffs[0][i] {
			return
		}
	}
	t.Fatal("the reference strings of 3 and 5 are the same")
}
''')

KS="mkrlwe/keyswitch.go"; KH="mkrlwe/keyswitch_hoisted.go"
s("rot-skips-keyless","C23",[(KS,'''	for id := range idset.Value {
		rk := rkSet.GetRotationKey(id, uint(rotidx))
''','''	for id := range idset.Value {
		if rks, ok := rkSet.Value[id]; ok && rks[uint(rotidx)] == nil {
			// nothing to switch for this party
			continue
		}
		rk := rkSet.GetRotationKey(id, uint(rotidx))
''')],"a rotation where a party has some rotation keys but not the one needed","instead of refusing, the party's component is dropped from the result, which decrypts to garbage",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40}, []int{56, 56}, "a", "b")
	x := c.eval.AddNew(c.encrypt("a", zzPat), c.encrypt("b", zzPat))
	c.rtk.DelRotationKey("b", 4)
	defer func() {
		if recover() == nil {
			t.Fatal("rotation without b's key was not refused")
		}
	}()
	c.eval.RotateNew(x, 4, c.rtk)
}
''')
s("mul-remembers-keys","C23",[(KH,'''	for id := range idset0.Value {

		v := rlkSet.Value[id].Value[2]
''','''	for id := range idset0.Value {

		v := ks.relin(rlkSet, id).Value[2]
'''),(KH,'''			d := rlkSet.Value[id].Value[1]
			for i := 0; i < beta; i++ {
				ringQP.MulCoeffsMontgomeryAndAddLvl(level, levelP, d.Value[i], op0Hoisted''','''			d := ks.relin(rlkSet, id).Value[1]
			for i := 0; i < beta; i++ {
				ringQP.MulCoeffsMontgomeryAndAddLvl(level, levelP, d.Value[i], op0Hoisted'''),
 (KH,'''			b := rlkSet.Value[id].Value[0]
			for i := 0; i < beta; i++ {
				ringQP.MulCoeffsMontgomeryAndAddLvl(level, levelP, b.Value[i], op1Hoisted''','''			b := ks.relin(rlkSet, id).Value[0]
			for i := 0; i < beta; i++ {
				ringQP.MulCoeffsMontgomeryAndAddLvl(level, levelP, b.Value[i], op1Hoisted'''),
 (KH,'''// MulRelin multiplies op0 with op1''','''// relin returns the relinearization key of a party
func (ks *KeySwitcher) relin(rlkSet *RelinearizationKeySet, id string) *RelinearizationKey {
	if rlk, in := rlkSet.Value[id]; in {
		ks.lastRlk[id] = rlk
	}
	return ks.lastRlk[id]
}

// MulRelin multiplies op0 with op1'''),
 (KS,"	swkPool3   *SwitchingKey\n}","	swkPool3   *SwitchingKey\n	lastRlk    map[string]*RelinearizationKey\n}"),
 (KS,"	ks.swkPool3 = NewSwitchingKey(params)\n","	ks.swkPool3 = NewSwitchingKey(params)\n	ks.lastRlk = make(map[string]*RelinearizationKey)\n")],
 "a party's relinearization key is deleted from the set after the evaluator has used it once","the evaluator goes on multiplying with the revoked key instead of refusing",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40, 40}, []int{56, 56}, "a", "b")
	x, y := c.encrypt("a", zzPat), c.encrypt("b", zzPat)
	c.check(t, "product", c.eval.MulRelinNew(x, y, c.rlk), func(i int) complex128 { return zzPat(i) * zzPat(i) })
	c.rlk.DelRelinearizationKey("b")
	defer func() {
		if recover() == nil {
			t.Fatal("multiplication without b's key was not refused")
		}
	}()
	c.eval.MulRelinNew(x, y, c.rlk)
}
''')
s("rot-perm-cache","C24",[(KS,'''	// permute ctOut
	galEl := params.GaloisElementForColumnRotationBy(rotidx)
	for id := range ctIn.Value {

		var mask, index, indexRaw, logN, tmp uint64

		mask = uint64(ringQ.N - 1)

		logN = uint64(bits.Len64(mask))

		for i := uint64(0); i < uint64(ringQ.N); i++ {

			indexRaw = i * galEl

			index = indexRaw & mask

			tmp = (indexRaw >> logN) & 1
''','''	// permute ctOut
	galEl := params.GaloisElementForColumnRotationBy(rotidx)
	perm, in := permutations[galEl]
	if !in || len(perm) < ringQ.N {
		perm = make([]uint64, ringQ.N)
		for i := range perm {
			raw := uint64(i) * galEl
			perm[i] = raw&uint64(ringQ.N-1)<<1 | raw>>uint(bits.Len64(uint64(ringQ.N-1)))&1
		}
		permutations[galEl] = perm
	}
	for id := range ctIn.Value {

		var mask, index, tmp uint64

		mask = uint64(ringQ.N - 1)

		for i := uint64(0); i < uint64(ringQ.N); i++ {

			index = perm[i] >> 1 & mask

			tmp = perm[i] & 1
'''),(KS,'''// Rotate rotates ctIn with''','''// permutations caches the coefficient permutation of each Galois element
var permutations = map[uint64][]uint64{}

// Rotate rotates ctIn with''')],"rotations by the same amount in a larger ring and then in a smaller one, in one process",
 "the cached permutation belongs to the larger ring: its wrap-around bit and signs are those of the other degree",'''
func zzRot(t *testing.T, logN int) {
	cp, err := ckks.NewParametersFromLiteral(ckks.ParametersLiteral{LogN: logN, LogSlots: logN - 1, LogQ: []int{55, 40}, LogP: []int{56, 56}, Scale: 1 << 40, Sigma: rlwe.DefaultSigma})
	if err != nil {
		panic(err)
	}
	c := &zzCtx{p: NewParameters(cp), cp: cp}
	c.kg = NewKeyGenerator(c.p)
	c.sk, c.pk, c.rtk = mkrlwe.NewSecretKeySet(), mkrlwe.NewPublicKeyKeySet(), mkrlwe.NewRotationKeySet()
	sk, pk := c.kg.GenKeyPair("a")
	c.sk.AddSecretKey(sk)
	c.pk.AddPublicKey(pk)
	c.kg.GenDefaultRotationKeys(sk, c.rtk)
	c.enc, c.eval = NewEncryptor(c.p), NewEvaluator(c.p)
	x := c.encrypt("a", zzPat)
	n := 1 << (logN - 1)
	for _, k := range []int{1, 2, 4} {
		c.check(t, "rotated", c.eval.RotateNew(x, k, c.rtk), func(i int) complex128 { return zzPat((i + k) % n) })
	}
}

func TestZZDemo(t *testing.T) {
	zzRot(t, 5)
	zzRot(t, 6)
	zzRot(t, 5)
}
''')
s("decomposer-shared-tables","C24",[("mkrlwe/basis_extension.go",'''	decomposer.modUpParams = make([][][]modupParams, len(ringP.Modulus)-1)
''','''	// the tables are large: share them between key switchers
	key := [4]int{ringQ.N, len(Q), len(ringP.Modulus), gamma}
	if tables, in := decomposerTables[key]; in {
		decomposer.modUpParams = tables
		return
	}

	decomposer.modUpParams = make([][][]modupParams, len(ringP.Modulus)-1)
	decomposerTables[key] = decomposer.modUpParams
'''),("mkrlwe/basis_extension.go","func NewDecomposer(","var decomposerTables = map[[4]int][][][]modupParams{}\n\nfunc NewDecomposer(")],
 "two parameter sets of the same shape but different primes in one process, with at least two primes per digit","the second set decomposes with the tables of the first one's primes: every key switch is garbage",'''
func TestZZDemo(t *testing.T) {
	for _, last := range []int{40, 41} {
		c := zzNew([]int{55, 40, 40, last}, []int{56, 56, 57, 57}, "a", "b")
		x, y := c.encrypt("a", zzPat), c.encrypt("b", zzPat)
		c.check(t, "product", c.eval.MulRelinNew(x, y, c.rlk), func(i int) complex128 { return zzPat(i) * zzPat(i) })
	}
}
''')
s("add-shares-component","C22",[(EV,"			ring.CopyValuesLvl(level, tmp0.Value[id], ctOut.Value[id])","			if tmp0.Level() == level && tmp0 == c0.El() {\n				ctOut.Value[id] = tmp0.Value[id] // nothing to add\n			} else {\n				ring.CopyValuesLvl(level, tmp0.Value[id], ctOut.Value[id])\n			}")],
 "an addition whose first operand has a party the second lacks, followed by an in-place operation on the sum","sum and operand share a component: working on the sum in place changes the operand",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40, 40}, []int{56, 56}, "a", "b")
	x, y := c.encrypt("a", zzPat), c.encrypt("b", zzPat)
	z := c.eval.AddNew(x, y)
	c.eval.MultByConst(z, 3, z)
	c.check(t, "three times the sum", z, func(i int) complex128 { return 6 * zzPat(i) })
	c.check(t, "operand", x, zzPat)
}
''')
s("ptxt-ntt-flag","C22",[(EV,'''		eval.params.RingQ().NTTLvl(level, ct.Value[id], ctOut.Value[id])
		eval.params.RingQ().MulCoeffs''','''		eval.params.RingQ().NTTLvl(level, ct.Value[id], ctOut.Value[id])
		ctOut.Value[id].IsNTT = id != "0"
		eval.params.RingQ().MulCoeffs''')],"a product with a plaintext used in a rotation, conjugation or multiplication","the party components of the product are still marked as NTT, so key switching transforms them once more",'''
func TestZZDemo(t *testing.T) {
	c := zzNew([]int{55, 40, 40}, []int{56, 56}, "a")
	x := c.encrypt("a", zzPat)
	pt := c.enc.EncodeMsgNew(c.msg(func(i int) complex128 { return 2 }))
	z := c.eval.MulPtxtNew(x, pt)
	c.check(t, "product", z, func(i int) complex128 { return 2 * zzPat(i) })
	c.check(t, "rotated product", c.eval.RotateNew(z, 1, c.rtk), func(i int) complex128 { return 2 * zzPat((i+1)%32) })
}
''')

s("extprod-lazy-digits","C14",[("mkrlwe/keyswitch.go",'''			ringQP.MulCoeffsMontgomeryLvl(levelQ, levelP, bg.Value[i], c0QP, c1QP)
		} else {
			ringQP.MulCoeffsMontgomeryAndAddLvl(levelQ, levelP, bg.Value[i], c0QP, c1QP)
		}
	}
''','''			ringQP.MulCoeffsMontgomeryConstantLvl(levelQ, levelP, bg.Value[i], c0QP, c1QP)
		} else {
			ringQP.MulCoeffsMontgomeryConstantAndAddNoModLvl(levelQ, levelP, bg.Value[i], c0QP, c1QP)
		}
	}
	// one reduction for all digits
	ringQ.ReduceLvl(levelQ, c1QP.Q, c1QP.Q)
	ringP.ReduceLvl(levelP, c1QP.P, c1QP.P)
''')],"more than fourteen digits of primes of about 60 bits","the unreduced sum over the digits overflows a word",'''
func TestZZDemo(t *testing.T) {
	var q []int
	for i := 0; i < 28; i++ {
		q = append(q, 60)
	}
	c := zzNew(q, []int{60, 60}, "a")
	for k := 0; k < 10; k++ {
		x := c.encrypt("a", zzPat)
		c.check(t, "rotated", c.eval.RotateNew(x, 1, c.rtk), func(i int) complex128 { return zzPat((i + 1) % 32) })
	}
}
''')
s("mul-lazy-parties","C05",[("mkrlwe/keyswitch_hoisted.go","				ringQP.MulCoeffsMontgomeryAndAddLvl(level, levelP, d.Value[i], op0Hoisted.Value[id].Value[i], x.Value[i])","				// not reduced here: MFormLvl below reduces\n				ringQP.MulCoeffsMontgomeryConstantAndAddNoModLvl(level, levelP, d.Value[i], op0Hoisted.Value[id].Value[i], x.Value[i])"),
 ("mkrlwe/keyswitch_hoisted.go","				ringQP.MulCoeffsMontgomeryAndAddLvl(level, levelP, b.Value[i], op1Hoisted.Value[id].Value[i], y.Value[i])","				ringQP.MulCoeffsMontgomeryConstantAndAddNoModLvl(level, levelP, b.Value[i], op1Hoisted.Value[id].Value[i], y.Value[i])")],
 "an operand of more than fourteen parties and primes of about 60 bits","the unreduced sum over the parties overflows a word: the product decrypts to garbage",'''
func TestZZDemo(t *testing.T) {
	var us []string
	for i := 0; i < 40; i++ {
		us = append(us, "user"+string(rune('A'+i)))
	}
	c := zzNew([]int{60, 40, 60}, []int{60, 60}, us...)
	x := c.encrypt(us[0], zzPat)
	for _, u := range us[1:] {
		x = c.eval.AddNew(x, c.encrypt(u, func(int) complex128 { return 0 }))
	}
	c.check(t, "product", c.eval.MulRelinNew(x, x, c.rlk), func(i int) complex128 { return zzPat(i) * zzPat(i) })
}
''')
s("rot-lazy-parties","C07",[("mkrlwe/keyswitch.go",'''		ks.ExternalProduct(level, ctIn.Value[id], rk.Value, ks.polyQPool[0])
		ringQ.AddLvl(level, ctOut.Value["0"], ks.polyQPool[0], ctOut.Value["0"])

		ks.ExternalProduct(level, ctIn.Value[id], a, ctOut.Value[id])
	}
''','''		ks.ExternalProduct(level, ctIn.Value[id], rk.Value, ks.polyQPool[0])
		ringQ.AddNoModLvl(level, ctOut.Value["0"], ks.polyQPool[0], ctOut.Value["0"])

		ks.ExternalProduct(level, ctIn.Value[id], a, ctOut.Value[id])
	}
	ringQ.ReduceLvl(level, ctOut.Value["0"], ctOut.Value["0"])
''')],"a ciphertext of more than fifteen parties and primes of about 60 bits","the unreduced sum over the parties overflows a word",'''
func TestZZDemo(t *testing.T) {
	var us []string
	for i := 0; i < 40; i++ {
		us = append(us, "user"+string(rune('A'+i)))
	}
	c := zzNew([]int{60, 40, 60}, []int{60, 60}, us...)
	x := c.encrypt(us[0], zzPat)
	for _, u := range us[1:] {
		x = c.eval.AddNew(x, c.encrypt(u, func(int) complex128 { return 0 }))
	}
	c.check(t, "rotated", c.eval.RotateNew(x, 1, c.rtk), func(i int) complex128 { return zzPat((i + 1) % 32) })
}
''')
