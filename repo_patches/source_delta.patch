From 8338d22582a7758bd7aaca3c2dc877e0bd5947e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:26 +0000
Subject: [PATCH 01/10] fix: cover every special prime in the decomposer's
 tables when PCount is not a multiple of gamma

---
 mkrlwe/basis_extension.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mkrlwe/basis_extension.go b/mkrlwe/basis_extension.go
index 23574d3..937999f 100644
--- a/mkrlwe/basis_extension.go
+++ b/mkrlwe/basis_extension.go
@@ -401,7 +401,8 @@ func NewDecomposer(ringQ, ringP *ring.Ring, gamma int) (decomposer *Decomposer)
 			for j := 0; j < xalpha[i]-1; j++ {
 
 				Qi := make([]uint64, j+2)
-				Pi := make([]uint64, len(Q)+len(P))
+				// all special primes are covered, also those beyond gamma*alpha
+				Pi := make([]uint64, len(Q)+len(ringP.Modulus))
 
 				for k := 0; k < j+2; k++ {
 					Qi[k] = Q[i*alpha+k]
@@ -411,8 +412,8 @@ func NewDecomposer(ringQ, ringP *ring.Ring, gamma int) (decomposer *Decomposer)
 					Pi[k] = Q[k]
 				}
 
-				for k := len(Q); k < len(Q)+len(P); k++ {
-					Pi[k] = P[k-len(Q)]
+				for k := len(Q); k < len(Pi); k++ {
+					Pi[k] = ringP.Modulus[k-len(Q)]
 				}
 
 				decomposer.modUpParams[lvlP][i][j] = basisextenderparameters(Qi, Pi)
-- 
2.43.0


From b21d4e1fb2302e5a69fb61a1aad456d5c214ee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:01 +0000
Subject: [PATCH 02/10] fix: restore the decryptor's plaintext pool to the
 level of the ciphertext

---
 mkckks/decryptor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mkckks/decryptor.go b/mkckks/decryptor.go
index d567ba9..fc8ed16 100644
--- a/mkckks/decryptor.go
+++ b/mkckks/decryptor.go
@@ -34,6 +34,9 @@ func (dec *Decryptor) PartialDecrypt(ct *Ciphertext, sk *mkrlwe.SecretKey) {
 func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet) (msg *Message) {
 	ctTmp := ciphertext.CopyNew()
 
+	// a previous decryption may have left the pool at a lower level
+	dec.ptxtPool.Value.Coeffs = dec.ptxtPool.Value.Coeffs[:ctTmp.Level()+1]
+
 	dec.Decryptor.Decrypt(ctTmp.Ciphertext, skSet, dec.ptxtPool.Plaintext)
 	dec.ptxtPool.Scale = ctTmp.Scale
 	msg = new(Message)
-- 
2.43.0


From e1d50058b4f6fa46e00ff40644c6024068a42d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:01 +0000
Subject: [PATCH 03/10] fix: normalise the rotation amount before looking up
 its CRS in GenRotationKey

---
 mkrlwe/keygen.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index b93b422..87f3919 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -198,17 +198,21 @@ func (keygen *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) (rk *Rotat
 	beta := params.Beta(levelQ)
 	ringQP := params.RingQP()
 
-	// check CRS for given rot idx exists
-	_, in := params.CRS[rotidx]
-	if !in {
-		panic("Cannot GenRotationKey: CRS for given rot idx is not generated")
+	// adjust rotidx
+	for rotidx >= params.N()/2 {
+		rotidx -= (params.N() / 2)
 	}
 
-	// adjust rotidx
 	for rotidx < 0 {
 		rotidx += (params.N() / 2)
 	}
 
+	// check CRS for given rot idx exists
+	_, in := params.CRS[rotidx]
+	if !in {
+		panic("Cannot GenRotationKey: CRS for given rot idx is not generated")
+	}
+
 	galEl := keygen.params.GaloisElementForColumnRotationBy(rotidx)
 	galEl = keygen.params.InverseGaloisElement(galEl)
 	index := ring.PermuteNTTIndex(galEl, uint64(params.N()))
-- 
2.43.0


From 8e636d6ba41c835d49fa690cb833d287287d7467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:14 +0000
Subject: [PATCH 04/10] fix: conjugate only the moduli up to the ciphertext's
 level

---
 mkrlwe/keyswitch.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mkrlwe/keyswitch.go b/mkrlwe/keyswitch.go
index 59b2a35..c692658 100644
--- a/mkrlwe/keyswitch.go
+++ b/mkrlwe/keyswitch.go
@@ -312,8 +312,18 @@ func (ks *KeySwitcher) Conjugate(ctIn *Ciphertext, ckSet *ConjugationKeySet, ctO
 	}
 
 	// permute ctIn and put it to ctOut
+	mask := uint64(ringQ.N - 1)
+	logN := uint64(bits.Len64(mask))
 	for id := range ctIn.Value {
-		ringQ.Permute(ctIn.Value[id], galEl, ctOut.Value[id])
+		for i := uint64(0); i < uint64(ringQ.N); i++ {
+			indexRaw := i * galEl
+			index := indexRaw & mask
+			tmp := (indexRaw >> logN) & 1
+
+			for j, qi := range ringQ.Modulus[:level+1] {
+				ctOut.Value[id].Coeffs[j][index] = ctIn.Value[id].Coeffs[j][i]*(tmp^1) | (qi-ctIn.Value[id].Coeffs[j][i])*tmp
+			}
+		}
 	}
 
 	// c0 <- c0 + IP(c_i, rk_i)
-- 
2.43.0


From 97bb7e157f5d6d7f9427d48f178b9ec020ed5ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:29 +0000
Subject: [PATCH 05/10] fix: never rescale below level zero

---
 mkckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 3bd8a1f..5ad2eee 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -377,7 +377,7 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	var nbRescales int
 	// Divides the scale by each moduli of the modulus chain as long as the scale isn't smaller than minScale/2
 	// or until the output Level() would be zero
-	for ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 && ctIn.Level()-nbRescales >= 0 {
+	for ctIn.Level()-nbRescales > 0 && ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 {
 		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
 		nbRescales++
 	}
-- 
2.43.0


From 9582c90765a0088e2adb34ad0c5d0d7bc3ea394d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:45 +0000
Subject: [PATCH 06/10] fix: Rescale copies its input to the output instead of
 overwriting the input or returning nothing

---
 mkckks/evaluator.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 5ad2eee..ee461b7 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -382,16 +382,18 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		nbRescales++
 	}
 
+	level := ctIn.Level()
+
+	// the division overwrites its input, so it works on the output's copy
+	if ctIn != ctOut {
+		ctOut.Ciphertext.Copy(ctIn.Ciphertext)
+	}
+
 	if nbRescales > 0 {
-		level := ctIn.Level()
 		for i := range ctOut.Value {
-			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, ctIn.Value[i], eval.polyQPool, ctOut.Value[i])
+			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, ctOut.Value[i], eval.polyQPool, ctOut.Value[i])
 			ctOut.Value[i].Coeffs = ctOut.Value[i].Coeffs[:level+1-nbRescales]
 		}
-	} else {
-		if ctIn != ctOut {
-			ctOut = ctIn.CopyNew()
-		}
 	}
 
 	return nil
-- 
2.43.0


From 44d533eec920cbf98c2a1c5de4779ab93265c2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:21 +0000
Subject: [PATCH 07/10] fix: multiply by the imaginary part of a constant in
 the coefficient domain

---
 mkckks/evaluator.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index ee461b7..d3016af 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -120,10 +120,7 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 
 	cReal, cImag, scale := eval.getConstAndScale(level, constant)
 
-	// Component wise multiplication of the following vector with the ciphertext:
-	// [a + b*psi_qi^2, ....., a + b*psi_qi^2, a - b*psi_qi^2, ...., a - b*psi_qi^2] mod Qi
-	// [{                  N/2                }{                N/2               }]
-	// Which is equivalent outside of the NTT domain to adding a to the first coefficient of ct0 and b to the N/2-th coefficient of ct0.
+	// Ciphertexts are out of the NTT domain, where the constant a + b*i is the polynomial a + b*X^(N/2).
 	ringQ := eval.params.RingQ()
 	var scaledConst, scaledConstReal, scaledConstImag uint64
 	for i := 0; i < level+1; i++ {
@@ -142,9 +139,21 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 		}
 
 		if cImag != 0 {
-			scaledConstImag = scaleUpExact(cImag, scale, qi)
-			scaledConstImag = ring.MRed(scaledConstImag, ringQ.NttPsi[i][1], qi, mredParams)
-			scaledConst = ring.CRed(scaledConst+scaledConstImag, qi)
+			scaledConstReal = ring.MForm(scaledConstReal, qi, bredParams)
+			scaledConstImag = ring.MForm(scaleUpExact(cImag, scale, qi), qi, bredParams)
+
+			for u := range ct0.Value {
+				p0tmp := ct0.Value[u].Coeffs[i]
+				p1tmp := ctOut.Value[u].Coeffs[i]
+
+				for j, k := 0, ringQ.N>>1; k < ringQ.N; j, k = j+1, k+1 {
+					x, y := p0tmp[j], p0tmp[k]
+					p1tmp[j] = ring.CRed(ring.MRed(x, scaledConstReal, qi, mredParams)+qi-ring.MRed(y, scaledConstImag, qi, mredParams), qi)
+					p1tmp[k] = ring.CRed(ring.MRed(y, scaledConstReal, qi, mredParams)+ring.MRed(x, scaledConstImag, qi, mredParams), qi)
+				}
+			}
+
+			continue
 		}
 
 		scaledConst = ring.MForm(scaledConst, qi, bredParams)
@@ -169,11 +178,6 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 			}
 		}
 
-		if cImag != 0 {
-			scaledConst = ring.CRed(scaledConstReal+(qi-scaledConstImag), qi)
-			scaledConst = ring.MForm(scaledConst, qi, bredParams)
-		}
-
 		for u := range ct0.Value {
 			p0tmp := ct0.Value[u].Coeffs[i]
 			p1tmp := ctOut.Value[u].Coeffs[i]
-- 
2.43.0


From 7b55bcbf25e059744a5604ab24070cdbc0f0b9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:49 +0000
Subject: [PATCH 08/10] fix: give GenKeyPairSparse the owner's id instead of
 reading it from a nil key

---
 mkrlwe/keygen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index 87f3919..00b94d5 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -115,8 +115,8 @@ func (keygen *KeyGenerator) GenKeyPair(id string) (sk *SecretKey, pk *PublicKey)
 }
 
 // GenKeyPairSparse generates a new SecretKey with exactly hw non zero coefficients [1/2, 0, 1/2].
-func (keygen *KeyGenerator) GenKeyPairSparse(hw int) (sk *SecretKey, pk *PublicKey) {
-	sk = keygen.GenSecretKeySparse(hw, sk.ID)
+func (keygen *KeyGenerator) GenKeyPairSparse(hw int, id string) (sk *SecretKey, pk *PublicKey) {
+	sk = keygen.GenSecretKeySparse(hw, id)
 	return sk, keygen.GenPublicKey(sk)
 }
 
-- 
2.43.0


From 1c268c10a79a1c710d1ba893b248372adae39ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:43 +0000
Subject: [PATCH 09/10] fix: divide by Q at its own level in ModDownQPtoP

---
 mkrlwe/basis_extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkrlwe/basis_extension.go b/mkrlwe/basis_extension.go
index 937999f..385d77a 100644
--- a/mkrlwe/basis_extension.go
+++ b/mkrlwe/basis_extension.go
@@ -309,7 +309,7 @@ func (basisextender *FastBasisExtender) ModDownQPtoP(levelQ, levelP int, p1Q, p1
 		p1tmp := p1P.Coeffs[i]
 		p2tmp := p2P.Coeffs[i]
 		p3tmp := polypool.Coeffs[i]
-		params := qi - modDownParams[levelP][i]
+		params := qi - modDownParams[levelQ][i]
 		mredParams := ringP.MredParams[i]
 
 		// Then for each coefficient we compute (P^-1) * (p1[i][j] - polypool[i][j]) mod qi
-- 
2.43.0


From ef856922874fd8aa32e83df14604848888245384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:33 +0000
Subject: [PATCH 10/10] fix: mini-batches whose size is not a multiple of the
 records per ciphertext

A batch filled all rows of its last ciphertext, so it also trained on records of the
following batches (while still dividing by batchSize) and the following batches started
too late.
---
 lr/lr_minibatch.go     | 9 ++++-----
 lr/lr_minibatch_toy.go | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/lr/lr_minibatch.go b/lr/lr_minibatch.go
index 40f7c8e..b54c161 100644
--- a/lr/lr_minibatch.go
+++ b/lr/lr_minibatch.go
@@ -145,8 +145,8 @@ func main() {
 		for i := 0; i < numCtPerBatch; i++ {
 			z_vector := make([]complex128, numSlots)
 			for j := 0; j < realnumDataPerCt; j++ {
-				dataId := b*numCtPerBatch*realnumDataPerCt + i*realnumDataPerCt + j
-				if dataId >= numTrain {
+				dataId := b*batchSize + i*realnumDataPerCt + j
+				if dataId >= (b+1)*batchSize {
 					break
 				}
 				for k := 0; k < numFeature; k++ {
@@ -165,9 +165,8 @@ func main() {
 		for i := 0; i < numCtPerBatch; i++ {
 			label_vector[b][i] = make([]complex128, numSlots)
 			for j := 0; j < realnumDataPerCt; j++ {
-				dataId := b*numCtPerBatch*realnumDataPerCt + i*realnumDataPerCt + j
-				//dataId := b*numCtPerBatch + i*realnumDataPerCt + j
-				if dataId >= numTrain {
+				dataId := b*batchSize + i*realnumDataPerCt + j
+				if dataId >= (b+1)*batchSize {
 					break
 				}
 				for k := 0; k < numFeature; k++ {
diff --git a/lr/lr_minibatch_toy.go b/lr/lr_minibatch_toy.go
index 2c6997f..5fd2c8a 100644
--- a/lr/lr_minibatch_toy.go
+++ b/lr/lr_minibatch_toy.go
@@ -173,8 +173,8 @@ func main() {
 		for i := 0; i < numCtPerBatch; i++ {
 			z_vector := make([]complex128, numSlots)
 			for j := 0; j < realnumDataPerCt; j++ {
-				dataId := b*numCtPerBatch*realnumDataPerCt + i*realnumDataPerCt + j
-				if dataId >= numTrain {
+				dataId := b*batchSize + i*realnumDataPerCt + j
+				if dataId >= (b+1)*batchSize {
 					break
 				}
 				for k := 0; k < numFeature; k++ {
@@ -193,9 +193,8 @@ func main() {
 		for i := 0; i < numCtPerBatch; i++ {
 			label_vector[b][i] = make([]complex128, numSlots)
 			for j := 0; j < realnumDataPerCt; j++ {
-				dataId := b*numCtPerBatch*realnumDataPerCt + i*realnumDataPerCt + j
-				//dataId := b*numCtPerBatch + i*realnumDataPerCt + j
-				if dataId >= numTrain {
+				dataId := b*batchSize + i*realnumDataPerCt + j
+				if dataId >= (b+1)*batchSize {
 					break
 				}
 				for k := 0; k < numFeature; k++ {
-- 
2.43.0

