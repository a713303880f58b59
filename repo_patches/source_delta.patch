From dc16e405dddee0eddf1e684e753aa08e9bd5705f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 01/12] fix: normalise a negative rotation index before looking
 up its CRS in GenRotationKey

---
 mkrlwe/keygen.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index b93b422..3937b25 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -198,17 +198,17 @@ func (keygen *KeyGenerator) GenRotationKey(rotidx int, sk *SecretKey) (rk *Rotat
 	beta := params.Beta(levelQ)
 	ringQP := params.RingQP()
 
+	// adjust rotidx
+	for rotidx < 0 {
+		rotidx += (params.N() / 2)
+	}
+
 	// check CRS for given rot idx exists
 	_, in := params.CRS[rotidx]
 	if !in {
 		panic("Cannot GenRotationKey: CRS for given rot idx is not generated")
 	}
 
-	// adjust rotidx
-	for rotidx < 0 {
-		rotidx += (params.N() / 2)
-	}
-
 	galEl := keygen.params.GaloisElementForColumnRotationBy(rotidx)
 	galEl = keygen.params.InverseGaloisElement(galEl)
 	index := ring.PermuteNTTIndex(galEl, uint64(params.N()))
-- 
2.43.0


From 8f79e529edac19ecd040d2939e1730a6d470dc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:26 +0000
Subject: [PATCH 02/12] fix: GenKeyPairSparse dereferenced its own nil result;
 take the party id like GenKeyPair

---
 mkrlwe/keygen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkrlwe/keygen.go b/mkrlwe/keygen.go
index 3937b25..fa0b361 100644
--- a/mkrlwe/keygen.go
+++ b/mkrlwe/keygen.go
@@ -115,8 +115,8 @@ func (keygen *KeyGenerator) GenKeyPair(id string) (sk *SecretKey, pk *PublicKey)
 }
 
 // GenKeyPairSparse generates a new SecretKey with exactly hw non zero coefficients [1/2, 0, 1/2].
-func (keygen *KeyGenerator) GenKeyPairSparse(hw int) (sk *SecretKey, pk *PublicKey) {
-	sk = keygen.GenSecretKeySparse(hw, sk.ID)
+func (keygen *KeyGenerator) GenKeyPairSparse(hw int, id string) (sk *SecretKey, pk *PublicKey) {
+	sk = keygen.GenSecretKeySparse(hw, id)
 	return sk, keygen.GenPublicKey(sk)
 }
 
-- 
2.43.0


From b60598085c822715a749e066e45b0cc8cd47f402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:28 +0000
Subject: [PATCH 03/12] fix: Conjugate permuted limbs the ciphertext does not
 have and panicked below the maximum level

---
 mkrlwe/keyswitch.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mkrlwe/keyswitch.go b/mkrlwe/keyswitch.go
index 59b2a35..c692658 100644
--- a/mkrlwe/keyswitch.go
+++ b/mkrlwe/keyswitch.go
@@ -312,8 +312,18 @@ func (ks *KeySwitcher) Conjugate(ctIn *Ciphertext, ckSet *ConjugationKeySet, ctO
 	}
 
 	// permute ctIn and put it to ctOut
+	mask := uint64(ringQ.N - 1)
+	logN := uint64(bits.Len64(mask))
 	for id := range ctIn.Value {
-		ringQ.Permute(ctIn.Value[id], galEl, ctOut.Value[id])
+		for i := uint64(0); i < uint64(ringQ.N); i++ {
+			indexRaw := i * galEl
+			index := indexRaw & mask
+			tmp := (indexRaw >> logN) & 1
+
+			for j, qi := range ringQ.Modulus[:level+1] {
+				ctOut.Value[id].Coeffs[j][index] = ctIn.Value[id].Coeffs[j][i]*(tmp^1) | (qi-ctIn.Value[id].Coeffs[j][i])*tmp
+			}
+		}
 	}
 
 	// c0 <- c0 + IP(c_i, rk_i)
-- 
2.43.0


From ab5cd4734cbd1640e7ff7fc2bf806d7016fdc062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:43 +0000
Subject: [PATCH 04/12] fix: ModDownQPtoP indexed the inverse of Q by the level
 of P

---
 mkrlwe/basis_extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkrlwe/basis_extension.go b/mkrlwe/basis_extension.go
index 23574d3..e6514dd 100644
--- a/mkrlwe/basis_extension.go
+++ b/mkrlwe/basis_extension.go
@@ -309,7 +309,7 @@ func (basisextender *FastBasisExtender) ModDownQPtoP(levelQ, levelP int, p1Q, p1
 		p1tmp := p1P.Coeffs[i]
 		p2tmp := p2P.Coeffs[i]
 		p3tmp := polypool.Coeffs[i]
-		params := qi - modDownParams[levelP][i]
+		params := qi - modDownParams[levelQ][i]
 		mredParams := ringP.MredParams[i]
 
 		// Then for each coefficient we compute (P^-1) * (p1[i][j] - polypool[i][j]) mod qi
-- 
2.43.0


From 7bf9bc037dd92283b6ae0dcfb024925e05ebc6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 05/12] fix: the plaintext of mkckks.Decryptor stayed truncated
 after decrypting at a low level

---
 mkckks/decryptor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mkckks/decryptor.go b/mkckks/decryptor.go
index 9bec0fd..279489e 100644
--- a/mkckks/decryptor.go
+++ b/mkckks/decryptor.go
@@ -1,6 +1,7 @@
 package mkckks
 
 import "github.com/ldsec/lattigo/v2/ckks"
+import "github.com/ldsec/lattigo/v2/rlwe"
 import "mk-lattigo/mkrlwe"
 
 type Decryptor struct {
@@ -34,6 +35,7 @@ func (dec *Decryptor) PartialDecrypt(ct *Ciphertext, sk *mkrlwe.SecretKey) {
 func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet) (msg *Message) {
 	ctTmp := ciphertext.CopyNew()
 
+	dec.ptxtPool.Plaintext = rlwe.NewPlaintext(dec.params.Parameters.Parameters, ctTmp.Level())
 	dec.Decryptor.Decrypt(ctTmp.Ciphertext, skSet, dec.ptxtPool.Plaintext)
 	dec.ptxtPool.Scale = ctTmp.Scale
 	msg = new(Message)
-- 
2.43.0


From 8217a1fa538f0e8de93b4f3b062078df54af0939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 06/12] fix: Rescale indexed the modulus chain below its first
 prime

---
 mkckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 0fd7c22..b947cc2 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -377,7 +377,7 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 	var nbRescales int
 	// Divides the scale by each moduli of the modulus chain as long as the scale isn't smaller than minScale/2
 	// or until the output Level() would be zero
-	for ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 && ctIn.Level()-nbRescales >= 0 {
+	for ctIn.Level()-nbRescales > 0 && ctOut.Scale/float64(ringQ.Modulus[ctIn.Level()-nbRescales]) >= minScale/2 {
 		ctOut.Scale /= (float64(ringQ.Modulus[ctIn.Level()-nbRescales]))
 		nbRescales++
 	}
-- 
2.43.0


From a0b83618b55af6dc2612a9500b68ccdcb35eaa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 07/12] fix: Rescale overwrote the last residues of its input

---
 mkckks/evaluator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index b947cc2..4f669f8 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -384,6 +384,10 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 
 	if nbRescales > 0 {
 		level := ctIn.Level()
+		if ctIn != ctOut {
+			// the division overwrites its operand
+			ctIn = ctIn.CopyNew()
+		}
 		for i := range ctOut.Value {
 			ringQ.DivRoundByLastModulusManyLvl(level, nbRescales, ctIn.Value[i], eval.polyQPool, ctOut.Value[i])
 			ctOut.Value[i].Coeffs = ctOut.Value[i].Coeffs[:level+1-nbRescales]
-- 
2.43.0


From 863d91617cb088d2645d2aa59274ada23b6d5952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 08/12] fix: Rescale left its output unset when there was
 nothing to divide

---
 mkckks/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 4f669f8..6556e6a 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -394,7 +394,7 @@ func (eval *Evaluator) Rescale(ctIn *Ciphertext, minScale float64, ctOut *Cipher
 		}
 	} else {
 		if ctIn != ctOut {
-			ctOut = ctIn.CopyNew()
+			ctOut.Ciphertext.Copy(ctIn.Ciphertext)
 		}
 	}
 
-- 
2.43.0


From b0908bfac59fd52aae67f829f6e56853f65048f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:19 +0000
Subject: [PATCH 09/12] fix: MulPtxtNew transformed plaintexts that are in the
 NTT domain already

---
 mkckks/evaluator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 6556e6a..2cfa56f 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -471,7 +471,11 @@ func (eval *Evaluator) MulPtxtNew(ct *Ciphertext, pt *ckks.Plaintext) (ctOut *Ci
 
 	level := ct.Level()
 
-	eval.params.RingQ().NTTLvl(level, pt.Value, eval.polyQPool)
+	if pt.Value.IsNTT {
+		ring.CopyValuesLvl(level, pt.Value, eval.polyQPool)
+	} else {
+		eval.params.RingQ().NTTLvl(level, pt.Value, eval.polyQPool)
+	}
 	eval.params.RingQ().MFormLvl(level, eval.polyQPool, eval.polyQPool)
 
 	for id := range ct.Value {
-- 
2.43.0


From c27ec89e4f79442edab00c9094c5f372a831367e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:20 +0000
Subject: [PATCH 10/12] fix: MultByConst applied the NTT-domain form of a
 complex constant to coefficient-domain ciphertexts

---
 mkckks/evaluator.go | 58 +++++++--------------------------------------
 1 file changed, 9 insertions(+), 49 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 2cfa56f..3a2e701 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -7,7 +7,6 @@ import "github.com/ldsec/lattigo/v2/ckks"
 import "github.com/ldsec/lattigo/v2/utils"
 
 import "math"
-import "unsafe"
 import "errors"
 
 type Evaluator struct {
@@ -120,12 +119,9 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 
 	cReal, cImag, scale := eval.getConstAndScale(level, constant)
 
-	// Component wise multiplication of the following vector with the ciphertext:
-	// [a + b*psi_qi^2, ....., a + b*psi_qi^2, a - b*psi_qi^2, ...., a - b*psi_qi^2] mod Qi
-	// [{                  N/2                }{                N/2               }]
-	// Which is equivalent outside of the NTT domain to adding a to the first coefficient of ct0 and b to the N/2-th coefficient of ct0.
+	// Ciphertexts are not in the NTT domain: multiplication by the polynomial a + b*X^{N/2}, which the slots evaluate to a + b*i
 	ringQ := eval.params.RingQ()
-	var scaledConst, scaledConstReal, scaledConstImag uint64
+	var scaledConstReal, scaledConstImag uint64
 	for i := 0; i < level+1; i++ {
 
 		qi := ringQ.Modulus[i]
@@ -134,62 +130,26 @@ func (eval *Evaluator) MultByConst(ct0 *Ciphertext, constant interface{}, ctOut
 
 		scaledConstReal = 0
 		scaledConstImag = 0
-		scaledConst = 0
 
 		if cReal != 0 {
-			scaledConstReal = scaleUpExact(cReal, scale, qi)
-			scaledConst = scaledConstReal
+			scaledConstReal = ring.MForm(scaleUpExact(cReal, scale, qi), qi, bredParams)
 		}
 
 		if cImag != 0 {
-			scaledConstImag = scaleUpExact(cImag, scale, qi)
-			scaledConstImag = ring.MRed(scaledConstImag, ringQ.NttPsi[i][1], qi, mredParams)
-			scaledConst = ring.CRed(scaledConst+scaledConstImag, qi)
+			scaledConstImag = ring.MForm(scaleUpExact(cImag, scale, qi), qi, bredParams)
 		}
 
-		scaledConst = ring.MForm(scaledConst, qi, bredParams)
-
 		for u := range ct0.Value {
 			p0tmp := ct0.Value[u].Coeffs[i]
 			p1tmp := ctOut.Value[u].Coeffs[i]
 
-			for j := 0; j < ringQ.N>>1; j = j + 8 {
-
-				x := (*[8]uint64)(unsafe.Pointer(&p0tmp[j]))
-				z := (*[8]uint64)(unsafe.Pointer(&p1tmp[j]))
-
-				z[0] = ring.MRed(x[0], scaledConst, qi, mredParams)
-				z[1] = ring.MRed(x[1], scaledConst, qi, mredParams)
-				z[2] = ring.MRed(x[2], scaledConst, qi, mredParams)
-				z[3] = ring.MRed(x[3], scaledConst, qi, mredParams)
-				z[4] = ring.MRed(x[4], scaledConst, qi, mredParams)
-				z[5] = ring.MRed(x[5], scaledConst, qi, mredParams)
-				z[6] = ring.MRed(x[6], scaledConst, qi, mredParams)
-				z[7] = ring.MRed(x[7], scaledConst, qi, mredParams)
-			}
-		}
+			for j := 0; j < ringQ.N>>1; j++ {
 
-		if cImag != 0 {
-			scaledConst = ring.CRed(scaledConstReal+(qi-scaledConstImag), qi)
-			scaledConst = ring.MForm(scaledConst, qi, bredParams)
-		}
+				x := p0tmp[j]
+				y := p0tmp[j+ringQ.N>>1]
 
-		for u := range ct0.Value {
-			p0tmp := ct0.Value[u].Coeffs[i]
-			p1tmp := ctOut.Value[u].Coeffs[i]
-			for j := ringQ.N >> 1; j < ringQ.N; j = j + 8 {
-
-				x := (*[8]uint64)(unsafe.Pointer(&p0tmp[j]))
-				z := (*[8]uint64)(unsafe.Pointer(&p1tmp[j]))
-
-				z[0] = ring.MRed(x[0], scaledConst, qi, mredParams)
-				z[1] = ring.MRed(x[1], scaledConst, qi, mredParams)
-				z[2] = ring.MRed(x[2], scaledConst, qi, mredParams)
-				z[3] = ring.MRed(x[3], scaledConst, qi, mredParams)
-				z[4] = ring.MRed(x[4], scaledConst, qi, mredParams)
-				z[5] = ring.MRed(x[5], scaledConst, qi, mredParams)
-				z[6] = ring.MRed(x[6], scaledConst, qi, mredParams)
-				z[7] = ring.MRed(x[7], scaledConst, qi, mredParams)
+				p1tmp[j] = ring.CRed(ring.MRed(x, scaledConstReal, qi, mredParams)+qi-ring.MRed(y, scaledConstImag, qi, mredParams), qi)
+				p1tmp[j+ringQ.N>>1] = ring.CRed(ring.MRed(y, scaledConstReal, qi, mredParams)+ring.MRed(x, scaledConstImag, qi, mredParams), qi)
 			}
 		}
 	}
-- 
2.43.0


From cefd42666106606dd985ecc9d725218e9790327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 11/12] fix: mkbfv.Decrypt decoded a partially decrypted
 ciphertext when a secret key was missing

---
 mkbfv/decryptor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mkbfv/decryptor.go b/mkbfv/decryptor.go
index 6624c83..c649912 100644
--- a/mkbfv/decryptor.go
+++ b/mkbfv/decryptor.go
@@ -49,6 +49,10 @@ func (dec *Decryptor) Decrypt(ciphertext *Ciphertext, skSet *mkrlwe.SecretKeySet
 		}
 	}
 
+	if len(ctTmp.Value) > 1 {
+		panic("Cannot Decrypt: there is a missing secretkey")
+	}
+
 	msg = NewMessage(dec.params)
 	dec.ptxtPool.Value = ctTmp.Value["0"]
 	dec.encoder.DecodeInt(dec.ptxtPool, msg.Value)
-- 
2.43.0


From 0a61a33ef12375b5851ccef663e398bea2c643cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:23 +0000
Subject: [PATCH 12/12] fix: getConstAndScale took integer constants beyond
 2^63 for constants with a fractional part

---
 mkckks/evaluator.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/mkckks/evaluator.go b/mkckks/evaluator.go
index 3a2e701..52d0eba 100644
--- a/mkckks/evaluator.go
+++ b/mkckks/evaluator.go
@@ -46,19 +46,13 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = imag(constant)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
-
-			if valueFloat != 0 {
+			if cReal != math.Trunc(cReal) {
 				scale = float64(eval.params.RingQ().Modulus[level])
 			}
 		}
 
 		if cImag != 0 {
-			valueInt := int64(cImag)
-			valueFloat := cImag - float64(valueInt)
-
-			if valueFloat != 0 {
+			if cImag != math.Trunc(cImag) {
 				scale = float64(eval.params.RingQ().Modulus[level])
 			}
 		}
@@ -68,10 +62,7 @@ func (eval *Evaluator) getConstAndScale(level int, constant interface{}) (cReal,
 		cImag = float64(0)
 
 		if cReal != 0 {
-			valueInt := int64(cReal)
-			valueFloat := cReal - float64(valueInt)
-
-			if valueFloat != 0 {
+			if cReal != math.Trunc(cReal) {
 				scale = float64(eval.params.RingQ().Modulus[level])
 			}
 		}
-- 
2.43.0

