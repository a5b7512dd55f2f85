From e8fd00955b1a00abd7b82a97c90dbcd683723ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:16 +0000
Subject: [PATCH 01/19] fix: bigpoly copies and transforms must not touch
 memory past ranks below 8

---
 math/bigpoly/ntt.go  | 60 +++-----------------------------------------
 math/bigpoly/poly.go | 17 +------------
 math/bigpoly/vec.go  | 22 ++++++++++++++++
 3 files changed, 27 insertions(+), 72 deletions(-)

diff --git a/math/bigpoly/ntt.go b/math/bigpoly/ntt.go
index d95489c..9695307 100644
--- a/math/bigpoly/ntt.go
+++ b/math/bigpoly/ntt.go
@@ -96,40 +96,14 @@ func NewCyclicTransformer[E bignum.Uint[E]](rank int) *CyclicTransformer[E] {
 
 // FwdNTTTo computes vOut = NTT(v).
 func (ntt *CyclicTransformer[E]) FwdNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
-	}
+	copyVecTo(vOut, v)
 
 	nttInPlace(vOut, ntt.tw)
 }
 
 // InvNTTTo computes vOut = INTT(v).
 func (ntt *CyclicTransformer[E]) InvNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
-	}
+	copyVecTo(vOut, v)
 
 	inttInPlace(vOut, ntt.twInv)
 	scalarMulVecTo(vOut, vOut, ntt.rankInv)
@@ -204,40 +178,14 @@ func NewCyclotomicTransformer[E bignum.Uint[E]](rank int) *CyclotomicTransformer
 
 // FwdNTTTo computes vOut = NTT(v).
 func (ntt *CyclotomicTransformer[E]) FwdNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
-	}
+	copyVecTo(vOut, v)
 
 	nttInPlace(vOut, ntt.tw)
 }
 
 // InvNTTTo computes vOut = INTT(v).
 func (ntt *CyclotomicTransformer[E]) InvNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
-	}
+	copyVecTo(vOut, v)
 
 	inttInPlace(vOut, ntt.twInv)
 	scalarMulVecTo(vOut, vOut, ntt.rankInv)
diff --git a/math/bigpoly/poly.go b/math/bigpoly/poly.go
index 8674f9e..1bd6146 100644
--- a/math/bigpoly/poly.go
+++ b/math/bigpoly/poly.go
@@ -2,7 +2,6 @@ package bigpoly
 
 import (
 	"bytes"
-	"unsafe"
 
 	"github.com/sp301415/ringo-snark/math/bignum"
 )
@@ -42,21 +41,7 @@ func (p *Poly[E]) Marshal() []byte {
 
 // CopyFrom copies p0 to p.
 func (p *Poly[E]) CopyFrom(p0 *Poly[E]) {
-	for i := 0; i < len(p.Coeffs); i += 8 {
-		cOut := (*[8]E)(unsafe.Pointer(&p.Coeffs[i]))
-		c0 := (*[8]E)(unsafe.Pointer(&p0.Coeffs[i]))
-
-		cOut[0].Set(c0[0])
-		cOut[1].Set(c0[1])
-		cOut[2].Set(c0[2])
-		cOut[3].Set(c0[3])
-
-		cOut[4].Set(c0[4])
-		cOut[5].Set(c0[5])
-		cOut[6].Set(c0[6])
-		cOut[7].Set(c0[7])
-	}
-
+	copyVecTo(p.Coeffs, p0.Coeffs)
 	p.IsNTT = p0.IsNTT
 }
 
diff --git a/math/bigpoly/vec.go b/math/bigpoly/vec.go
index 8c39c46..256b18d 100644
--- a/math/bigpoly/vec.go
+++ b/math/bigpoly/vec.go
@@ -6,6 +6,28 @@ import (
 	"github.com/sp301415/ringo-snark/math/bignum"
 )
 
+func copyVecTo[E bignum.Uint[E]](xOut, x0 []E) {
+	M := (len(xOut) >> 3) << 3
+	for i := 0; i < M; i += 8 {
+		wOut := (*[8]E)(unsafe.Pointer(&xOut[i]))
+		w0 := (*[8]E)(unsafe.Pointer(&x0[i]))
+
+		wOut[0].Set(w0[0])
+		wOut[1].Set(w0[1])
+		wOut[2].Set(w0[2])
+		wOut[3].Set(w0[3])
+
+		wOut[4].Set(w0[4])
+		wOut[5].Set(w0[5])
+		wOut[6].Set(w0[6])
+		wOut[7].Set(w0[7])
+	}
+
+	for i := M; i < len(xOut); i++ {
+		xOut[i].Set(x0[i])
+	}
+}
+
 func addVecTo[E bignum.Uint[E]](xOut, x0, x1 []E) {
 	M := (len(xOut) >> 3) << 3
 	for i := 0; i < M; i += 8 {
-- 
2.43.0


From 5a9c55f2be5c028c2848994ecf0c2028a654288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:26 +0000
Subject: [PATCH 02/19] fix: NewCyclicTransformer does not terminate for rank
 one

---
 math/bigpoly/ntt.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/math/bigpoly/ntt.go b/math/bigpoly/ntt.go
index 9695307..59930c5 100644
--- a/math/bigpoly/ntt.go
+++ b/math/bigpoly/ntt.go
@@ -37,6 +37,17 @@ func NewCyclicTransformer[E bignum.Uint[E]](rank int) *CyclicTransformer[E] {
 	}
 	pBig := new(big.Int).Add(pNegOne, big.NewInt(1))
 
+	if rank == 1 {
+		// The transform of rank one is the identity, and has no twiddle factor.
+		one := z.New().SetUint64(1)
+		return &CyclicTransformer[E]{
+			rank:    1,
+			tw:      []E{one},
+			twInv:   []E{one},
+			rankInv: one,
+		}
+	}
+
 	t1 := new(big.Int).Div(pNegOne, big.NewInt(int64(rank)))
 	t2 := big.NewInt(int64(rank >> 1))
 
-- 
2.43.0


From d291cbb3996492c2870736db51f8a693734254d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:28 +0000
Subject: [PATCH 03/19] fix: UniformSampler.Read returns stream bytes instead
 of XORing them into the buffer

---
 math/csprng/uniform.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/csprng/uniform.go b/math/csprng/uniform.go
index bdb915e..f1d06de 100644
--- a/math/csprng/uniform.go
+++ b/math/csprng/uniform.go
@@ -56,6 +56,7 @@ func NewUniformSamplerWithSeed(seed []byte) *UniformSampler {
 // Read implements the [io.Reader] interface.
 // It always succeeds, with n == len(p) and err == nil.
 func (s *UniformSampler) Read(p []byte) (n int, err error) {
+	clear(p)
 	s.prng.XORKeyStream(p, p)
 	return len(p), nil
 }
-- 
2.43.0


From ca9ec3d33e9ba44d1e8d7581e94f9d5e5fe12090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:51 +0000
Subject: [PATCH 04/19] fix: RNS reconstruction of (Q-1)/2 is not centred

---
 jindo/rns.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jindo/rns.go b/jindo/rns.go
index 01a7302..ed1e319 100644
--- a/jindo/rns.go
+++ b/jindo/rns.go
@@ -97,7 +97,7 @@ func (r *RNSReconstructor) reconstructTo(vOut []*big.Int, p ring.Poly) {
 		}
 		r.buf.accTmp.DivMod(r.buf.acc, r.ringQ.Modulus(), r.buf.acc)
 
-		if r.buf.acc.Cmp(r.qHalf) >= 0 {
+		if r.buf.acc.Cmp(r.qHalf) > 0 {
 			r.buf.acc.Sub(r.buf.acc, r.ringQ.Modulus())
 		}
 		vOut[i].Set(r.buf.acc)
-- 
2.43.0


From 37617f339e2f3fe95c16a106b27421887e9e18b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:52 +0000
Subject: [PATCH 05/19] fix: commitments live in the outer commitment ring

---
 jindo/entities.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jindo/entities.go b/jindo/entities.go
index 4c27ac9..4784494 100644
--- a/jindo/entities.go
+++ b/jindo/entities.go
@@ -85,7 +85,7 @@ type Commitment struct {
 func NewCommitment(params Parameters) *Commitment {
 	com := make([]ring.Poly, params.outMSISRank)
 	for i := range com {
-		com[i] = params.ringQ.NewPoly()
+		com[i] = params.ringQOut.NewPoly()
 	}
 
 	return &Commitment{
@@ -165,7 +165,7 @@ func NewProof(params Parameters) *Proof {
 
 	inCom := make([]ring.Poly, params.inComDcmpLen)
 	for i := 0; i < params.inComDcmpLen; i++ {
-		inCom[i] = params.ringQ.NewPoly()
+		inCom[i] = params.ringQOut.NewPoly()
 	}
 
 	return &Proof{
-- 
2.43.0


From 37de2848c9f17531c04c3db93769803c6140c870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:54 +0000
Subject: [PATCH 06/19] fix: bind the claimed evaluations before deriving the
 batching challenges

---
 jindo/prover.go   | 16 +++++++++++-----
 jindo/verifier.go |  6 ++++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/jindo/prover.go b/jindo/prover.go
index 1e9642e..efbe5e6 100644
--- a/jindo/prover.go
+++ b/jindo/prover.go
@@ -217,12 +217,20 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 		}
 	}
 
+	evals := make([]E, p.params.batch)
+	for i := 0; i < p.params.batch; i++ {
+		evals[i] = (&bigpoly.Poly[E]{Coeffs: v[i]}).Evaluate(x)
+	}
+
 	oracle := sha3.NewSHAKE128()
 	p.ck.WriteRawTo(oracle)
 	for i := range p.params.batch {
 		com[i].WriteRawTo(oracle)
 	}
 	oracle.Write(x.Marshal())
+	for i := range p.params.batch {
+		oracle.Write(evals[i].Marshal())
+	}
 
 	var batchOut, batch []ring.Poly
 
@@ -245,6 +253,9 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 			com[i].WriteRawTo(oracle)
 		}
 		oracle.Write(x.Marshal())
+		for i := range p.params.batch {
+			oracle.Write(evals[i].Marshal())
+		}
 		oracle.Write(batchBytes)
 
 		openBatch = NewOpening(p.params)
@@ -315,11 +326,6 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 		}
 	}
 
-	evals := make([]E, p.params.batch)
-	for i := 0; i < p.params.batch; i++ {
-		evals[i] = (&bigpoly.Poly[E]{Coeffs: v[i]}).Evaluate(x)
-	}
-
 	return evals, pf
 }
 
diff --git a/jindo/verifier.go b/jindo/verifier.go
index d54ff81..03652cc 100644
--- a/jindo/verifier.go
+++ b/jindo/verifier.go
@@ -59,6 +59,9 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 		com[i].WriteRawTo(oracle)
 	}
 	oracle.Write(x.Marshal())
+	for i := 0; i < v.params.batch; i++ {
+		oracle.Write(y[i].Marshal())
+	}
 
 	var batch, batchOut []ring.Poly
 	if v.params.batch > 1 {
@@ -79,6 +82,9 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 			com[i].WriteRawTo(oracle)
 		}
 		oracle.Write(x.Marshal())
+		for i := 0; i < v.params.batch; i++ {
+			oracle.Write(y[i].Marshal())
+		}
 		oracle.Write(batchBytes)
 	}
 
-- 
2.43.0


From 868825a372511a890dbbcaf336eea2f4a0c543c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:40 +0000
Subject: [PATCH 07/19] fix: reject malformed commitments and proofs instead of
 crashing

---
 jindo/utils.go    | 25 +++++++++++++++++++++++++
 jindo/verifier.go | 28 +++++++++++++++++++++++++---
 2 files changed, 50 insertions(+), 3 deletions(-)

diff --git a/jindo/utils.go b/jindo/utils.go
index c9784a0..b4f1425 100644
--- a/jindo/utils.go
+++ b/jindo/utils.go
@@ -45,6 +45,31 @@ func encodeChallengeTo(params Parameters, ringQ *ring.Ring, pOut ring.Poly, chal
 	ringQ.NTT(pOut, pOut)
 }
 
+// isPolyVec checks if p is a vector of n elements of ringQ, in reduced form.
+func isPolyVec(ringQ *ring.Ring, n int, p []ring.Poly) bool {
+	if len(p) != n {
+		return false
+	}
+
+	for i := range p {
+		if len(p[i].Coeffs) != ringQ.ModuliChainLength() {
+			return false
+		}
+		for l := range p[i].Coeffs {
+			if len(p[i].Coeffs[l]) != ringQ.N() {
+				return false
+			}
+			for _, c := range p[i].Coeffs[l] {
+				if c >= ringQ.SubRings[l].Modulus {
+					return false
+				}
+			}
+		}
+	}
+
+	return true
+}
+
 // setCoeffSigned sets the i-th coefficient of pOut to c.
 func setCoeffSigned(ringQ *ring.Ring, pOut ring.Poly, c int64, i int) {
 	if c >= 0 {
diff --git a/jindo/verifier.go b/jindo/verifier.go
index 03652cc..35704a1 100644
--- a/jindo/verifier.go
+++ b/jindo/verifier.go
@@ -48,9 +48,8 @@ func NewVerifier[E bignum.Uint[E]](params Parameters, crs []byte) *Verifier[E] {
 
 // Verify verfies the polynomial commitment.
 func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
-	switch {
-	case len(com) != v.params.batch || len(y) != v.params.batch:
-		panic("len(v) != params.batch")
+	if !v.isWellFormed(com, y, pf) {
+		return false
 	}
 
 	oracle := sha3.NewSHAKE128()
@@ -138,6 +137,29 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 	return true
 }
 
+// isWellFormed checks if the commitments, the evaluations and the proof have the shape given by the parameters.
+func (v *Verifier[E]) isWellFormed(com []*Commitment, y []E, pf *Proof) bool {
+	if len(com) != v.params.batch || len(y) != v.params.batch || pf == nil {
+		return false
+	}
+
+	var z E
+	for i := range v.params.batch {
+		if any(y[i]) == any(z) {
+			return false
+		}
+		if com[i] == nil || !isPolyVec(v.params.ringQOut, v.params.outMSISRank, com[i].Value) {
+			return false
+		}
+	}
+
+	return isPolyVec(v.params.ringQOut, v.params.inComDcmpLen, pf.InCommit) &&
+		isPolyVec(v.params.ringQ, v.params.cols, pf.Partial) &&
+		isPolyVec(v.params.ringQ, 1, []ring.Poly{pf.PartialMask}) &&
+		isPolyVec(v.params.ringQ, v.params.rows, pf.Encode) &&
+		isPolyVec(v.params.ringQ, v.params.mlweRank+v.params.inMSISRank, pf.MLWE)
+}
+
 // verifyOuterCommitment verfies the outer commitment.
 func (v *Verifier[E]) verifyOuterCommitment(batch []ring.Poly, com []*Commitment, pf, pfInv *Proof) bool {
 	inDcmpInv := append(pfInv.InCommit, make([]ring.Poly, v.params.outMSISRank)...)
-- 
2.43.0


From 7a41c25d71a2a7e5b48da8ba61e4c3524d17d1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:43 +0000
Subject: [PATCH 08/19] fix: batch constraints with independent weights

---
 buckler/prover.go   | 2 +-
 buckler/verifier.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/buckler/prover.go b/buckler/prover.go
index 4d2a4c1..2117e63 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -371,7 +371,7 @@ func (p *Prover[E]) evalCircuit(batchConst E, constraints []ArithmeticConstraint
 			}
 			p.polyEval.AddTo(eval, eval, term)
 		}
-		p.polyEval.ScalarMulTo(eval, eval, batchConst)
+		p.polyEval.ScalarMulTo(pOut, pOut, batchConst)
 		p.polyEval.AddTo(pOut, pOut, eval)
 	}
 
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 8f6558d..a28631e 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -232,7 +232,7 @@ func (v *Verifier[E]) evalCircuit(batchConst E, constraints []ArithmeticConstrai
 			}
 			eval.Add(eval, term)
 		}
-		eval.Mul(eval, batchConst)
+		out.Mul(out, batchConst)
 		out.Add(out, eval)
 	}
 
-- 
2.43.0


From f6d65ad804231127646c20e1e4d804484e1df3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:45 +0000
Subject: [PATCH 09/19] fix: sum checks must enforce the declared sum

---
 buckler/verifier.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/buckler/verifier.go b/buckler/verifier.go
index a28631e..a7d17da 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -311,5 +311,15 @@ func (v *Verifier[E]) sumCheck(batchConst, sumCheckMaskEval, evalPoint, vanishEv
 	test.Add(test, rem)
 	test.Add(test, sumCheckMaskSum)
 
+	// The constant term of the remainder is the sum over the slots divided by rank.
+	sum := z.New()
+	for _, s := range v.ctx.sumCheckSums {
+		sum.Mul(sum, batchConst)
+		sum.Add(sum, z.New().SetBigInt(s))
+	}
+	sum.Mul(sum, batchConst)
+	sum.Mul(sum, z.New().Inverse(z.New().SetUint64(uint64(v.ctx.rank))))
+	test.Add(test, sum)
+
 	return eval.Cmp(test) == 0
 }
-- 
2.43.0


From ef0f7bedfa1dbfd4f1624cb7babf5d43cdc43c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 10/19] fix: bind public witnesses to the challenges

---
 buckler/prover.go   | 8 ++++++++
 buckler/verifier.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/buckler/prover.go b/buckler/prover.go
index 2117e63..442e9b5 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -128,6 +128,14 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 		wData.pwEcdNTT[i] = p.polyEval.NTT(wData.pwEcd[i])
 	}
 
+	for i := range wData.pw {
+		for j := range wData.pw[i] {
+			oracleBuf.Write(wData.pw[i][j].Marshal())
+		}
+		oracle.Bind("projConst", oracleBuf.Bytes())
+		oracleBuf.Reset()
+	}
+
 	wData.wEcd = make([]*bigpoly.Poly[E], p.ctx.wCnt)
 	wData.wEcdNTT = make([]*bigpoly.Poly[E], p.ctx.wCnt)
 	coms := make([]*jindo.Commitment, p.ctx.batch())
diff --git a/buckler/verifier.go b/buckler/verifier.go
index a7d17da..715686f 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -73,6 +73,14 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 		pwEcd[i] = v.ecd.Encode(pw[i])
 	}
 
+	for i := range pw {
+		for j := range pw[i] {
+			oracleBuf.Write(pw[i][j].Marshal())
+		}
+		oracle.Bind("projConst", oracleBuf.Bytes())
+		oracleBuf.Reset()
+	}
+
 	for i := range v.ctx.wCnt {
 		isFirstRound := true
 		for j := range v.ctx.wSecond {
-- 
2.43.0


From d8f8ba7a2456eda750e9ea804b719cfd6c90fd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:40 +0000
Subject: [PATCH 11/19] fix: propagate errors of nested circuit fields

---
 buckler/compile.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/buckler/compile.go b/buckler/compile.go
index 6fe2285..01d1364 100644
--- a/buckler/compile.go
+++ b/buckler/compile.go
@@ -68,15 +68,21 @@ func (w *walker[E]) firstWalk(v reflect.Value) error {
 	switch v.Kind() {
 	case reflect.Pointer, reflect.Interface:
 		if !v.IsNil() {
-			w.firstWalk(v.Elem())
+			if err := w.firstWalk(v.Elem()); err != nil {
+				return err
+			}
 		}
 	case reflect.Struct:
 		for i := range v.NumField() {
-			w.firstWalk(v.Field(i))
+			if err := w.firstWalk(v.Field(i)); err != nil {
+				return err
+			}
 		}
 	case reflect.Slice, reflect.Array:
 		for i := range v.Len() {
-			w.firstWalk(v.Index(i))
+			if err := w.firstWalk(v.Index(i)); err != nil {
+				return err
+			}
 		}
 	case reflect.Invalid:
 		return fmt.Errorf("walk: invalid kind")
@@ -108,15 +114,21 @@ func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[
 	switch v.Kind() {
 	case reflect.Pointer, reflect.Interface:
 		if !v.IsNil() {
-			w.prvWalk(prv, v.Elem(), pw, sw)
+			if err := w.prvWalk(prv, v.Elem(), pw, sw); err != nil {
+				return err
+			}
 		}
 	case reflect.Struct:
 		for i := range v.NumField() {
-			w.prvWalk(prv, v.Field(i), pw, sw)
+			if err := w.prvWalk(prv, v.Field(i), pw, sw); err != nil {
+				return err
+			}
 		}
 	case reflect.Slice, reflect.Array:
 		for i := range v.Len() {
-			w.prvWalk(prv, v.Index(i), pw, sw)
+			if err := w.prvWalk(prv, v.Index(i), pw, sw); err != nil {
+				return err
+			}
 		}
 	case reflect.Invalid:
 		return fmt.Errorf("walk: invalid kind")
@@ -140,15 +152,21 @@ func (w *walker[E]) vrfWalk(vrf *Verifier[E], v reflect.Value, pw []PublicWitnes
 	switch v.Kind() {
 	case reflect.Pointer, reflect.Interface:
 		if !v.IsNil() {
-			w.vrfWalk(vrf, v.Elem(), pw)
+			if err := w.vrfWalk(vrf, v.Elem(), pw); err != nil {
+				return err
+			}
 		}
 	case reflect.Struct:
 		for i := range v.NumField() {
-			w.vrfWalk(vrf, v.Field(i), pw)
+			if err := w.vrfWalk(vrf, v.Field(i), pw); err != nil {
+				return err
+			}
 		}
 	case reflect.Slice, reflect.Array:
 		for i := range v.Len() {
-			w.vrfWalk(vrf, v.Index(i), pw)
+			if err := w.vrfWalk(vrf, v.Index(i), pw); err != nil {
+				return err
+			}
 		}
 	case reflect.Invalid:
 		return fmt.Errorf("walk: invalid kind")
-- 
2.43.0


From 363d617293adc04926252795537106195f48549e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 12/19] fix: reject assignments with a different number of
 witnesses

---
 buckler/compile.go  | 14 ++++++++++++--
 buckler/context.go  |  8 ++++++++
 buckler/prover.go   |  4 ++++
 buckler/verifier.go |  4 ++++
 4 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/buckler/compile.go b/buckler/compile.go
index 01d1364..88e4f0e 100644
--- a/buckler/compile.go
+++ b/buckler/compile.go
@@ -11,8 +11,9 @@ import (
 )
 
 var (
-	errReadOnly     = fmt.Errorf("cannot set value")
-	errRankMismatch = fmt.Errorf("witness rank mismatch")
+	errReadOnly      = fmt.Errorf("cannot set value")
+	errRankMismatch  = fmt.Errorf("witness rank mismatch")
+	errCountMismatch = fmt.Errorf("witness count mismatch")
 )
 
 func idToWitness[E bignum.Uint[E], W Witness[E] | PublicWitness[E]](id uint64) W {
@@ -95,6 +96,9 @@ func (w *walker[E]) firstWalk(v reflect.Value) error {
 func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[E], sw []Witness[E]) error {
 	switch v.Type() {
 	case reflect.TypeOf(PublicWitness[E]{}):
+		if w.pwCnt >= uint64(len(pw)) {
+			return errCountMismatch
+		}
 		pw[w.pwCnt] = v.Interface().(PublicWitness[E])
 		if len(pw[w.pwCnt]) != prv.ctx.rank {
 			return errRankMismatch
@@ -103,6 +107,9 @@ func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[
 		return nil
 
 	case reflect.TypeOf(Witness[E]{}):
+		if w.wCnt >= uint64(len(sw)) {
+			return errCountMismatch
+		}
 		sw[w.wCnt] = v.Interface().(Witness[E])
 		if len(sw[w.wCnt]) != prv.ctx.rank {
 			return errRankMismatch
@@ -141,6 +148,9 @@ func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[
 func (w *walker[E]) vrfWalk(vrf *Verifier[E], v reflect.Value, pw []PublicWitness[E]) error {
 	switch v.Type() {
 	case reflect.TypeOf(PublicWitness[E]{}):
+		if w.pwCnt >= uint64(len(pw)) {
+			return errCountMismatch
+		}
 		pw[w.pwCnt] = v.Interface().(PublicWitness[E])
 		if len(pw[w.pwCnt]) != vrf.ctx.rank {
 			return errRankMismatch
diff --git a/buckler/context.go b/buckler/context.go
index 8a4edef..0c8572a 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -17,6 +17,11 @@ type Context[E bignum.Uint[E]] struct {
 	// wCnt is the number of witnesses.
 	wCnt uint64
 
+	// circPwCnt is the number of public witnesses declared by the circuit.
+	circPwCnt uint64
+	// circWCnt is the number of witnesses declared by the circuit.
+	circWCnt uint64
+
 	// wSecond are the witnesses in the second round.
 	wSecond []Witness[E]
 
@@ -57,6 +62,9 @@ func newContext[E bignum.Uint[E]](rank int, walker *walker[E]) *Context[E] {
 		pwCnt: walker.pwCnt,
 		wCnt:  walker.wCnt,
 
+		circPwCnt: walker.pwCnt,
+		circWCnt:  walker.wCnt,
+
 		circType: walker.circuitType,
 
 		linCheckConstraints: make(map[LinearChecker[E]][][2]uint64),
diff --git a/buckler/prover.go b/buckler/prover.go
index 442e9b5..8163e35 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -56,6 +56,10 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 		return nil, err
 	}
 
+	if wk.pwCnt != p.ctx.circPwCnt || wk.wCnt != p.ctx.circWCnt {
+		return nil, errCountMismatch
+	}
+
 	for i := wk.pwCnt; i < p.ctx.pwCnt; i++ {
 		wData.pw[i] = make(PublicWitness[E], p.ctx.rank)
 		for j := range p.ctx.rank {
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 715686f..0902cb3 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -39,6 +39,10 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 		return false
 	}
 
+	if wk.pwCnt != v.ctx.circPwCnt {
+		return false
+	}
+
 	for i := wk.pwCnt; i < v.ctx.pwCnt; i++ {
 		pw[i] = make(PublicWitness[E], v.ctx.rank)
 		for j := range v.ctx.rank {
-- 
2.43.0


From 5325d4e8c2090f7db5460a73a37da6c48a266e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 13/19] fix: digit bases of powers of two, one and zero must
 reach the bound

---
 buckler/context.go | 5 +++++
 buckler/utils.go   | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/buckler/context.go b/buckler/context.go
index 0c8572a..ca2e82d 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -212,6 +212,11 @@ func (ctx *Context[E]) AddApproxInfNormConstraint(w Witness[E], bound uint64) {
 // AddApproxInfNormConstraint adds a approximate inf-norm constraint to the context.
 // The slack is around rank.
 func (ctx *Context[E]) AddApproxInfNormConstraintBig(w Witness[E], bound *big.Int) {
+	if bound.Sign() == 0 {
+		ctx.AddInfNormConstraintBig(w, bound)
+		return
+	}
+
 	if ctx.projChecker == nil {
 		ctx.projChecker = newProjChecker[E](ctx.rank)
 	}
diff --git a/buckler/utils.go b/buckler/utils.go
index 54f2fcf..9f7730a 100644
--- a/buckler/utils.go
+++ b/buckler/utils.go
@@ -8,8 +8,8 @@ func decomposeBase(x *big.Int) []*big.Int {
 	one := big.NewInt(1)
 
 	dcmpLen := x.BitLen()
-	if new(big.Int).Lsh(one, x.TrailingZeroBits()).Cmp(x) == 0 {
-		dcmpLen -= 1
+	if dcmpLen == 0 {
+		return nil
 	}
 
 	base := make([]*big.Int, dcmpLen)
-- 
2.43.0


From 063b0907a5ca3c9e04e1b8b543c00fea40bb61ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 14/19] fix: squared norms of different witnesses must not
 accumulate

---
 buckler/prover.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/buckler/prover.go b/buckler/prover.go
index 8163e35..0a48e47 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -100,6 +100,7 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 			wData.pw[pwMaskID][i].SetInt64(1)
 		}
 
+		sqNm.SetUint64(0)
 		for i := range p.ctx.rank {
 			wData.w[id][i].BigInt(bigCoeff)
 			mul.Mul(bigCoeff, bigCoeff)
-- 
2.43.0


From 020bad8ab269f2d2097c947f1f98c9487910bd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 15/19] fix: repeated norm constraints on one witness

---
 buckler/context.go | 23 ++++++++++++++++-------
 buckler/prover.go  |  8 ++++----
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/buckler/context.go b/buckler/context.go
index ca2e82d..2516706 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -40,16 +40,21 @@ type Context[E bignum.Uint[E]] struct {
 	linCheckers         []LinearChecker[E]
 	linCheckConstraints map[LinearChecker[E]][][2]uint64
 
+	// infDcmpTarget maps the ID of the first digit to the ID of the decomposed witness.
+	infDcmpTarget  map[uint64]uint64
 	infDcmpBound   map[uint64]*big.Int
 	infDcmpWitness map[uint64][]Witness[E]
 
+	// twoDcmpTarget maps the ID of the digits to the ID of the witness.
+	twoDcmpTarget  map[uint64]uint64
 	twoDcmpBound   map[uint64]*big.Int
 	twoDcmpBase    map[uint64]PublicWitness[E]
 	twoDcmpMask    map[uint64]PublicWitness[E]
 	twoDcmpWitness map[uint64]Witness[E]
 
-	projChecker        LinearChecker[E]
-	projWitness        map[uint64]Witness[E]
+	projChecker LinearChecker[E]
+	// projTarget maps the ID of the projection to the ID of the projected witness.
+	projTarget         map[uint64]uint64
 	projInfDcmpBound   map[uint64]*big.Int
 	projInfDcmpWitness map[uint64]Witness[E]
 }
@@ -69,15 +74,17 @@ func newContext[E bignum.Uint[E]](rank int, walker *walker[E]) *Context[E] {
 
 		linCheckConstraints: make(map[LinearChecker[E]][][2]uint64),
 
+		infDcmpTarget:  make(map[uint64]uint64),
 		infDcmpBound:   make(map[uint64]*big.Int),
 		infDcmpWitness: make(map[uint64][]Witness[E]),
 
+		twoDcmpTarget:  make(map[uint64]uint64),
 		twoDcmpBound:   make(map[uint64]*big.Int),
 		twoDcmpBase:    make(map[uint64]PublicWitness[E]),
 		twoDcmpMask:    make(map[uint64]PublicWitness[E]),
 		twoDcmpWitness: make(map[uint64]Witness[E]),
 
-		projWitness:        make(map[uint64]Witness[E]),
+		projTarget:         make(map[uint64]uint64),
 		projInfDcmpBound:   make(map[uint64]*big.Int),
 		projInfDcmpWitness: make(map[uint64]Witness[E]),
 	}
@@ -143,11 +150,12 @@ func (ctx *Context[E]) AddInfNormConstraintBig(w Witness[E], bound *big.Int) {
 
 	dcmpBase := decomposeBase(bound)
 
-	id := witnessToID(w)
+	id := ctx.wCnt
 	wDcmp := make([]Witness[E], 0, len(dcmpBase))
 	for i := ctx.wCnt; i < ctx.wCnt+uint64(len(dcmpBase)); i++ {
 		wDcmp = append(wDcmp, idToWitness[E, Witness[E]](i))
 	}
+	ctx.infDcmpTarget[id] = witnessToID(w)
 	ctx.infDcmpWitness[id] = wDcmp
 	ctx.infDcmpBound[id] = bound
 	ctx.wCnt += uint64(len(dcmpBase))
@@ -179,14 +187,15 @@ func (ctx *Context[E]) AddSqTwoNormConstraint(w Witness[E], bound uint64) {
 func (ctx *Context[E]) AddSqNormConstraintBig(w Witness[E], bound *big.Int) {
 	var z E
 
-	id := witnessToID(w)
-	wDcmp := idToWitness[E, Witness[E]](ctx.wCnt)
+	id := ctx.wCnt
+	wDcmp := idToWitness[E, Witness[E]](id)
 	ctx.wCnt += 1
 
 	pwBase := idToWitness[E, PublicWitness[E]](ctx.pwCnt)
 	pwMask := idToWitness[E, PublicWitness[E]](ctx.pwCnt + 1)
 	ctx.pwCnt += 2
 
+	ctx.twoDcmpTarget[id] = witnessToID(w)
 	ctx.twoDcmpBound[id] = bound
 	ctx.twoDcmpBase[id] = pwBase
 	ctx.twoDcmpMask[id] = pwMask
@@ -225,7 +234,7 @@ func (ctx *Context[E]) AddApproxInfNormConstraintBig(w Witness[E], bound *big.In
 	ctx.wCnt++
 
 	ctx.AddLinearConstraint(wProj, w, ctx.projChecker)
-	ctx.projWitness[witnessToID(w)] = wProj
+	ctx.projTarget[witnessToID(wProj)] = witnessToID(w)
 
 	wProjDcmp := idToWitness[E, Witness[E]](ctx.wCnt)
 	ctx.wCnt++
diff --git a/buckler/prover.go b/buckler/prover.go
index 0a48e47..b09755d 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -81,7 +81,7 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 	for id, wDcmps := range p.ctx.infDcmpWitness {
 		base := decomposeBase(p.ctx.infDcmpBound[id])
 		for i := range p.ctx.rank {
-			wData.w[id][i].BigInt(bigCoeff)
+			wData.w[p.ctx.infDcmpTarget[id]][i].BigInt(bigCoeff)
 			dcmp := decomposeBig(bigCoeff, base, mod)
 			for j, wDcmp := range wDcmps {
 				wData.w[witnessToID(wDcmp)][i].SetInt64(dcmp[j])
@@ -102,7 +102,7 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 
 		sqNm.SetUint64(0)
 		for i := range p.ctx.rank {
-			wData.w[id][i].BigInt(bigCoeff)
+			wData.w[p.ctx.twoDcmpTarget[id]][i].BigInt(bigCoeff)
 			mul.Mul(bigCoeff, bigCoeff)
 			sqNm.Add(sqNm, mul)
 		}
@@ -188,8 +188,8 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 			}
 		}
 
-		for id, wProj := range p.ctx.projWitness {
-			chk.TransformTo(wData.w[witnessToID(wProj)], wData.w[id])
+		for projID, id := range p.ctx.projTarget {
+			chk.TransformTo(wData.w[projID], wData.w[id])
 		}
 
 		for id, wDcmp := range p.ctx.projInfDcmpWitness {
-- 
2.43.0


From 404eab1473b70103f73043379705946289803838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 16/19] fix: approximate norm constraints must constrain the
 projection digits

---
 buckler/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buckler/context.go b/buckler/context.go
index 2516706..6a27864 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -244,7 +244,7 @@ func (ctx *Context[E]) AddApproxInfNormConstraintBig(w Witness[E], bound *big.In
 	ctx.projInfDcmpBound[witnessToID(wProj)] = slackBound
 	ctx.projInfDcmpWitness[witnessToID(wProj)] = wProjDcmp
 	ctx.AddLinearConstraint(wProj, wProjDcmp, newProjRecomposeChecker[E](slackBound))
-	// ctx.AddInfNormConstraint(wProjDcmp, 1)
+	ctx.AddInfNormConstraint(wProjDcmp, 1)
 
 	ctx.wSecond = append(ctx.wSecond, wProj, wProjDcmp)
 }
-- 
2.43.0


From c78dea97f19bd6028361e6a254e0c56aee538e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 17/19] fix: constraints without witness terms and witnesses of
 rank one

---
 buckler/compile.go |  2 +-
 buckler/context.go | 10 +++++-----
 jindo/prover.go    |  5 ++++-
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/buckler/compile.go b/buckler/compile.go
index 88e4f0e..e03b7e4 100644
--- a/buckler/compile.go
+++ b/buckler/compile.go
@@ -205,7 +205,7 @@ func Compile[E bignum.Uint[E]](witnessRank int, c Circuit[E], crs []byte) (*Prov
 
 	jindoParams := jindo.NewParameters[E](ctx.commitRank(), ctx.batch())
 
-	embRank := 1 << bits.Len(uint(max(ctx.arithCheckMaxRank, ctx.sumCheckMaxRank)-1))
+	embRank := 1 << bits.Len(uint(max(ctx.arithCheckMaxRank, ctx.sumCheckMaxRank, witnessRank+1)-1))
 
 	prv := &Prover[E]{
 		JindoParams: jindoParams,
diff --git a/buckler/context.go b/buckler/context.go
index 6a27864..43329e2 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -93,7 +93,7 @@ func newContext[E bignum.Uint[E]](rank int, walker *walker[E]) *Context[E] {
 // AddArithmeticConstraint adds an arithmetic constraint to the context.
 func (ctx *Context[E]) AddArithmeticConstraint(c ArithmeticConstraint[E]) {
 	ctx.arithConstraints = append(ctx.arithConstraints, c)
-	ctx.arithCheckMaxRank = max(ctx.arithCheckMaxRank, c.maxRank(ctx.rank))
+	ctx.arithCheckMaxRank = max(ctx.arithCheckMaxRank, c.maxRank(ctx.rank), ctx.rank+1)
 }
 
 // AddSumCheckConstraint adds a sumcheck constraint to the context.
@@ -105,13 +105,13 @@ func (ctx *Context[E]) AddSumCheckConstraint(c ArithmeticConstraint[E], sum uint
 func (ctx *Context[E]) AddSumCheckConstraintBig(c ArithmeticConstraint[E], sum *big.Int) {
 	ctx.sumCheckConstraints = append(ctx.sumCheckConstraints, c)
 	ctx.sumCheckSums = append(ctx.sumCheckSums, sum)
-	ctx.sumCheckMaxRank = max(ctx.sumCheckMaxRank, c.maxRank(ctx.rank))
+	ctx.sumCheckMaxRank = max(ctx.sumCheckMaxRank, c.maxRank(ctx.rank), ctx.rank+1)
 }
 
 // AddLinearConstraint adds a linear constraint to the context.
 func (ctx *Context[E]) AddLinearConstraint(wOut, wIn Witness[E], chker LinearChecker[E]) {
-	if ctx.arithCheckMaxRank < 2*ctx.rank-1 {
-		ctx.arithCheckMaxRank = 2*ctx.rank - 1
+	if ctx.arithCheckMaxRank < 2*ctx.rank {
+		ctx.arithCheckMaxRank = 2 * ctx.rank
 	}
 
 	if _, ok := ctx.linCheckConstraints[chker]; !ok {
@@ -268,7 +268,7 @@ func (ctx *Context[E]) batch() int {
 
 // commitRank returns the maximum rank of committed polynomials.
 func (ctx *Context[E]) commitRank() int {
-	rank := 0
+	rank := 1
 	if ctx.wCnt > 0 {
 		rank = ctx.rank + 1
 	}
diff --git a/jindo/prover.go b/jindo/prover.go
index efbe5e6..857486d 100644
--- a/jindo/prover.go
+++ b/jindo/prover.go
@@ -72,7 +72,10 @@ func (p *Prover[E]) genFirstLastRow(v []E) (firstRow, lastRow []E) {
 	lastRow[p.params.cols*p.params.slots-1] = z.New()
 
 	firstRow = make([]E, p.params.cols*p.params.slots)
-	firstRow[0] = z.New().Set(v[0])
+	firstRow[0] = z.New()
+	if len(v) > 0 {
+		firstRow[0].Set(v[0])
+	}
 	for i := 1; i < p.params.cols*p.params.slots; i++ {
 		firstRow[i] = z.New()
 		if i < len(v) {
-- 
2.43.0


From d1043f48a6f8a3dd1b988d3242d2b44e6366c6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:56 +0000
Subject: [PATCH 18/19] fix: reject malformed proofs and public inputs instead
 of crashing

---
 buckler/verifier.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/buckler/verifier.go b/buckler/verifier.go
index 0902cb3..6ce5bb4 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -31,6 +31,10 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 		return false
 	}
 
+	if !v.isWellFormed(pf) {
+		return false
+	}
+
 	var z E
 
 	pw := make([]PublicWitness[E], v.ctx.pwCnt)
@@ -43,6 +47,14 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 		return false
 	}
 
+	for i := range wk.pwCnt {
+		for j := range pw[i] {
+			if any(pw[i][j]) == any(z) {
+				return false
+			}
+		}
+	}
+
 	for i := wk.pwCnt; i < v.ctx.pwCnt; i++ {
 		pw[i] = make(PublicWitness[E], v.ctx.rank)
 		for j := range v.ctx.rank {
@@ -228,6 +240,29 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 	return true
 }
 
+// isWellFormed checks if the proof has the shape given by the circuit.
+func (v *Verifier[E]) isWellFormed(pf *Proof[E]) bool {
+	if pf == nil || len(pf.Witness) != v.ctx.batch() || len(pf.Evals) != v.ctx.batch() {
+		return false
+	}
+
+	var z E
+	for i := range pf.Witness {
+		if pf.Witness[i] == nil || any(pf.Evals[i]) == any(z) {
+			return false
+		}
+	}
+
+	if v.ctx.HasLinearCheck() && any(pf.LinCheckMaskSum) == any(z) {
+		return false
+	}
+	if v.ctx.HasSumCheck() && any(pf.SumCheckMaskSum) == any(z) {
+		return false
+	}
+
+	return true
+}
+
 func (v *Verifier[E]) evalCircuit(batchConst E, constraints []ArithmeticConstraint[E], evals []E, pwEvals []E) E {
 	var z E
 
-- 
2.43.0


From 8c5a02c4bd2ea2e036cd725fc1af4cba3c0765b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:59 +0000
Subject: [PATCH 19/19] fix: stop the modulus search at the base bound instead
 of running on

---
 jindo-modulus/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jindo-modulus/main.go b/jindo-modulus/main.go
index c188ea0..35c8e2a 100644
--- a/jindo-modulus/main.go
+++ b/jindo-modulus/main.go
@@ -42,7 +42,7 @@ func findModulus(bitStart, bitEnd int) (p *big.Int, b uint64, k uint64) {
 			continue
 		}
 
-		for b := bStart; b <= min(math.MaxUint64, bEnd); b++ {
+		for b := bStart; b <= min(baseBound, bEnd); b++ {
 			bBig := big.NewInt(int64(b))
 			bExpBig := new(big.Int).Exp(bBig, kBig, nil)
 			p.Add(bExpBig, big.NewInt(1))
-- 
2.43.0

