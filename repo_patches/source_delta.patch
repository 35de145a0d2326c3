From 62a2874077ddfa0ceace235870ce01b2e7878624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 01/17] fix: batch arithmetic and sumcheck constraints with
 distinct powers of the challenge

Every constraint was multiplied by the same challenge, so that violations of
different constraints could cancel out.
---
 buckler/prover.go   | 2 +-
 buckler/verifier.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/buckler/prover.go b/buckler/prover.go
index 4d2a4c1..2117e63 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -371,7 +371,7 @@ func (p *Prover[E]) evalCircuit(batchConst E, constraints []ArithmeticConstraint
 			}
 			p.polyEval.AddTo(eval, eval, term)
 		}
-		p.polyEval.ScalarMulTo(eval, eval, batchConst)
+		p.polyEval.ScalarMulTo(pOut, pOut, batchConst)
 		p.polyEval.AddTo(pOut, pOut, eval)
 	}
 
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 8f6558d..a28631e 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -232,7 +232,7 @@ func (v *Verifier[E]) evalCircuit(batchConst E, constraints []ArithmeticConstrai
 			}
 			eval.Add(eval, term)
 		}
-		eval.Mul(eval, batchConst)
+		out.Mul(out, batchConst)
 		out.Add(out, eval)
 	}
 
-- 
2.43.0


From fc156f1c961ffec9280343ddf0c25bc5789c64ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 02/17] fix: check the claimed sums of sumcheck constraints

The sum given to AddSumCheckConstraint was ignored: honest proofs for a
nonzero sum were rejected, and proofs for a zero sum were accepted instead.
---
 buckler/verifier.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/buckler/verifier.go b/buckler/verifier.go
index a28631e..2999464 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -306,10 +306,22 @@ func (v *Verifier[E]) sumCheck(batchConst, sumCheckMaskEval, evalPoint, vanishEv
 	eval.Mul(eval, batchConst)
 	eval.Add(eval, sumCheckMaskEval)
 
+	// The constant coefficient of a polynomial modulo X^N - 1 equals to sum / N.
+	sum, sumE := z.New(), z.New()
+	for _, s := range v.ctx.sumCheckSums {
+		sum.Mul(sum, batchConst)
+		sum.Add(sum, sumE.SetBigInt(s))
+	}
+	sum.Mul(sum, batchConst)
+	rankInv := z.New().SetUint64(uint64(v.ctx.rank))
+	rankInv.Inverse(rankInv)
+	sum.Mul(sum, rankInv)
+
 	test := z.New().Mul(quoEval, vanishEval)
 	rem := z.New().Mul(remLoEval, evalPoint)
 	test.Add(test, rem)
 	test.Add(test, sumCheckMaskSum)
+	test.Add(test, sum)
 
 	return eval.Cmp(test) == 0
 }
-- 
2.43.0


From 37348834d99b9975e07557641b18b97def30b110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 03/17] fix: reset the squared norm for each two-norm
 constraint

With more than one squared two-norm constraint, the norms accumulated and
honest proofs were rejected.
---
 buckler/prover.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/buckler/prover.go b/buckler/prover.go
index 2117e63..4d19184 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -96,6 +96,7 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 			wData.pw[pwMaskID][i].SetInt64(1)
 		}
 
+		sqNm.SetUint64(0)
 		for i := range p.ctx.rank {
 			wData.w[id][i].BigInt(bigCoeff)
 			mul.Mul(bigCoeff, bigCoeff)
-- 
2.43.0


From 4f1fb9a89495849109e053e0e48489f2bd346787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:22 +0000
Subject: [PATCH 04/17] fix: decompose norm bounds that are powers of two

The base of a power of two summed to one less than the bound, so that a
witness attaining it could not be proved; bounds zero and one panicked.
---
 buckler/utils.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/buckler/utils.go b/buckler/utils.go
index 54f2fcf..c73a9ee 100644
--- a/buckler/utils.go
+++ b/buckler/utils.go
@@ -8,11 +8,11 @@ func decomposeBase(x *big.Int) []*big.Int {
 	one := big.NewInt(1)
 
 	dcmpLen := x.BitLen()
-	if new(big.Int).Lsh(one, x.TrailingZeroBits()).Cmp(x) == 0 {
-		dcmpLen -= 1
+	base := make([]*big.Int, dcmpLen)
+	if dcmpLen == 0 {
+		return base
 	}
 
-	base := make([]*big.Int, dcmpLen)
 	b, quo, rem := new(big.Int), new(big.Int), new(big.Int)
 	for i := 0; i < dcmpLen-1; i++ {
 		sum := new(big.Int)
-- 
2.43.0


From da2d000647556c16f0bd9e8641907c894ab33142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 05/17] fix: propagate errors while walking a circuit

Errors raised below the top level of the circuit were dropped: witnesses of a
wrong rank were not reported, and the following ones were shifted.
---
 buckler/compile.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/buckler/compile.go b/buckler/compile.go
index 6fe2285..01d1364 100644
--- a/buckler/compile.go
+++ b/buckler/compile.go
@@ -68,15 +68,21 @@ func (w *walker[E]) firstWalk(v reflect.Value) error {
 	switch v.Kind() {
 	case reflect.Pointer, reflect.Interface:
 		if !v.IsNil() {
-			w.firstWalk(v.Elem())
+			if err := w.firstWalk(v.Elem()); err != nil {
+				return err
+			}
 		}
 	case reflect.Struct:
 		for i := range v.NumField() {
-			w.firstWalk(v.Field(i))
+			if err := w.firstWalk(v.Field(i)); err != nil {
+				return err
+			}
 		}
 	case reflect.Slice, reflect.Array:
 		for i := range v.Len() {
-			w.firstWalk(v.Index(i))
+			if err := w.firstWalk(v.Index(i)); err != nil {
+				return err
+			}
 		}
 	case reflect.Invalid:
 		return fmt.Errorf("walk: invalid kind")
@@ -108,15 +114,21 @@ func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[
 	switch v.Kind() {
 	case reflect.Pointer, reflect.Interface:
 		if !v.IsNil() {
-			w.prvWalk(prv, v.Elem(), pw, sw)
+			if err := w.prvWalk(prv, v.Elem(), pw, sw); err != nil {
+				return err
+			}
 		}
 	case reflect.Struct:
 		for i := range v.NumField() {
-			w.prvWalk(prv, v.Field(i), pw, sw)
+			if err := w.prvWalk(prv, v.Field(i), pw, sw); err != nil {
+				return err
+			}
 		}
 	case reflect.Slice, reflect.Array:
 		for i := range v.Len() {
-			w.prvWalk(prv, v.Index(i), pw, sw)
+			if err := w.prvWalk(prv, v.Index(i), pw, sw); err != nil {
+				return err
+			}
 		}
 	case reflect.Invalid:
 		return fmt.Errorf("walk: invalid kind")
@@ -140,15 +152,21 @@ func (w *walker[E]) vrfWalk(vrf *Verifier[E], v reflect.Value, pw []PublicWitnes
 	switch v.Kind() {
 	case reflect.Pointer, reflect.Interface:
 		if !v.IsNil() {
-			w.vrfWalk(vrf, v.Elem(), pw)
+			if err := w.vrfWalk(vrf, v.Elem(), pw); err != nil {
+				return err
+			}
 		}
 	case reflect.Struct:
 		for i := range v.NumField() {
-			w.vrfWalk(vrf, v.Field(i), pw)
+			if err := w.vrfWalk(vrf, v.Field(i), pw); err != nil {
+				return err
+			}
 		}
 	case reflect.Slice, reflect.Array:
 		for i := range v.Len() {
-			w.vrfWalk(vrf, v.Index(i), pw)
+			if err := w.vrfWalk(vrf, v.Index(i), pw); err != nil {
+				return err
+			}
 		}
 	case reflect.Invalid:
 		return fmt.Errorf("walk: invalid kind")
-- 
2.43.0


From a637220a747e6a371ecf3eb2bfa29de2d5af26ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:09 +0000
Subject: [PATCH 06/17] fix: bind public witnesses to the Fiat-Shamir
 transcript

The challenges did not depend on the statement (weak Fiat-Shamir), so public
witnesses could be chosen after the challenges.
---
 buckler/prover.go   | 8 ++++++++
 buckler/verifier.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/buckler/prover.go b/buckler/prover.go
index 4d19184..3da6d39 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -122,6 +122,14 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 	oracle := fiatshamir.NewTranscript(sha256.New(), chalNames...)
 	var oracleBuf bytes.Buffer
 
+	for i := range wData.pw {
+		for j := range wData.pw[i] {
+			oracleBuf.Write(wData.pw[i][j].Marshal())
+		}
+		oracle.Bind("projConst", oracleBuf.Bytes())
+		oracleBuf.Reset()
+	}
+
 	wData.pwEcd = make([]*bigpoly.Poly[E], p.ctx.pwCnt)
 	wData.pwEcdNTT = make([]*bigpoly.Poly[E], p.ctx.pwCnt)
 	for i := range wData.pw {
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 2999464..9528126 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -68,6 +68,14 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 	oracle := fiatshamir.NewTranscript(sha256.New(), chalNames...)
 	var oracleBuf bytes.Buffer
 
+	for i := range pw {
+		for j := range pw[i] {
+			oracleBuf.Write(pw[i][j].Marshal())
+		}
+		oracle.Bind("projConst", oracleBuf.Bytes())
+		oracleBuf.Reset()
+	}
+
 	pwEcd := make([]*bigpoly.Poly[E], v.ctx.pwCnt)
 	for i := range pw {
 		pwEcd[i] = v.ecd.Encode(pw[i])
-- 
2.43.0


From 136deb25a78b880623a56a735834205151f55779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:11 +0000
Subject: [PATCH 07/17] fix: constrain the decomposition of the projected
 witness

Without it the recomposition holds for any projection, and approximate
infinity-norm constraints did not constrain anything.
---
 buckler/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buckler/context.go b/buckler/context.go
index 8a4edef..49ca08a 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -222,7 +222,7 @@ func (ctx *Context[E]) AddApproxInfNormConstraintBig(w Witness[E], bound *big.In
 	ctx.projInfDcmpBound[witnessToID(wProj)] = slackBound
 	ctx.projInfDcmpWitness[witnessToID(wProj)] = wProjDcmp
 	ctx.AddLinearConstraint(wProj, wProjDcmp, newProjRecomposeChecker[E](slackBound))
-	// ctx.AddInfNormConstraint(wProjDcmp, 1)
+	ctx.AddInfNormConstraint(wProjDcmp, 1)
 
 	ctx.wSecond = append(ctx.wSecond, wProj, wProjDcmp)
 }
-- 
2.43.0


From c5f9f47d36f19463f3b8010f1ccf7ddaae1c8807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:14 +0000
Subject: [PATCH 08/17] fix: copy polynomials whose rank is not a multiple of
 eight

The unrolled copies read and wrote past the end of the slices.
---
 math/bigpoly/ntt.go  | 28 ++++++++++++++++++++++++----
 math/bigpoly/poly.go |  7 ++++++-
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/math/bigpoly/ntt.go b/math/bigpoly/ntt.go
index d95489c..f6782c7 100644
--- a/math/bigpoly/ntt.go
+++ b/math/bigpoly/ntt.go
@@ -96,7 +96,8 @@ func NewCyclicTransformer[E bignum.Uint[E]](rank int) *CyclicTransformer[E] {
 
 // FwdNTTTo computes vOut = NTT(v).
 func (ntt *CyclicTransformer[E]) FwdNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
+	M := (len(vOut) >> 3) << 3
+	for i := 0; i < M; i += 8 {
 		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
 		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
 
@@ -111,12 +112,17 @@ func (ntt *CyclicTransformer[E]) FwdNTTTo(vOut, v []E) {
 		cOut[7].Set(c0[7])
 	}
 
+	for i := M; i < len(vOut); i++ {
+		vOut[i].Set(v[i])
+	}
+
 	nttInPlace(vOut, ntt.tw)
 }
 
 // InvNTTTo computes vOut = INTT(v).
 func (ntt *CyclicTransformer[E]) InvNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
+	M := (len(vOut) >> 3) << 3
+	for i := 0; i < M; i += 8 {
 		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
 		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
 
@@ -131,6 +137,10 @@ func (ntt *CyclicTransformer[E]) InvNTTTo(vOut, v []E) {
 		cOut[7].Set(c0[7])
 	}
 
+	for i := M; i < len(vOut); i++ {
+		vOut[i].Set(v[i])
+	}
+
 	inttInPlace(vOut, ntt.twInv)
 	scalarMulVecTo(vOut, vOut, ntt.rankInv)
 }
@@ -204,7 +214,8 @@ func NewCyclotomicTransformer[E bignum.Uint[E]](rank int) *CyclotomicTransformer
 
 // FwdNTTTo computes vOut = NTT(v).
 func (ntt *CyclotomicTransformer[E]) FwdNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
+	M := (len(vOut) >> 3) << 3
+	for i := 0; i < M; i += 8 {
 		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
 		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
 
@@ -219,12 +230,17 @@ func (ntt *CyclotomicTransformer[E]) FwdNTTTo(vOut, v []E) {
 		cOut[7].Set(c0[7])
 	}
 
+	for i := M; i < len(vOut); i++ {
+		vOut[i].Set(v[i])
+	}
+
 	nttInPlace(vOut, ntt.tw)
 }
 
 // InvNTTTo computes vOut = INTT(v).
 func (ntt *CyclotomicTransformer[E]) InvNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
+	M := (len(vOut) >> 3) << 3
+	for i := 0; i < M; i += 8 {
 		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
 		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
 
@@ -239,6 +255,10 @@ func (ntt *CyclotomicTransformer[E]) InvNTTTo(vOut, v []E) {
 		cOut[7].Set(c0[7])
 	}
 
+	for i := M; i < len(vOut); i++ {
+		vOut[i].Set(v[i])
+	}
+
 	inttInPlace(vOut, ntt.twInv)
 	scalarMulVecTo(vOut, vOut, ntt.rankInv)
 }
diff --git a/math/bigpoly/poly.go b/math/bigpoly/poly.go
index 8674f9e..af33b8c 100644
--- a/math/bigpoly/poly.go
+++ b/math/bigpoly/poly.go
@@ -42,7 +42,8 @@ func (p *Poly[E]) Marshal() []byte {
 
 // CopyFrom copies p0 to p.
 func (p *Poly[E]) CopyFrom(p0 *Poly[E]) {
-	for i := 0; i < len(p.Coeffs); i += 8 {
+	M := (len(p.Coeffs) >> 3) << 3
+	for i := 0; i < M; i += 8 {
 		cOut := (*[8]E)(unsafe.Pointer(&p.Coeffs[i]))
 		c0 := (*[8]E)(unsafe.Pointer(&p0.Coeffs[i]))
 
@@ -57,6 +58,10 @@ func (p *Poly[E]) CopyFrom(p0 *Poly[E]) {
 		cOut[7].Set(c0[7])
 	}
 
+	for i := M; i < len(p.Coeffs); i++ {
+		p.Coeffs[i].Set(p0.Coeffs[i])
+	}
+
 	p.IsNTT = p0.IsNTT
 }
 
-- 
2.43.0


From 9714f5870daadf20924dc9396b99bfa511446a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:16 +0000
Subject: [PATCH 09/17] fix: do not mix the previous contents of the buffer in
 UniformSampler.Read

The output was the key stream XORed to whatever the buffer held before.
---
 math/csprng/uniform.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/csprng/uniform.go b/math/csprng/uniform.go
index bdb915e..f1d06de 100644
--- a/math/csprng/uniform.go
+++ b/math/csprng/uniform.go
@@ -56,6 +56,7 @@ func NewUniformSamplerWithSeed(seed []byte) *UniformSampler {
 // Read implements the [io.Reader] interface.
 // It always succeeds, with n == len(p) and err == nil.
 func (s *UniformSampler) Read(p []byte) (n int, err error) {
+	clear(p)
 	s.prng.XORKeyStream(p, p)
 	return len(p), nil
 }
-- 
2.43.0


From 9e2ba7b7db6260a99392b8a5dc5c29c38ca71890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 10/17] fix: commit to the empty polynomial

Commit pads with zeros, but panicked for an empty vector.
---
 jindo/prover.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jindo/prover.go b/jindo/prover.go
index 1e9642e..beaf0d7 100644
--- a/jindo/prover.go
+++ b/jindo/prover.go
@@ -72,7 +72,10 @@ func (p *Prover[E]) genFirstLastRow(v []E) (firstRow, lastRow []E) {
 	lastRow[p.params.cols*p.params.slots-1] = z.New()
 
 	firstRow = make([]E, p.params.cols*p.params.slots)
-	firstRow[0] = z.New().Set(v[0])
+	firstRow[0] = z.New()
+	if len(v) > 0 {
+		firstRow[0].Set(v[0])
+	}
 	for i := 1; i < p.params.cols*p.params.slots; i++ {
 		firstRow[i] = z.New()
 		if i < len(v) {
-- 
2.43.0


From ed0802ebf1746c396b43f3ee9da8f3437391dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 11/17] fix: reconstruct (Q-1)/2 to its balanced representative

---
 jindo/rns.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jindo/rns.go b/jindo/rns.go
index 01a7302..ed1e319 100644
--- a/jindo/rns.go
+++ b/jindo/rns.go
@@ -97,7 +97,7 @@ func (r *RNSReconstructor) reconstructTo(vOut []*big.Int, p ring.Poly) {
 		}
 		r.buf.accTmp.DivMod(r.buf.acc, r.ringQ.Modulus(), r.buf.acc)
 
-		if r.buf.acc.Cmp(r.qHalf) >= 0 {
+		if r.buf.acc.Cmp(r.qHalf) > 0 {
 			r.buf.acc.Sub(r.buf.acc, r.ringQ.Modulus())
 		}
 		vOut[i].Set(r.buf.acc)
-- 
2.43.0


From ccaff61f56a55ab9216098c384dfa96b863cce87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:22 +0000
Subject: [PATCH 12/17] fix: bind the claimed evaluations to the transcript

The batching challenges did not depend on the claimed values, so that a proof
for the true values of several polynomials could be reused for false values
with the same random combination.
---
 jindo/prover.go   | 13 ++++++++-----
 jindo/verifier.go |  6 ++++++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/jindo/prover.go b/jindo/prover.go
index beaf0d7..f27cea1 100644
--- a/jindo/prover.go
+++ b/jindo/prover.go
@@ -226,6 +226,11 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 		com[i].WriteRawTo(oracle)
 	}
 	oracle.Write(x.Marshal())
+	evals := make([]E, p.params.batch)
+	for i := range p.params.batch {
+		evals[i] = (&bigpoly.Poly[E]{Coeffs: v[i]}).Evaluate(x)
+		oracle.Write(evals[i].Marshal())
+	}
 
 	var batchOut, batch []ring.Poly
 
@@ -248,6 +253,9 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 			com[i].WriteRawTo(oracle)
 		}
 		oracle.Write(x.Marshal())
+		for i := range p.params.batch {
+			oracle.Write(evals[i].Marshal())
+		}
 		oracle.Write(batchBytes)
 
 		openBatch = NewOpening(p.params)
@@ -318,11 +326,6 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 		}
 	}
 
-	evals := make([]E, p.params.batch)
-	for i := 0; i < p.params.batch; i++ {
-		evals[i] = (&bigpoly.Poly[E]{Coeffs: v[i]}).Evaluate(x)
-	}
-
 	return evals, pf
 }
 
diff --git a/jindo/verifier.go b/jindo/verifier.go
index d54ff81..03652cc 100644
--- a/jindo/verifier.go
+++ b/jindo/verifier.go
@@ -59,6 +59,9 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 		com[i].WriteRawTo(oracle)
 	}
 	oracle.Write(x.Marshal())
+	for i := 0; i < v.params.batch; i++ {
+		oracle.Write(y[i].Marshal())
+	}
 
 	var batch, batchOut []ring.Poly
 	if v.params.batch > 1 {
@@ -79,6 +82,9 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 			com[i].WriteRawTo(oracle)
 		}
 		oracle.Write(x.Marshal())
+		for i := 0; i < v.params.batch; i++ {
+			oracle.Write(y[i].Marshal())
+		}
 		oracle.Write(batchBytes)
 	}
 
-- 
2.43.0


From 649a95e85048ce55b718648bbf6406d0edc1bdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 13/17] fix: reject assignments whose number of witnesses
 differs from the compiled circuit

---
 buckler/compile.go  | 10 ++++++++++
 buckler/context.go  |  8 ++++++++
 buckler/prover.go   |  3 +++
 buckler/verifier.go |  3 +++
 4 files changed, 24 insertions(+)

diff --git a/buckler/compile.go b/buckler/compile.go
index 01d1364..6d05ce6 100644
--- a/buckler/compile.go
+++ b/buckler/compile.go
@@ -13,6 +13,7 @@ import (
 var (
 	errReadOnly     = fmt.Errorf("cannot set value")
 	errRankMismatch = fmt.Errorf("witness rank mismatch")
+	errCntMismatch  = fmt.Errorf("witness count mismatch")
 )
 
 func idToWitness[E bignum.Uint[E], W Witness[E] | PublicWitness[E]](id uint64) W {
@@ -95,6 +96,9 @@ func (w *walker[E]) firstWalk(v reflect.Value) error {
 func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[E], sw []Witness[E]) error {
 	switch v.Type() {
 	case reflect.TypeOf(PublicWitness[E]{}):
+		if w.pwCnt == prv.ctx.pwDeclCnt {
+			return errCntMismatch
+		}
 		pw[w.pwCnt] = v.Interface().(PublicWitness[E])
 		if len(pw[w.pwCnt]) != prv.ctx.rank {
 			return errRankMismatch
@@ -103,6 +107,9 @@ func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[
 		return nil
 
 	case reflect.TypeOf(Witness[E]{}):
+		if w.wCnt == prv.ctx.wDeclCnt {
+			return errCntMismatch
+		}
 		sw[w.wCnt] = v.Interface().(Witness[E])
 		if len(sw[w.wCnt]) != prv.ctx.rank {
 			return errRankMismatch
@@ -141,6 +148,9 @@ func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[
 func (w *walker[E]) vrfWalk(vrf *Verifier[E], v reflect.Value, pw []PublicWitness[E]) error {
 	switch v.Type() {
 	case reflect.TypeOf(PublicWitness[E]{}):
+		if w.pwCnt == vrf.ctx.pwDeclCnt {
+			return errCntMismatch
+		}
 		pw[w.pwCnt] = v.Interface().(PublicWitness[E])
 		if len(pw[w.pwCnt]) != vrf.ctx.rank {
 			return errRankMismatch
diff --git a/buckler/context.go b/buckler/context.go
index 49ca08a..57e8045 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -17,6 +17,11 @@ type Context[E bignum.Uint[E]] struct {
 	// wCnt is the number of witnesses.
 	wCnt uint64
 
+	// pwDeclCnt is the number of public witnesses declared in the circuit.
+	pwDeclCnt uint64
+	// wDeclCnt is the number of witnesses declared in the circuit.
+	wDeclCnt uint64
+
 	// wSecond are the witnesses in the second round.
 	wSecond []Witness[E]
 
@@ -57,6 +62,9 @@ func newContext[E bignum.Uint[E]](rank int, walker *walker[E]) *Context[E] {
 		pwCnt: walker.pwCnt,
 		wCnt:  walker.wCnt,
 
+		pwDeclCnt: walker.pwCnt,
+		wDeclCnt:  walker.wCnt,
+
 		circType: walker.circuitType,
 
 		linCheckConstraints: make(map[LinearChecker[E]][][2]uint64),
diff --git a/buckler/prover.go b/buckler/prover.go
index 3da6d39..52a5e16 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -55,6 +55,9 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 	if err := wk.prvWalk(p, reflect.ValueOf(c), wData.pw, wData.w); err != nil {
 		return nil, err
 	}
+	if wk.pwCnt != p.ctx.pwDeclCnt || wk.wCnt != p.ctx.wDeclCnt {
+		return nil, errCntMismatch
+	}
 
 	for i := wk.pwCnt; i < p.ctx.pwCnt; i++ {
 		wData.pw[i] = make(PublicWitness[E], p.ctx.rank)
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 9528126..667e438 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -38,6 +38,9 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 	if err := wk.vrfWalk(v, reflect.ValueOf(c), pw); err != nil {
 		return false
 	}
+	if wk.pwCnt != v.ctx.pwDeclCnt {
+		return false
+	}
 
 	for i := wk.pwCnt; i < v.ctx.pwCnt; i++ {
 		pw[i] = make(PublicWitness[E], v.ctx.rank)
-- 
2.43.0


From 55dc9ea8eae50116246a8caf678cfe15846984f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 14/17] fix: keep every norm constraint on a witness

---
 buckler/context.go  | 42 ++++++++++++++++++------------------
 buckler/prover.go   | 52 +++++++++++++++++++++++++--------------------
 buckler/verifier.go | 18 +++++++++-------
 3 files changed, 60 insertions(+), 52 deletions(-)

diff --git a/buckler/context.go b/buckler/context.go
index 57e8045..ef893d8 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -40,16 +40,16 @@ type Context[E bignum.Uint[E]] struct {
 	linCheckers         []LinearChecker[E]
 	linCheckConstraints map[LinearChecker[E]][][2]uint64
 
-	infDcmpBound   map[uint64]*big.Int
-	infDcmpWitness map[uint64][]Witness[E]
+	infDcmpBound   map[uint64][]*big.Int
+	infDcmpWitness map[uint64][][]Witness[E]
 
-	twoDcmpBound   map[uint64]*big.Int
-	twoDcmpBase    map[uint64]PublicWitness[E]
-	twoDcmpMask    map[uint64]PublicWitness[E]
-	twoDcmpWitness map[uint64]Witness[E]
+	twoDcmpBound   map[uint64][]*big.Int
+	twoDcmpBase    map[uint64][]PublicWitness[E]
+	twoDcmpMask    map[uint64][]PublicWitness[E]
+	twoDcmpWitness map[uint64][]Witness[E]
 
 	projChecker        LinearChecker[E]
-	projWitness        map[uint64]Witness[E]
+	projWitness        map[uint64][]Witness[E]
 	projInfDcmpBound   map[uint64]*big.Int
 	projInfDcmpWitness map[uint64]Witness[E]
 }
@@ -69,15 +69,15 @@ func newContext[E bignum.Uint[E]](rank int, walker *walker[E]) *Context[E] {
 
 		linCheckConstraints: make(map[LinearChecker[E]][][2]uint64),
 
-		infDcmpBound:   make(map[uint64]*big.Int),
-		infDcmpWitness: make(map[uint64][]Witness[E]),
+		infDcmpBound:   make(map[uint64][]*big.Int),
+		infDcmpWitness: make(map[uint64][][]Witness[E]),
 
-		twoDcmpBound:   make(map[uint64]*big.Int),
-		twoDcmpBase:    make(map[uint64]PublicWitness[E]),
-		twoDcmpMask:    make(map[uint64]PublicWitness[E]),
-		twoDcmpWitness: make(map[uint64]Witness[E]),
+		twoDcmpBound:   make(map[uint64][]*big.Int),
+		twoDcmpBase:    make(map[uint64][]PublicWitness[E]),
+		twoDcmpMask:    make(map[uint64][]PublicWitness[E]),
+		twoDcmpWitness: make(map[uint64][]Witness[E]),
 
-		projWitness:        make(map[uint64]Witness[E]),
+		projWitness:        make(map[uint64][]Witness[E]),
 		projInfDcmpBound:   make(map[uint64]*big.Int),
 		projInfDcmpWitness: make(map[uint64]Witness[E]),
 	}
@@ -148,8 +148,8 @@ func (ctx *Context[E]) AddInfNormConstraintBig(w Witness[E], bound *big.Int) {
 	for i := ctx.wCnt; i < ctx.wCnt+uint64(len(dcmpBase)); i++ {
 		wDcmp = append(wDcmp, idToWitness[E, Witness[E]](i))
 	}
-	ctx.infDcmpWitness[id] = wDcmp
-	ctx.infDcmpBound[id] = bound
+	ctx.infDcmpWitness[id] = append(ctx.infDcmpWitness[id], wDcmp)
+	ctx.infDcmpBound[id] = append(ctx.infDcmpBound[id], bound)
 	ctx.wCnt += uint64(len(dcmpBase))
 
 	for i := range wDcmp {
@@ -187,10 +187,10 @@ func (ctx *Context[E]) AddSqNormConstraintBig(w Witness[E], bound *big.Int) {
 	pwMask := idToWitness[E, PublicWitness[E]](ctx.pwCnt + 1)
 	ctx.pwCnt += 2
 
-	ctx.twoDcmpBound[id] = bound
-	ctx.twoDcmpBase[id] = pwBase
-	ctx.twoDcmpMask[id] = pwMask
-	ctx.twoDcmpWitness[id] = wDcmp
+	ctx.twoDcmpBound[id] = append(ctx.twoDcmpBound[id], bound)
+	ctx.twoDcmpBase[id] = append(ctx.twoDcmpBase[id], pwBase)
+	ctx.twoDcmpMask[id] = append(ctx.twoDcmpMask[id], pwMask)
+	ctx.twoDcmpWitness[id] = append(ctx.twoDcmpWitness[id], wDcmp)
 
 	var binConstraint ArithmeticConstraint[E]
 	binConstraint.AddTermWithConst(z.New().SetInt64(1), nil, wDcmp, wDcmp)
@@ -220,7 +220,7 @@ func (ctx *Context[E]) AddApproxInfNormConstraintBig(w Witness[E], bound *big.In
 	ctx.wCnt++
 
 	ctx.AddLinearConstraint(wProj, w, ctx.projChecker)
-	ctx.projWitness[witnessToID(w)] = wProj
+	ctx.projWitness[witnessToID(w)] = append(ctx.projWitness[witnessToID(w)], wProj)
 
 	wProjDcmp := idToWitness[E, Witness[E]](ctx.wCnt)
 	ctx.wCnt++
diff --git a/buckler/prover.go b/buckler/prover.go
index 52a5e16..50f9194 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -77,28 +77,21 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 
 	bigCoeff := new(big.Int)
 
-	for id, wDcmps := range p.ctx.infDcmpWitness {
-		base := decomposeBase(p.ctx.infDcmpBound[id])
-		for i := range p.ctx.rank {
-			wData.w[id][i].BigInt(bigCoeff)
-			dcmp := decomposeBig(bigCoeff, base, mod)
-			for j, wDcmp := range wDcmps {
-				wData.w[witnessToID(wDcmp)][i].SetInt64(dcmp[j])
+	for id, bounds := range p.ctx.infDcmpBound {
+		for k, bound := range bounds {
+			base := decomposeBase(bound)
+			for i := range p.ctx.rank {
+				wData.w[id][i].BigInt(bigCoeff)
+				dcmp := decomposeBig(bigCoeff, base, mod)
+				for j, wDcmp := range p.ctx.infDcmpWitness[id][k] {
+					wData.w[witnessToID(wDcmp)][i].SetInt64(dcmp[j])
+				}
 			}
 		}
 	}
 
 	sqNm, mul := new(big.Int), new(big.Int)
-	for id, bound := range p.ctx.twoDcmpBound {
-		base := decomposeBase(bound)
-
-		pwBaseID := witnessToID(p.ctx.twoDcmpBase[id])
-		pwMaskID := witnessToID(p.ctx.twoDcmpMask[id])
-		for i := range base {
-			wData.pw[pwBaseID][i].SetBigInt(base[i])
-			wData.pw[pwMaskID][i].SetInt64(1)
-		}
-
+	for id, bounds := range p.ctx.twoDcmpBound {
 		sqNm.SetUint64(0)
 		for i := range p.ctx.rank {
 			wData.w[id][i].BigInt(bigCoeff)
@@ -107,10 +100,21 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 		}
 		sqNm.Mod(sqNm, mod)
 
-		dcmp := decomposeBig(sqNm, base, mod)
-		wDcmpID := witnessToID(p.ctx.twoDcmpWitness[id])
-		for i := range dcmp {
-			wData.w[wDcmpID][i].SetInt64(dcmp[i])
+		for k, bound := range bounds {
+			base := decomposeBase(bound)
+
+			pwBaseID := witnessToID(p.ctx.twoDcmpBase[id][k])
+			pwMaskID := witnessToID(p.ctx.twoDcmpMask[id][k])
+			for i := range base {
+				wData.pw[pwBaseID][i].SetBigInt(base[i])
+				wData.pw[pwMaskID][i].SetInt64(1)
+			}
+
+			dcmp := decomposeBig(sqNm, base, mod)
+			wDcmpID := witnessToID(p.ctx.twoDcmpWitness[id][k])
+			for i := range dcmp {
+				wData.w[wDcmpID][i].SetInt64(dcmp[i])
+			}
 		}
 	}
 
@@ -187,8 +191,10 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 			}
 		}
 
-		for id, wProj := range p.ctx.projWitness {
-			chk.TransformTo(wData.w[witnessToID(wProj)], wData.w[id])
+		for id, wProjs := range p.ctx.projWitness {
+			for _, wProj := range wProjs {
+				chk.TransformTo(wData.w[witnessToID(wProj)], wData.w[id])
+			}
 		}
 
 		for id, wDcmp := range p.ctx.projInfDcmpWitness {
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 667e438..d9ef2cd 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -49,14 +49,16 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 		}
 	}
 
-	for id, bound := range v.ctx.twoDcmpBound {
-		base := decomposeBase(bound)
-
-		pwBaseID := witnessToID(v.ctx.twoDcmpBase[id])
-		pwMaskID := witnessToID(v.ctx.twoDcmpMask[id])
-		for i := range base {
-			pw[pwBaseID][i].SetBigInt(base[i])
-			pw[pwMaskID][i].SetInt64(1)
+	for id, bounds := range v.ctx.twoDcmpBound {
+		for k, bound := range bounds {
+			base := decomposeBase(bound)
+
+			pwBaseID := witnessToID(v.ctx.twoDcmpBase[id][k])
+			pwMaskID := witnessToID(v.ctx.twoDcmpMask[id][k])
+			for i := range base {
+				pw[pwBaseID][i].SetBigInt(base[i])
+				pw[pwMaskID][i].SetInt64(1)
+			}
 		}
 	}
 
-- 
2.43.0


From 04c9fb2f73695a5cc6cb79ce3e6afa38c0d3f727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:59 +0000
Subject: [PATCH 15/17] fix: report a type mismatch for assignments that are
 not pointers

---
 buckler/prover.go   | 2 +-
 buckler/verifier.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/buckler/prover.go b/buckler/prover.go
index 50f9194..e9e3c16 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -40,7 +40,7 @@ type witnessData[E bignum.Uint[E]] struct {
 
 // Prove generates a proof for the given circuit and witnesses.
 func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
-	if p.ctx.circType != reflect.TypeOf(c).Elem() {
+	if reflect.TypeOf(c) != reflect.PointerTo(p.ctx.circType) {
 		return nil, fmt.Errorf("circuit type mismatch")
 	}
 
diff --git a/buckler/verifier.go b/buckler/verifier.go
index d9ef2cd..490c161 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -27,7 +27,7 @@ type Verifier[E bignum.Uint[E]] struct {
 
 // Verify verifies the proof for the given public assignment.
 func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
-	if v.ctx.circType != reflect.TypeOf(c).Elem() {
+	if reflect.TypeOf(c) != reflect.PointerTo(v.ctx.circType) {
 		return false
 	}
 
-- 
2.43.0


From 4bc7fcf86b05c5c74e5697b9e5e2a3a9a7f564cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 16/17] fix: compile circuits whose constraints have a low
 degree

A witness is encoded with one more coefficient than the rank, so the
evaluator must have room for it also if no constraint mentions a witness,
and the rank of a constraint is at least that of the vanishing polynomial.
---
 buckler/compile.go    | 2 +-
 buckler/constraint.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/buckler/compile.go b/buckler/compile.go
index 6d05ce6..4da0e3b 100644
--- a/buckler/compile.go
+++ b/buckler/compile.go
@@ -205,7 +205,7 @@ func Compile[E bignum.Uint[E]](witnessRank int, c Circuit[E], crs []byte) (*Prov
 
 	jindoParams := jindo.NewParameters[E](ctx.commitRank(), ctx.batch())
 
-	embRank := 1 << bits.Len(uint(max(ctx.arithCheckMaxRank, ctx.sumCheckMaxRank)-1))
+	embRank := 1 << bits.Len(uint(max(ctx.arithCheckMaxRank, ctx.sumCheckMaxRank, ctx.rank+1)-1))
 
 	prv := &Prover[E]{
 		JindoParams: jindoParams,
diff --git a/buckler/constraint.go b/buckler/constraint.go
index 5f5711c..6d181c0 100644
--- a/buckler/constraint.go
+++ b/buckler/constraint.go
@@ -65,5 +65,5 @@ func (c *ArithmeticConstraint[E]) maxRank(rank int) int {
 			maxDeg = deg
 		}
 	}
-	return maxDeg + 1
+	return max(maxDeg+1, rank)
 }
-- 
2.43.0


From 369010d50664b91df9a88b950b54b2edeebb53c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:23 +0000
Subject: [PATCH 17/17] fix: bound challenges of a field without a square root
 of minus one

Parameters.ChallengeBound shifts 1 by 120/exp bits, which is zero for an
exponent of one: every opening then panicked with a division by zero.
---
 jindo/params.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jindo/params.go b/jindo/params.go
index d5d94f0..e3f5831 100644
--- a/jindo/params.go
+++ b/jindo/params.go
@@ -356,7 +356,11 @@ func (p Parameters) Slots() int {
 
 // ChallengeBound is the challenge bound.
 func (p Parameters) ChallengeBound() uint64 {
-	return min(p.ecd.base, 1<<(120/p.ecd.exp)) / 2
+	bound := p.ecd.base
+	if logBound := 120 / p.ecd.exp; logBound < 64 {
+		bound = min(bound, 1<<logBound)
+	}
+	return bound / 2
 }
 
 // InMSISRank is the rank of the inner MSIS commitment.
-- 
2.43.0

