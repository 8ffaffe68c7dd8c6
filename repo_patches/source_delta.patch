From 2ad582be7cde5229dcc9c73870cc4fd92d924602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:48 +0000
Subject: [PATCH 01/18] fix: derive the second range proof challenge from the
 first

HashBP hashed the first buffer twice, so the two challenges y and z were
always equal and a prover could cancel terms of different degree against
each other to prove values outside the range.
---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index c595a02..4986f68 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -67,7 +67,7 @@ func HashBP(A, S group.Element) (*big.Int, *big.Int, error) {
 	buffer2.WriteString(A.String())
 	buffer2.WriteString(S.String())
 	buffer2.WriteString(result1.String())
-	digest2.Write(buffer.Bytes())
+	digest2.Write(buffer2.Bytes())
 	output2 := digest2.Sum(nil)
 	tmp2 := output2[0:]
 	result2 := new(big.Int).SetBytes(tmp2)
-- 
2.43.0


From d96cbeb3decf267ee4201db34af54141bedc0885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:16 +0000
Subject: [PATCH 02/18] fix: make honest aggregated range proofs verify

MultiProve committed to the right bit vector twice and Verify added z^(2+j)
to the powers of two instead of multiplying by it.
---
 bulletproofs/multibp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index 1755a02..2303bdf 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -83,7 +83,7 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 
 	// Commitment: (A, alpha)
 	alpha, _ := rand.Int(rand.Reader, mod)                                                            // (43)
-	A := commitVector(aRConcat, aRConcat, alpha, params.H, params.Gg, params.Hh, params.N, params.GP) // (44)
+	A := commitVector(aLConcat, aRConcat, alpha, params.H, params.Gg, params.Hh, params.N, params.GP) // (44)
 
 	// sL, sR and commitment: (S, rho)
 	sL := sampleRandomVector(params.N, params.GP)                                          // (45)
@@ -297,7 +297,7 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	for j := 0; j < m; j++ {
 		hpSlide := hp[j*bitsPerValue : (j+1)*bitsPerValue]
 		zp := new(big.Int).Exp(z, big.NewInt(2+int64(j)), mod)
-		exp := VectorAddConst(powersOfTwo, zp, mod)
+		exp, _ := VectorScalarMul(powersOfTwo, zp, mod)
 		val, _ := VectorExp(hpSlide, exp, params.GP)
 		prod.Add(prod, val)
 	}
-- 
2.43.0


From 15f811867f5d329e4edc52ff432e7633543657c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:18 +0000
Subject: [PATCH 03/18] fix: reject unusable parameters with an error instead
 of panicking

MultiProve and MultiBulletProof.Verify divided by the number of values and
left positions unset when it does not divide the bit-length, Setup accepted
-2^63 as a power of two, and the vote proof Setup accepted challenges longer
than the digest they are cut from.
---
 bulletproofs/multibp.go | 7 +++++++
 bulletproofs/util.go    | 2 +-
 voteproof/voteproof.go  | 3 ++-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index 2303bdf..3036fdb 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -19,6 +19,7 @@ package bulletproofs
 
 import (
 	"crypto/rand"
+	"errors"
 	"fmt"
 	"github.com/takakv/msc-poc/group"
 	"math/big"
@@ -54,6 +55,9 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 	mod := params.GP.N()
 
 	m := len(secrets)
+	if m == 0 || int(params.N)%m != 0 {
+		return proof, nil, errors.New("the number of values must divide the bit-length of the range")
+	}
 	bitsPerValue := int(params.N) / m
 
 	commitments := make([]group.Element, m)
@@ -229,6 +233,9 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	mod := params.GP.N()
 
 	m := len(proof.Vs)
+	if m == 0 || int(params.N)%m != 0 {
+		return false, errors.New("the number of values must divide the bit-length of the range")
+	}
 	bitsPerValue := int(params.N) / m
 
 	// Recover x, y, z using Fiat-Shamir heuristic
diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 4986f68..487a1c6 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -128,5 +128,5 @@ IsPowerOfTwo returns true for arguments that are a power of 2, false otherwise.
 https://stackoverflow.com/a/600306/844313
 */
 func IsPowerOfTwo(x int64) bool {
-	return (x != 0) && ((x & (x - 1)) == 0)
+	return (x > 0) && ((x & (x - 1)) == 0)
 }
diff --git a/voteproof/voteproof.go b/voteproof/voteproof.go
index ca42be8..dfd501a 100644
--- a/voteproof/voteproof.go
+++ b/voteproof/voteproof.go
@@ -89,7 +89,8 @@ func Setup(lenSecret uint8, lenChallenge uint16, groupOrderLog uint16,
 	params.GFF = AP.GFF
 	params.GEC = AP.GEC
 
-	if params.Bb < 1 {
+	// The challenge is cut from a SHA-256 digest.
+	if params.Bb < 1 || int(lenChallenge) > 8*sha256.Size {
 		return params, errors.New("inconsistent parameter choice")
 	}
 
-- 
2.43.0


From 58afdbacbf93c8fafcfe93e0bc8db2f9e288664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:20 +0000
Subject: [PATCH 04/18] fix: reject inner product proofs with the wrong number
 of rounds

Verify indexed L, R and the generators without comparing their lengths, so a
malformed proof made the verifier panic.
---
 bulletproofs/bip.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index 9b2b63c..bc00edb 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -223,6 +223,10 @@ func (proof InnerProductProof) Verify() (bool, error) {
 	gprime := proof.Params.Gg
 	hprime := proof.Params.Hh
 
+	if len(proof.R) != logn || len(gprime) == 0 || len(hprime) != len(gprime) || len(gprime) != 1<<logn {
+		return false, errors.New("the number of rounds does not match the number of generators")
+	}
+
 	// Fiat-Shamir
 	x, _ = hashIP(gprime, hprime, proof.P, proof.Cc) // (6) & (7)
 
-- 
2.43.0


From 97e578e7632aa2b2a7e818635d7908a2d771c33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:21 +0000
Subject: [PATCH 05/18] fix: verify the inner product argument against the
 verifier's own statement

The generators, the auxiliary generator and the claimed inner product were
taken from the proof, so a prover could choose them and prove any value.
---
 bulletproofs/bp.go      | 11 ++++++++++-
 bulletproofs/multibp.go | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 19322b3..341ea33 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -324,7 +324,16 @@ func (proof *BulletProof) Verify() (bool, error) {
 	c67 := rP.IsIdentity()
 
 	// Verify Inner Product Proof ################################################
-	ok, _ := proof.InnerProductProof.Verify()
+	// The argument must be about the verifier's generators and about Tprime,
+	// whatever the prover put in the proof.
+	ipp, setupErr := setupInnerProduct(params.Gg, hp, params.N, params.GP)
+	if setupErr != nil {
+		return false, setupErr
+	}
+	ipProof := proof.InnerProductProof
+	ipProof.Params = ipp
+	ok, _ := ipProof.Verify()
+	ok = ok && ipProof.Cc.Cmp(proof.Tprime) == 0
 
 	result := c65 && c67 && ok
 
diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index 3036fdb..439472d 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -325,7 +325,16 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	fmt.Println("Check 67:", c67)
 
 	// Verify Inner Product Proof ################################################
-	ok, _ := proof.InnerProductProof.Verify()
+	// The argument must be about the verifier's generators and about Tprime,
+	// whatever the prover put in the proof.
+	ipp, setupErr := setupInnerProduct(params.Gg, hp, params.N, params.GP)
+	if setupErr != nil {
+		return false, setupErr
+	}
+	ipProof := proof.InnerProductProof
+	ipProof.Params = ipp
+	ok, _ := ipProof.Verify()
+	ok = ok && ipProof.Cc.Cmp(proof.Tprime) == 0
 	fmt.Println("Check 68:", ok)
 
 	result := c65 && c67 && ok
-- 
2.43.0


From c2b3eace96fe0df1d409ae502e904289823ab1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:22 +0000
Subject: [PATCH 06/18] fix: bind range proof challenges to everything the
 prover has sent

The challenges did not cover the commitments to the proven values, and x did
not cover A and S, so a prover could choose them after seeing the challenges
(the Frozen Heart forgery) and prove values outside the range.
---
 bulletproofs/bip.go     |  6 +++---
 bulletproofs/bp.go      |  8 ++++----
 bulletproofs/multibp.go | 10 ++++++----
 bulletproofs/util.go    | 10 +++++-----
 4 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index bc00edb..7760529 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -173,7 +173,7 @@ func computeBipRecursive(a, b []*big.Int, g, h []group.Element, u, P group.Eleme
 	R.Add(R, SP.Element().Scale(u, cR))
 
 	// Fiat-Shamir:                                                       // (26)
-	x, _, _ = HashBP(L, R)
+	x, _, _ = HashBP(P, L, R)
 	xinv = bn.ModInverse(x, SP.N())
 
 	// Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
@@ -234,8 +234,8 @@ func (proof InnerProductProof) Verify() (bool, error) {
 
 	nprime := len(gprime)
 	for i := int64(0); i < int64(logn); i++ {
-		nprime = nprime / 2                      // (20)
-		x, _, _ = HashBP(proof.L[i], proof.R[i]) // (26)
+		nprime = nprime / 2                              // (20)
+		x, _, _ = HashBP(Pprime, proof.L[i], proof.R[i]) // (26)
 		xinv = bn.ModInverse(x, proof.Params.GP.N())
 		// Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
 		ngprime = vectorScalarExp(gprime[:nprime], xinv, proof.Params.GP)
diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 341ea33..94fc68b 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -130,7 +130,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, *big.In
 	proof.S = S // (48)
 
 	// Fiat-Shamir heuristic to compute challenges y and z.
-	y, z, _ := HashBP(A, S) // (49) & (50)
+	y, z, _ := HashBP(V, A, S) // (49) & (50)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Second phase: page 20                                                     //
@@ -187,7 +187,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, *big.In
 	proof.T2 = T2 // (54)
 
 	// Fiat-Shamir heuristic to compute 'random' challenge x
-	x, _, _ := HashBP(T1, T2) // (55) & (56)
+	x, _, _ := HashBP(V, A, S, T1, T2) // (55) & (56)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Third phase: page 20                                                      //
@@ -250,8 +250,8 @@ func (proof *BulletProof) Verify() (bool, error) {
 	mod := params.GP.N()
 
 	// Recover x, y, z using Fiat-Shamir heuristic
-	x, _, _ := HashBP(proof.T1, proof.T2)
-	y, z, _ := HashBP(proof.A, proof.S)
+	x, _, _ := HashBP(proof.V, proof.A, proof.S, proof.T1, proof.T2)
+	y, z, _ := HashBP(proof.V, proof.A, proof.S)
 
 	zSquared := new(big.Int).Mod(new(big.Int).Mul(z, z), mod)
 	xSquared := new(big.Int).Mod(new(big.Int).Mul(x, x), mod)
diff --git a/bulletproofs/multibp.go b/bulletproofs/multibp.go
index 439472d..b757d84 100644
--- a/bulletproofs/multibp.go
+++ b/bulletproofs/multibp.go
@@ -99,7 +99,8 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 	proof.S = S // (48)
 
 	// Fiat-Shamir heuristic to compute challenges y and z.
-	y, z, _ := HashBP(A, S) // (49) & (50)
+	transcript := append(append([]group.Element{}, commitments...), A, S)
+	y, z, _ := HashBP(transcript...) // (49) & (50)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Second phase: page 20                                                     //
@@ -162,7 +163,7 @@ func MultiProve(secrets []*big.Int, params BulletProofSetupParams) (MultiBulletP
 	proof.T2 = T2 // (54)
 
 	// Fiat-Shamir heuristic to compute 'random' challenge x
-	x, _, _ := HashBP(T1, T2) // (55) & (56)
+	x, _, _ := HashBP(append(transcript, T1, T2)...) // (55) & (56)
 
 	// ////////////////////////////////////////////////////////////////////////////
 	// Third phase: page 20                                                      //
@@ -239,8 +240,9 @@ func (proof *MultiBulletProof) Verify() (bool, error) {
 	bitsPerValue := int(params.N) / m
 
 	// Recover x, y, z using Fiat-Shamir heuristic
-	x, _, _ := HashBP(proof.T1, proof.T2)
-	y, z, _ := HashBP(proof.A, proof.S)
+	transcript := append(append([]group.Element{}, proof.Vs...), proof.A, proof.S)
+	y, z, _ := HashBP(transcript...)
+	x, _, _ := HashBP(append(transcript, proof.T1, proof.T2)...)
 
 	zSquared := new(big.Int).Mod(new(big.Int).Mul(z, z), mod)
 	xSquared := new(big.Int).Mod(new(big.Int).Mul(x, x), mod)
diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 487a1c6..8bf0b50 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -51,12 +51,13 @@ func powerOf(x *big.Int, n int64, SP group.Group) []*big.Int {
 /*
 HashBP is responsible for the computing a Zp element given elements from GT and G1.
 */
-func HashBP(A, S group.Element) (*big.Int, *big.Int, error) {
+func HashBP(elements ...group.Element) (*big.Int, *big.Int, error) {
 
 	digest1 := sha256.New()
 	var buffer bytes.Buffer
-	buffer.WriteString(A.String())
-	buffer.WriteString(S.String())
+	for _, e := range elements {
+		buffer.WriteString(e.String())
+	}
 	digest1.Write(buffer.Bytes())
 	output1 := digest1.Sum(nil)
 	tmp1 := output1[0:]
@@ -64,8 +65,7 @@ func HashBP(A, S group.Element) (*big.Int, *big.Int, error) {
 
 	digest2 := sha256.New()
 	var buffer2 bytes.Buffer
-	buffer2.WriteString(A.String())
-	buffer2.WriteString(S.String())
+	buffer2.Write(buffer.Bytes())
 	buffer2.WriteString(result1.String())
 	digest2.Write(buffer2.Bytes())
 	output2 := digest2.Sum(nil)
-- 
2.43.0


From 2d6563713c9d96c60b686902ca6acf0cf96904f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:23 +0000
Subject: [PATCH 07/18] fix: verify vote proofs under the election's parameters

The verifier used the key, the generators and the challenge and response
lengths that came with the proof, so a voter could choose them (an empty
challenge, for one) and prove any ciphertext.
---
 server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server.go b/server.go
index 697feeb..1c94c10 100644
--- a/server.go
+++ b/server.go
@@ -40,6 +40,9 @@ func verifyVote(proofs BallotData, rpParams voteproof.ProofParams) (bool, []time
 		Xq2: Xq2,             // Upper bound shifted back to the secret
 	}
 
+	// The parameters are those of the election, whatever the voter put in the proof.
+	proofs.VoteProof.Params = rpParams
+
 	// Verify the consistency of the shifted commitments with the ElGamal ciphertext.
 	result := proofs.VoteProof.Verify(commitments)
 	durationRP := time.Since(startRP)
-- 
2.43.0


From 7f971b62305fec37c1528c579c014773a49b9b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:23 +0000
Subject: [PATCH 08/18] fix: bind the vote proof challenge to the statement

The challenge did not cover the ciphertext and the commitments, so they could
be chosen after it and a ciphertext of an invalid choice be proven correct.
---
 voteproof/voteproof.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/voteproof/voteproof.go b/voteproof/voteproof.go
index dfd501a..55db913 100644
--- a/voteproof/voteproof.go
+++ b/voteproof/voteproof.go
@@ -110,10 +110,14 @@ func sigmaPedersenCheck(z, s, c *big.Int, k, x group.Element, gp GroupParameters
 	return left.IsEqual(right)
 }
 
-func getFSChallenge(w group.Element, Kp group.Element, Kq1, Kq2 group.Element, pow2bound uint16) *big.Int {
+func getFSChallenge(comm VerCommitments, w group.Element, Kp group.Element, Kq1, Kq2 group.Element, pow2bound uint16) *big.Int {
 	hasher := sha256.New()
 
 	var buffer bytes.Buffer
+	buffer.WriteString(comm.Y.String())
+	buffer.WriteString(comm.Xp.String())
+	buffer.WriteString(comm.Xq1.String())
+	buffer.WriteString(comm.Xq2.String())
 	buffer.WriteString(w.String())
 	buffer.WriteString(Kp.String())
 	buffer.WriteString(Kq1.String())
@@ -131,6 +135,14 @@ func Prove(secret *big.Int, rp *big.Int, rq1, rq2 *big.Int, params ProofParams)
 	// Exclusive upper bound
 	zUpperBound := new(big.Int).Exp(BigTwo, new(big.Int).Add(bxbc, big.NewInt(int64(params.Bb))), nil)
 
+	// Statement
+	comm := VerCommitments{
+		Y:   params.GFF.I.Element().BaseScale(rp),
+		Xp:  pedersenCommit(secret, rp, params.GFF),
+		Xq1: pedersenCommit(secret, rq1, params.GEC),
+		Xq2: pedersenCommit(secret, rq2, params.GEC),
+	}
+
 	// Abort loop
 	for {
 		// Setup
@@ -149,7 +161,7 @@ func Prove(secret *big.Int, rp *big.Int, rq1, rq2 *big.Int, params ProofParams)
 		Kq2 := pedersenCommit(kq, tq2, params.GEC)
 
 		// Challenge
-		challenge := getFSChallenge(w, Kp, Kq1, Kq2, params.Bc)
+		challenge := getFSChallenge(comm, w, Kp, Kq1, Kq2, params.Bc)
 		z := new(big.Int).Add(k, new(big.Int).Mul(challenge, secret))
 		if z.Cmp(zLowerBound) == -1 || z.Cmp(zUpperBound) != -1 {
 			fmt.Println("Aborted")
@@ -193,7 +205,7 @@ func (proof *SigmaProof) Verify(comm VerCommitments) bool {
 	}
 
 	// Verify challenge correctness.
-	challenge := getFSChallenge(proof.W, proof.Kp, proof.Kq1, proof.Kq2, proof.Params.Bc)
+	challenge := getFSChallenge(comm, proof.W, proof.Kp, proof.Kq1, proof.Kq2, proof.Params.Bc)
 	if challenge.Cmp(proof.Challenge) != 0 {
 		return false
 	}
-- 
2.43.0


From d055192f35066096812adbcbf9f0898fdccb66d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:57 +0000
Subject: [PATCH 09/18] fix: do not overwrite shared values when decoding P-256
 and P-384 points

---
 group/p256.go | 14 ++++++++++----
 group/p384.go | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/group/p256.go b/group/p256.go
index d329728..da10633 100644
--- a/group/p256.go
+++ b/group/p256.go
@@ -151,8 +151,14 @@ func (e *p256Point) MarshalBinary() ([]byte, error) {
 }
 
 func (e *p256Point) UnmarshalBinary(data []byte) error {
-	err := e.val.UnmarshalBinary(data)
-	return err
+	// The receiver may share its value with other elements.
+	val := group.P256.NewElement()
+	err := val.UnmarshalBinary(data)
+	if err != nil {
+		return err
+	}
+	e.val = val
+	return nil
 }
 
 func (e *p256Point) MarshalJSON() ([]byte, error) {
@@ -188,7 +194,7 @@ func (e *p256Point) UnmarshalJSON(data []byte) error {
 
 	// The special case encoding of the point at infinity.
 	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
-		err = e.val.UnmarshalBinary([]byte{0})
+		err = e.UnmarshalBinary([]byte{0})
 		return err
 	}
 
@@ -202,7 +208,7 @@ func (e *p256Point) UnmarshalJSON(data []byte) error {
 	// Copy while maintaining leading zeroes.
 	copy(tmp[1+byteLen-len(xBytes):byteLen+1], point.X.Bytes())
 	copy(tmp[1+2*byteLen-len(yBytes):], point.Y.Bytes())
-	err = e.val.UnmarshalBinary(tmp)
+	err = e.UnmarshalBinary(tmp)
 	return err
 }
 
diff --git a/group/p384.go b/group/p384.go
index cd298b1..d26ecaa 100644
--- a/group/p384.go
+++ b/group/p384.go
@@ -151,8 +151,14 @@ func (e *p384Point) MarshalBinary() ([]byte, error) {
 }
 
 func (e *p384Point) UnmarshalBinary(data []byte) error {
-	err := e.val.UnmarshalBinary(data)
-	return err
+	// The receiver may share its value with other elements.
+	val := group.P384.NewElement()
+	err := val.UnmarshalBinary(data)
+	if err != nil {
+		return err
+	}
+	e.val = val
+	return nil
 }
 
 func (e *p384Point) MarshalJSON() ([]byte, error) {
@@ -188,7 +194,7 @@ func (e *p384Point) UnmarshalJSON(data []byte) error {
 
 	// The special case encoding of the point at infinity.
 	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
-		err = e.val.UnmarshalBinary([]byte{0})
+		err = e.UnmarshalBinary([]byte{0})
 		return err
 	}
 
@@ -202,7 +208,7 @@ func (e *p384Point) UnmarshalJSON(data []byte) error {
 	// Copy while maintaining leading zeroes.
 	copy(tmp[1+byteLen-len(xBytes):byteLen+1], point.X.Bytes())
 	copy(tmp[1+2*byteLen-len(yBytes):], point.Y.Bytes())
-	err = e.val.UnmarshalBinary(tmp)
+	err = e.UnmarshalBinary(tmp)
 	return err
 }
 
-- 
2.43.0


From e2e57603e9730d3b9c51e7bcc391631eee5097bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:10 +0000
Subject: [PATCH 10/18] fix: reject missing and out of range point coordinates
 instead of panicking

---
 group/p256.go  |  8 ++++++--
 group/p384.go  |  8 ++++++--
 group/types.go | 11 +++++++++++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/group/p256.go b/group/p256.go
index da10633..1967c25 100644
--- a/group/p256.go
+++ b/group/p256.go
@@ -192,14 +192,18 @@ func (e *p256Point) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	byteLen := 32
+
+	if !point.fits(byteLen) {
+		return fmt.Errorf("missing or out of range coordinate")
+	}
+
 	// The special case encoding of the point at infinity.
 	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
 		err = e.UnmarshalBinary([]byte{0})
 		return err
 	}
 
-	byteLen := 32
-
 	xBytes := point.X.Bytes()
 	yBytes := point.Y.Bytes()
 
diff --git a/group/p384.go b/group/p384.go
index d26ecaa..328d541 100644
--- a/group/p384.go
+++ b/group/p384.go
@@ -192,14 +192,18 @@ func (e *p384Point) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	byteLen := 48
+
+	if !point.fits(byteLen) {
+		return fmt.Errorf("missing or out of range coordinate")
+	}
+
 	// The special case encoding of the point at infinity.
 	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
 		err = e.UnmarshalBinary([]byte{0})
 		return err
 	}
 
-	byteLen := 48
-
 	xBytes := point.X.Bytes()
 	yBytes := point.Y.Bytes()
 
diff --git a/group/types.go b/group/types.go
index a7f38a9..add6475 100644
--- a/group/types.go
+++ b/group/types.go
@@ -8,6 +8,17 @@ type ECPoint struct {
 	Y *big.Int `json:"y"`
 }
 
+// fits returns true if both coordinates are present and can be
+// written as unsigned integers of byteLen bytes.
+func (p ECPoint) fits(byteLen int) bool {
+	for _, c := range []*big.Int{p.X, p.Y} {
+		if c == nil || c.Sign() < 0 || c.BitLen() > 8*byteLen {
+			return false
+		}
+	}
+	return true
+}
+
 // GroupId is needed for JSON marshalling groups.
 type GroupId struct {
 	Name string `json:"group"`
-- 
2.43.0


From 4cb50b908a21395024ccb3997d7b38cb23efcd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:56 +0000
Subject: [PATCH 11/18] fix: encode ristretto255 elements in JSON by their
 canonical bytes

---
 group/ristretto255.go | 58 +++++++++++--------------------------------
 1 file changed, 14 insertions(+), 44 deletions(-)

diff --git a/group/ristretto255.go b/group/ristretto255.go
index 10db44c..ccc553e 100644
--- a/group/ristretto255.go
+++ b/group/ristretto255.go
@@ -3,7 +3,6 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
-	"fmt"
 	"github.com/cloudflare/circl/group"
 	"math/big"
 )
@@ -151,59 +150,30 @@ func (e *r255Point) MarshalBinary() ([]byte, error) {
 }
 
 func (e *r255Point) UnmarshalBinary(data []byte) error {
-	err := e.val.UnmarshalBinary(data)
-	return err
+	val := group.Ristretto255.NewElement()
+	err := val.UnmarshalBinary(data)
+	if err != nil {
+		return err
+	}
+	e.val = val
+	return nil
 }
 
 func (e *r255Point) MarshalJSON() ([]byte, error) {
-	tmp, _ := e.val.MarshalBinary()
-	xVal := big.NewInt(0)
-	yVal := big.NewInt(0)
-
-	// If the point is not 0.
-	if tmp[0] != 0 {
-		xBytes := tmp[1 : 32+1]
-		yBytes := tmp[1+32:]
-		if len(xBytes) != 32 || len(xBytes) != len(yBytes) {
-			return nil, fmt.Errorf("error in underlying binary marshalling")
-		}
-		xVal.SetBytes(xBytes)
-		yVal.SetBytes(yBytes)
-	}
-
-	point := ECPoint{
-		X: xVal,
-		Y: yVal,
+	tmp, err := e.val.MarshalBinary()
+	if err != nil {
+		return nil, err
 	}
-
-	return json.Marshal(&point)
+	return json.Marshal(tmp)
 }
 
 func (e *r255Point) UnmarshalJSON(data []byte) error {
-	point := ECPoint{}
-	err := json.Unmarshal(data, &point)
+	var tmp []byte
+	err := json.Unmarshal(data, &tmp)
 	if err != nil {
 		return err
 	}
-
-	// The special case encoding of the point at infinity.
-	if point.X.Cmp(big.NewInt(0)) == 0 && point.Y.Cmp(big.NewInt(0)) == 0 {
-		err = e.val.UnmarshalBinary([]byte{0})
-		return err
-	}
-
-	byteLen := 32
-
-	xBytes := point.X.Bytes()
-	yBytes := point.Y.Bytes()
-
-	tmp := make([]byte, 1+2*byteLen)
-	tmp[0] = 4
-	// Copy while maintaining leading zeroes.
-	copy(tmp[1+byteLen-len(xBytes):byteLen+1], point.X.Bytes())
-	copy(tmp[1+2*byteLen-len(yBytes):], point.Y.Bytes())
-	err = e.val.UnmarshalBinary(tmp)
-	return err
+	return e.UnmarshalBinary(tmp)
 }
 
 func Ristretto255() Group {
-- 
2.43.0


From aecb1ad4170b7118ce656a9e81a8f32ec7d4a3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:08 +0000
Subject: [PATCH 12/18] fix: keep leading zeroes when encoding secp256k1 points

---
 group/p256k1.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/group/p256k1.go b/group/p256k1.go
index 233e702..1499d6c 100644
--- a/group/p256k1.go
+++ b/group/p256k1.go
@@ -152,8 +152,8 @@ func (e *p256k1Point) FieldOrder() *big.Int {
 
 func (e *p256k1Point) MapToGroup(s string) (Element, error) {
 	tmp, _ := p256.MapToGroup(s)
-	tmpX := tmp.X.Bytes()
-	tmpY := tmp.Y.Bytes()
+	tmpX := tmp.X.FillBytes(make([]byte, 32))
+	tmpY := tmp.Y.FillBytes(make([]byte, 32))
 	res := e.curve.Element().SetBytes(append(tmpX, tmpY...))
 	return res, nil
 }
@@ -172,12 +172,12 @@ func (e *p256k1Point) IsIdentity() bool {
 func (e *p256k1Point) MarshalBinary() ([]byte, error) {
 	xBytes := make([]byte, 32)
 	if e.val.X != nil {
-		xBytes = e.val.X.Bytes()
+		e.val.X.FillBytes(xBytes)
 	}
 
 	yBytes := make([]byte, 32)
 	if e.val.Y != nil {
-		yBytes = e.val.Y.Bytes()
+		e.val.Y.FillBytes(yBytes)
 	}
 
 	return append(xBytes, yBytes...), nil
-- 
2.43.0


From c0fad831d49e21ef9a331cad46e4e108f3ac4f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:19 +0000
Subject: [PATCH 13/18] fix: decode secp256k1 points from JSON and reject
 invalid ones

---
 group/p256k1.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/group/p256k1.go b/group/p256k1.go
index 1499d6c..bea5f58 100644
--- a/group/p256k1.go
+++ b/group/p256k1.go
@@ -3,6 +3,7 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
+	"errors"
 	"github.com/ing-bank/zkrp/crypto/p256"
 	"math/big"
 )
@@ -62,6 +63,20 @@ func (g *p256k1Group) Element() Element {
 	return p
 }
 
+// contains returns true if val is the point at infinity or has reduced
+// coordinates that satisfy the curve equation.
+func (g *p256k1Group) contains(val *p256.P256) bool {
+	if val.X == nil || val.Y == nil {
+		return val.X == nil && val.Y == nil
+	}
+	for _, c := range []*big.Int{val.X, val.Y} {
+		if c.Sign() < 0 || c.Cmp(g.fieldOrder) >= 0 {
+			return false
+		}
+	}
+	return val.IsZero() || val.IsOnCurve()
+}
+
 func (e *p256k1Point) check(a Element) *p256k1Point {
 	ey, ok := a.(*p256k1Point)
 	if !ok {
@@ -184,7 +199,14 @@ func (e *p256k1Point) MarshalBinary() ([]byte, error) {
 }
 
 func (e *p256k1Point) UnmarshalBinary(data []byte) error {
-	e.SetBytes(data)
+	if len(data) != 64 {
+		return errors.New("invalid length of point encoding")
+	}
+	val := e.curve.Element().SetBytes(data).(*p256k1Point).val
+	if !e.curve.contains(val) {
+		return errors.New("not a point on the curve")
+	}
+	e.val = val
 	return nil
 }
 
@@ -193,6 +215,15 @@ func (e *p256k1Point) MarshalJSON() ([]byte, error) {
 }
 
 func (e *p256k1Point) UnmarshalJSON(data []byte) error {
+	val := new(p256.P256)
+	err := json.Unmarshal(data, val)
+	if err != nil {
+		return err
+	}
+	if !e.curve.contains(val) {
+		return errors.New("not a point on the curve")
+	}
+	e.val = val
 	return nil
 }
 
-- 
2.43.0


From db5b5ec807a256340140f60a135c23d1e4d22f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 14/18] fix: only decode members of the ElGamal group

---
 group/modsafeprime.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/group/modsafeprime.go b/group/modsafeprime.go
index 746f4a4..baec379 100644
--- a/group/modsafeprime.go
+++ b/group/modsafeprime.go
@@ -3,6 +3,7 @@ package group
 import (
 	"crypto/rand"
 	"encoding/json"
+	"errors"
 	"math/big"
 	"strings"
 )
@@ -38,6 +39,12 @@ func (g *ModPGroup) equals(h Group) bool {
 	return g.fieldOrder.Cmp(gh.fieldOrder) == 0 && g.gen.Cmp(gh.gen) == 0
 }
 
+// contains returns true if x is a quadratic residue, i.e. belongs to
+// the subgroup of order (p-1)/2 of the safe prime p.
+func (g *ModPGroup) contains(x *big.Int) bool {
+	return x.Sign() > 0 && x.Cmp(g.fieldOrder) < 0 && big.Jacobi(x, g.fieldOrder) == 1
+}
+
 func (g *ModPGroup) P() *big.Int {
 	return g.fieldOrder
 }
@@ -158,7 +165,11 @@ func (e *ModPElement) MarshalBinary() ([]byte, error) {
 }
 
 func (e *ModPElement) UnmarshalBinary(data []byte) error {
-	e.val = new(big.Int).SetBytes(data)
+	val := new(big.Int).SetBytes(data)
+	if !e.group.contains(val) {
+		return errors.New("not an element of the group")
+	}
+	e.val = val
 	return nil
 }
 
@@ -167,8 +178,16 @@ func (e *ModPElement) MarshalJSON() ([]byte, error) {
 }
 
 func (e *ModPElement) UnmarshalJSON(data []byte) error {
-	err := e.val.UnmarshalJSON(data)
-	return err
+	val := new(big.Int)
+	err := val.UnmarshalJSON(data)
+	if err != nil {
+		return err
+	}
+	if !e.group.contains(val) {
+		return errors.New("not an element of the group")
+	}
+	e.val = val
+	return nil
 }
 
 func NewModPGroup(name string, fieldOrder, generator string) Group {
-- 
2.43.0


From aa643ce3d8439fa9cf873cf43742a078e53421db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:49 +0000
Subject: [PATCH 15/18] fix: reject malformed ballots when decoding them

---
 bulletproofs/marshal.go | 82 ++++++++++++++++++++++++++++++++---------
 marshal.go              | 11 +++++-
 voteproof/marshal.go    | 42 +++++++++++++++++----
 3 files changed, 108 insertions(+), 27 deletions(-)

diff --git a/bulletproofs/marshal.go b/bulletproofs/marshal.go
index 71c14af..5d2c668 100644
--- a/bulletproofs/marshal.go
+++ b/bulletproofs/marshal.go
@@ -2,6 +2,7 @@ package bulletproofs
 
 import (
 	"encoding/json"
+	"errors"
 	"github.com/takakv/msc-poc/group"
 	"math/big"
 )
@@ -36,7 +37,11 @@ type bulletProofJSON struct {
 	Params            json.RawMessage
 }
 
-func ipParamsFromRawMessage(j innerProductParamsJSON, g group.Group) InnerProductParams {
+func ipParamsFromRawMessage(j innerProductParamsJSON, g group.Group) (InnerProductParams, error) {
+	if len(j.Gg) != len(j.Hh) {
+		return InnerProductParams{}, errors.New("mismatched number of generators")
+	}
+
 	params := InnerProductParams{
 		Uu: g.Element(),
 		Gg: make([]group.Element, len(j.Gg)),
@@ -44,18 +49,36 @@ func ipParamsFromRawMessage(j innerProductParamsJSON, g group.Group) InnerProduc
 		GP: g,
 	}
 
-	_ = params.Uu.UnmarshalJSON(j.Uu)
+	if err := params.Uu.UnmarshalJSON(j.Uu); err != nil {
+		return InnerProductParams{}, err
+	}
 	for i := range j.Gg {
 		params.Gg[i] = g.Element()
 		params.Hh[i] = g.Element()
-		_ = params.Gg[i].UnmarshalJSON(j.Gg[i])
-		_ = params.Hh[i].UnmarshalJSON(j.Hh[i])
+		if err := params.Gg[i].UnmarshalJSON(j.Gg[i]); err != nil {
+			return InnerProductParams{}, err
+		}
+		if err := params.Hh[i].UnmarshalJSON(j.Hh[i]); err != nil {
+			return InnerProductParams{}, err
+		}
 	}
 
-	return params
+	return params, nil
 }
 
-func ipProofFromRawMessage(j innerProductProofJSON, g group.Group) InnerProductProof {
+func ipProofFromRawMessage(j innerProductProofJSON, g group.Group) (InnerProductProof, error) {
+	if len(j.L) != len(j.R) {
+		return InnerProductProof{}, errors.New("mismatched number of rounds")
+	}
+	if j.Cc == nil || j.A == nil || j.B == nil {
+		return InnerProductProof{}, errors.New("missing scalar in inner product proof")
+	}
+
+	params, err := ipParamsFromRawMessage(j.Params, g)
+	if err != nil {
+		return InnerProductProof{}, err
+	}
+
 	proof := InnerProductProof{
 		L:      make([]group.Element, len(j.L)),
 		R:      make([]group.Element, len(j.R)),
@@ -63,18 +86,24 @@ func ipProofFromRawMessage(j innerProductProofJSON, g group.Group) InnerProductP
 		Cc:     j.Cc,
 		A:      j.A,
 		B:      j.B,
-		Params: ipParamsFromRawMessage(j.Params, g),
+		Params: params,
 	}
 
 	for i := range proof.L {
 		proof.L[i] = g.Element()
 		proof.R[i] = g.Element()
-		_ = proof.L[i].UnmarshalJSON(j.L[i])
-		_ = proof.R[i].UnmarshalJSON(j.R[i])
+		if err = proof.L[i].UnmarshalJSON(j.L[i]); err != nil {
+			return InnerProductProof{}, err
+		}
+		if err = proof.R[i].UnmarshalJSON(j.R[i]); err != nil {
+			return InnerProductProof{}, err
+		}
+	}
+	if err = proof.P.UnmarshalJSON(j.P); err != nil {
+		return InnerProductProof{}, err
 	}
-	_ = proof.P.UnmarshalJSON(j.P)
 
-	return proof
+	return proof, nil
 }
 
 func BulletProofUnmarshalJSON(b []byte, params BulletProofSetupParams) (BulletProof, error) {
@@ -84,6 +113,15 @@ func BulletProofUnmarshalJSON(b []byte, params BulletProofSetupParams) (BulletPr
 		return BulletProof{}, err
 	}
 
+	if tmp.Taux == nil || tmp.Mu == nil || tmp.Tprime == nil {
+		return BulletProof{}, errors.New("missing scalar in range proof")
+	}
+
+	ipProof, err := ipProofFromRawMessage(tmp.InnerProductProof, params.GP)
+	if err != nil {
+		return BulletProof{}, err
+	}
+
 	decodedProof := BulletProof{
 		V:                 params.GP.Element(),
 		A:                 params.GP.Element(),
@@ -93,15 +131,25 @@ func BulletProofUnmarshalJSON(b []byte, params BulletProofSetupParams) (BulletPr
 		Taux:              tmp.Taux,
 		Mu:                tmp.Mu,
 		Tprime:            tmp.Tprime,
-		InnerProductProof: ipProofFromRawMessage(tmp.InnerProductProof, params.GP),
+		InnerProductProof: ipProof,
 		Params:            params,
 	}
 
-	_ = decodedProof.V.UnmarshalJSON(tmp.V)
-	_ = decodedProof.A.UnmarshalJSON(tmp.A)
-	_ = decodedProof.S.UnmarshalJSON(tmp.S)
-	_ = decodedProof.T1.UnmarshalJSON(tmp.T1)
-	_ = decodedProof.T2.UnmarshalJSON(tmp.T2)
+	if err = decodedProof.V.UnmarshalJSON(tmp.V); err != nil {
+		return BulletProof{}, err
+	}
+	if err = decodedProof.A.UnmarshalJSON(tmp.A); err != nil {
+		return BulletProof{}, err
+	}
+	if err = decodedProof.S.UnmarshalJSON(tmp.S); err != nil {
+		return BulletProof{}, err
+	}
+	if err = decodedProof.T1.UnmarshalJSON(tmp.T1); err != nil {
+		return BulletProof{}, err
+	}
+	if err = decodedProof.T2.UnmarshalJSON(tmp.T2); err != nil {
+		return BulletProof{}, err
+	}
 
 	return decodedProof, nil
 }
diff --git a/marshal.go b/marshal.go
index add6ced..1735cc3 100644
--- a/marshal.go
+++ b/marshal.go
@@ -31,14 +31,21 @@ func BallotUnmarshalJSON(b []byte, g group.Group) (ElGamalCiphertext, error) {
 		V: g.Element(),
 	}
 
-	_ = ballot.U.UnmarshalJSON(tmp.U)
-	_ = ballot.V.UnmarshalJSON(tmp.V)
+	if err = ballot.U.UnmarshalJSON(tmp.U); err != nil {
+		return ElGamalCiphertext{}, err
+	}
+	if err = ballot.V.UnmarshalJSON(tmp.V); err != nil {
+		return ElGamalCiphertext{}, err
+	}
 	return ballot, nil
 }
 
 func BallotDataUnmarshalJSON(b []byte, pp PublicParameters) (BallotData, error) {
 	tmp := ballotDataJSON{}
 	err := json.Unmarshal(b, &tmp)
+	if err != nil {
+		return BallotData{}, err
+	}
 
 	ballot, err := BallotUnmarshalJSON(tmp.Ballot, pp.RPParams.GFF.I)
 	if err != nil {
diff --git a/voteproof/marshal.go b/voteproof/marshal.go
index efdab93..1de0fc2 100644
--- a/voteproof/marshal.go
+++ b/voteproof/marshal.go
@@ -2,6 +2,7 @@ package voteproof
 
 import (
 	"encoding/json"
+	"errors"
 	"github.com/takakv/msc-poc/group"
 	"math/big"
 )
@@ -50,6 +51,15 @@ func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 		return SigmaProof{}, err
 	}
 
+	for _, scalar := range []*big.Int{
+		tmp.Challenge, tmp.Z, tmp.Sp, tmp.Sq1, tmp.Sq2,
+		tmp.Params.GFF.N, tmp.Params.GFF.F, tmp.Params.GEC.N, tmp.Params.GEC.F,
+	} {
+		if scalar == nil {
+			return SigmaProof{}, errors.New("missing scalar in vote proof")
+		}
+	}
+
 	var ap AlgebraicParameters
 	ap.GFF.G = gFF.Element()
 	ap.GFF.H = gFF.Element()
@@ -62,10 +72,18 @@ func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 	ap.GEC.F = tmp.Params.GEC.F
 	ap.GEC.I = gEC
 
-	_ = ap.GFF.G.UnmarshalJSON(tmp.Params.GFF.G)
-	_ = ap.GFF.H.UnmarshalJSON(tmp.Params.GFF.H)
-	_ = ap.GEC.G.UnmarshalJSON(tmp.Params.GEC.G)
-	_ = ap.GEC.H.UnmarshalJSON(tmp.Params.GEC.H)
+	if err = ap.GFF.G.UnmarshalJSON(tmp.Params.GFF.G); err != nil {
+		return SigmaProof{}, err
+	}
+	if err = ap.GFF.H.UnmarshalJSON(tmp.Params.GFF.H); err != nil {
+		return SigmaProof{}, err
+	}
+	if err = ap.GEC.G.UnmarshalJSON(tmp.Params.GEC.G); err != nil {
+		return SigmaProof{}, err
+	}
+	if err = ap.GEC.H.UnmarshalJSON(tmp.Params.GEC.H); err != nil {
+		return SigmaProof{}, err
+	}
 
 	var pp ProofParams
 	pp.Bx = tmp.Params.Bx
@@ -89,9 +107,17 @@ func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 	proof.Sq2 = tmp.Sq2
 	proof.Params = pp
 
-	_ = proof.W.UnmarshalJSON(tmp.W)
-	_ = proof.Kp.UnmarshalJSON(tmp.Kp)
-	_ = proof.Kq1.UnmarshalJSON(tmp.Kq1)
-	_ = proof.Kq2.UnmarshalJSON(tmp.Kq2)
+	if err = proof.W.UnmarshalJSON(tmp.W); err != nil {
+		return SigmaProof{}, err
+	}
+	if err = proof.Kp.UnmarshalJSON(tmp.Kp); err != nil {
+		return SigmaProof{}, err
+	}
+	if err = proof.Kq1.UnmarshalJSON(tmp.Kq1); err != nil {
+		return SigmaProof{}, err
+	}
+	if err = proof.Kq2.UnmarshalJSON(tmp.Kq2); err != nil {
+		return SigmaProof{}, err
+	}
 	return proof, nil
 }
-- 
2.43.0


From 84c1da25c9abe2157daee7b41ec083b64e045ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:16 +0000
Subject: [PATCH 16/18] fix: use all bits of the vote proof challenge

A challenge whose length is not a multiple of eight bits lost its last bits;
one of less than eight bits was always zero, so that anything verified.
---
 voteproof/voteproof.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/voteproof/voteproof.go b/voteproof/voteproof.go
index 55db913..c2d272c 100644
--- a/voteproof/voteproof.go
+++ b/voteproof/voteproof.go
@@ -124,8 +124,10 @@ func getFSChallenge(comm VerCommitments, w group.Element, Kp group.Element, Kq1,
 	buffer.WriteString(Kq2.String())
 	hasher.Write(buffer.Bytes())
 
-	challenge := hasher.Sum(nil)[:pow2bound/8]
-	return new(big.Int).SetBytes(challenge)
+	// The challenge is made of the first pow2bound bits of the digest.
+	byteLen := (int(pow2bound) + 7) / 8
+	challenge := new(big.Int).SetBytes(hasher.Sum(nil)[:byteLen])
+	return challenge.Rsh(challenge, uint(8*byteLen-int(pow2bound)))
 }
 
 func Prove(secret *big.Int, rp *big.Int, rq1, rq2 *big.Int, params ProofParams) SigmaProof {
-- 
2.43.0


From d27a5fd280446f03ce70c68be1e7d4464d5eae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:05 +0000
Subject: [PATCH 17/18] fix: encode points without writing to them

The coordinates are reduced in place by the library and may be shared:
those of a generator are the parameters of the curve.
---
 group/p256.go | 7 ++++---
 group/p384.go | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/group/p256.go b/group/p256.go
index 1967c25..bb510c8 100644
--- a/group/p256.go
+++ b/group/p256.go
@@ -138,7 +138,8 @@ func (e *p256Point) MapToGroup(s string) (Element, error) {
 }
 
 func (e *p256Point) String() string {
-	tmp, _ := e.val.MarshalBinary()
+	// Encoding reduces the coordinates in place, and they may be shared.
+	tmp, _ := e.val.Copy().MarshalBinary()
 	return string(tmp)
 }
 
@@ -147,7 +148,7 @@ func (e *p256Point) IsIdentity() bool {
 }
 
 func (e *p256Point) MarshalBinary() ([]byte, error) {
-	return e.val.MarshalBinary()
+	return e.val.Copy().MarshalBinary()
 }
 
 func (e *p256Point) UnmarshalBinary(data []byte) error {
@@ -162,7 +163,7 @@ func (e *p256Point) UnmarshalBinary(data []byte) error {
 }
 
 func (e *p256Point) MarshalJSON() ([]byte, error) {
-	tmp, _ := e.val.MarshalBinary()
+	tmp, _ := e.val.Copy().MarshalBinary()
 	xVal := big.NewInt(0)
 	yVal := big.NewInt(0)
 
diff --git a/group/p384.go b/group/p384.go
index 328d541..510a465 100644
--- a/group/p384.go
+++ b/group/p384.go
@@ -138,7 +138,8 @@ func (e *p384Point) MapToGroup(s string) (Element, error) {
 }
 
 func (e *p384Point) String() string {
-	tmp, _ := e.val.MarshalBinary()
+	// Encoding reduces the coordinates in place, and they may be shared.
+	tmp, _ := e.val.Copy().MarshalBinary()
 	return string(tmp)
 }
 
@@ -147,7 +148,7 @@ func (e *p384Point) IsIdentity() bool {
 }
 
 func (e *p384Point) MarshalBinary() ([]byte, error) {
-	return e.val.MarshalBinary()
+	return e.val.Copy().MarshalBinary()
 }
 
 func (e *p384Point) UnmarshalBinary(data []byte) error {
@@ -162,7 +163,7 @@ func (e *p384Point) UnmarshalBinary(data []byte) error {
 }
 
 func (e *p384Point) MarshalJSON() ([]byte, error) {
-	tmp, _ := e.val.MarshalBinary()
+	tmp, _ := e.val.Copy().MarshalBinary()
 	xVal := big.NewInt(0)
 	yVal := big.NewInt(0)
 
-- 
2.43.0


From 37f2e12a6ea281fe0ca58853d1db019a1d8369e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:41 +0000
Subject: [PATCH 18/18] fix: refuse decoded vote proofs whose lengths cannot be
 verified with

---
 voteproof/marshal.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/voteproof/marshal.go b/voteproof/marshal.go
index 1de0fc2..c2874c4 100644
--- a/voteproof/marshal.go
+++ b/voteproof/marshal.go
@@ -95,6 +95,15 @@ func ProofUnmarshalJSON(b []byte, gFF, gEC group.Group) (SigmaProof, error) {
 	pp.GFF = ap.GFF
 	pp.GEC = ap.GEC
 
+	// The proof can only be verified if its lengths are such as Setup derives.
+	usable, err := Setup(pp.Bx, pp.Bc, pp.Bg, pp.RangeLo, pp.RangeHi, ap)
+	if err != nil {
+		return SigmaProof{}, err
+	}
+	if pp.Bb != usable.Bb {
+		return SigmaProof{}, errors.New("inconsistent lengths in vote proof")
+	}
+
 	var proof SigmaProof
 	proof.W = gFF.Element()
 	proof.Kp = gFF.Element()
-- 
2.43.0

