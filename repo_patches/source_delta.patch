From 6272d9863e685810f86560032a1afe3e0747a469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:31 +0000
Subject: [PATCH 01/20] fix: blsag.Sign must place the mixin keys in the ring
 and randomise every decoy response

The ring was allocated but only the signer slot was ever written, so the
decoys handed by the caller were dropped (and s_0 stayed zero).
---
 ringsig/blsag/blsag.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ringsig/blsag/blsag.go b/ringsig/blsag/blsag.go
index 7a639bb..5259cb2 100644
--- a/ringsig/blsag/blsag.go
+++ b/ringsig/blsag/blsag.go
@@ -42,7 +42,7 @@ func Sign(m []byte, mixin []ristretto.Point, sK ristretto.Scalar) RingSignature
 
 	// generate s_i where i =/= j and s_i E Zq
 	sVals := make([]ristretto.Scalar, len(mixin)+1)
-	for i := 1; i < len(sVals); i++ {
+	for i := 0; i < len(sVals); i++ {
 		var s ristretto.Scalar
 		s.Rand()
 		sVals[i] = s
@@ -68,7 +68,9 @@ func Sign(m []byte, mixin []ristretto.Point, sK ristretto.Scalar) RingSignature
 	cVals[jPlus1] = cPlus1
 
 	pubKeys := make([]ristretto.Point, len(mixin)+1)
+	copy(pubKeys[:j], mixin[:j])
 	pubKeys[j] = pK // add signer
+	copy(pubKeys[j+1:], mixin[j:])
 
 	for i := j + 1; ; i++ {
 
-- 
2.43.0


From 0ece04db5f0bbf83f277c133e5f44c93dfcb4fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:34 +0000
Subject: [PATCH 02/20] fix: blsag.Verify must reject malformed rings instead
 of panicking

---
 ringsig/blsag/blsag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ringsig/blsag/blsag.go b/ringsig/blsag/blsag.go
index 5259cb2..12e3261 100644
--- a/ringsig/blsag/blsag.go
+++ b/ringsig/blsag/blsag.go
@@ -110,6 +110,9 @@ func Verify(m []byte, ringsig RingSignature) bool {
 	// For all i, c_i+1 = H(m, L_i, R_i)
 
 	numPubKeys := len(ringsig.PubKeys)
+	if numPubKeys == 0 || len(ringsig.S) != numPubKeys {
+		return false
+	}
 
 	currC := ringsig.C // this is first c value c[0]
 
-- 
2.43.0


From 0290e3d1ef87130b6d3c25bee10975360c85c2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:36 +0000
Subject: [PATCH 03/20] fix: bls batch verification must reject mismatched key
 and message counts

Surplus keys were silently ignored, surplus messages (and an empty batch)
panicked.
---
 bls/bls.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bls/bls.go b/bls/bls.go
index 353517f..e172281 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -488,6 +488,14 @@ func verify(pk *bn256.G2, msg []byte, sigma *bn256.G1) error {
 }
 
 func verifyBatch(pkeys []*bn256.G2, msgList [][]byte, sig *bn256.G1, allowDistinct bool) error {
+	if len(msgList) == 0 || len(msgList) != len(pkeys) {
+		return fmt.Errorf(
+			"bls: the nr of Public Keys (%d) and the nr. of messages (%d) do not match",
+			len(pkeys),
+			len(msgList),
+		)
+	}
+
 	if !allowDistinct && !distinct(msgList) {
 		return errors.New("bls: Messages are not distinct")
 	}
-- 
2.43.0


From ea6c598946321c5239e818233e7d9d2ba22970dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:55 +0000
Subject: [PATCH 04/20] fix: merkletree must not append to hashes owned by the
 payload

Two leaves whose CalculateHash results share a backing array overwrote each
other, yielding a wrong root.
---
 merkletree/merkletree.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 8f6ea8c..2634d30 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -50,7 +50,7 @@ func VerifyNode(n *Node) ([]byte, error) {
 		return nil, err
 	}
 
-	return hash.Sha3256(append(leftBytes, rightBytes...))
+	return hash.Sha3256(concat(leftBytes, rightBytes))
 }
 
 // CalculateNodeHash is a helper function for calculating the hash of a node
@@ -59,7 +59,7 @@ func CalculateNodeHash(n *Node) ([]byte, error) {
 		return n.Data.CalculateHash()
 	}
 
-	return hash.Sha3256(append(n.Left.Hash, n.Right.Hash...))
+	return hash.Sha3256(concat(n.Left.Hash, n.Right.Hash))
 }
 
 // NewTree constructs a merkletree using the Payload/Content pl
@@ -123,7 +123,7 @@ func createIntermediate(nl []*Node) (*Node, error) {
 		if i+1 == len(nl) {
 			right = i
 		}
-		payloadHash := append(nl[left].Hash, nl[right].Hash...)
+		payloadHash := concat(nl[left].Hash, nl[right].Hash)
 
 		h, err := hash.Sha3256(payloadHash)
 		if err != nil {
@@ -208,7 +208,7 @@ func (t *Tree) VerifyContent(data Payload) (bool, error) {
 					return false, err
 				}
 
-				h, err := hash.Sha3256(append(leftBytes, rightBytes...))
+				h, err := hash.Sha3256(concat(leftBytes, rightBytes))
 
 				if err != nil {
 					return false, err
@@ -241,3 +241,11 @@ func equals(a, b Payload) (bool, error) {
 
 	return bytes.Equal(hashA, hashB), nil
 }
+
+// concat joins two hashes in a fresh slice. Appending to a hash in place could
+// write into spare capacity which belongs to the Payload that returned it
+func concat(left, right []byte) []byte {
+	joined := make([]byte, 0, len(left)+len(right))
+	joined = append(joined, left...)
+	return append(joined, right...)
+}
-- 
2.43.0


From af46587842e7df8c5a0bc93534d9aba09c243ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:57 +0000
Subject: [PATCH 05/20] fix: mlsag Verify must reject signatures whose vectors
 do not line up

Missing responses or keys panicked, and surplus public key vectors were
accepted without being covered by the verification.
---
 mlsag/mlsag.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 0f857e7..0dd200f 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -265,6 +265,19 @@ func (sig *Signature) Verify(keyImages []ristretto.Point) (bool, error) {
 	}
 
 	numUsers := len(sig.r)
+	if len(sig.PubKeys) != numUsers {
+		return false, errors.New("the number of response vectors and pubkey vectors must be the same")
+	}
+	numKeys := sig.PubKeys[0].Len()
+	for i := range sig.r {
+		if sig.PubKeys[i].Len() != numKeys || sig.r[i].Len() != numKeys {
+			return false, errors.New("all response and pubkey vectors must be the same size")
+		}
+	}
+	if len(keyImages) > numKeys {
+		return false, errors.New("cannot have more key images than pubkeys")
+	}
+
 	index := 0
 
 	var prevChallenge = sig.c
-- 
2.43.0


From 4b7bb3a4f2058c2b2ae93a3519a4e13fc50fec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:59 +0000
Subject: [PATCH 06/20] fix: mlsag must handle rings with a single member

prove indexed past the only pubkey vector and Verify walked the ring twice.
---
 mlsag/mlsag.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 0dd200f..87d4f57 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -211,7 +211,7 @@ func (proof *Proof) prove(skipLastKeyImage bool) (*Signature, []ristretto.Point,
 	var prevChallenge ristretto.Scalar
 	prevChallenge.Set(&CjPlusOne)
 
-	for k := secretIndex + 2; k != (secretIndex+1)%numUsers; k = (k + 1) % numUsers {
+	for k := (secretIndex + 2) % numUsers; k != (secretIndex+1)%numUsers; k = (k + 1) % numUsers {
 		i := k % numUsers
 
 		prevIndex := (i - 1) % numUsers
@@ -282,7 +282,7 @@ func (sig *Signature) Verify(keyImages []ristretto.Point) (bool, error) {
 
 	var prevChallenge = sig.c
 
-	for k := index + 1; k != (index)%numUsers; k = (k + 1) % numUsers {
+	for k := (index + 1) % numUsers; k != (index)%numUsers; k = (k + 1) % numUsers {
 		i := k % numUsers
 		prevIndex := (i - 1) % numUsers
 		if prevIndex < 0 {
-- 
2.43.0


From 4fe50ca4475e8c01375eff7a5a30b2f8b9f03146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:28 +0000
Subject: [PATCH 07/20] fix: mlsag Signature.Decode must accept what Encode
 writes for an empty signature

---
 mlsag/mlsag.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 87d4f57..02cedc5 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -80,6 +80,16 @@ func (s *Signature) Decode(r io.Reader, decodeKeys bool) error {
 	if err != nil {
 		return err
 	}
+
+	// Encode writes nothing else for a signature without responses
+	if lenR == 0 {
+		s.r = nil
+		if decodeKeys {
+			s.PubKeys = nil
+		}
+		return nil
+	}
+
 	err = binary.Read(r, binary.BigEndian, &numResponses)
 	if err != nil {
 		return err
-- 
2.43.0


From 317aba0689f62333227506a53d91ec5a01bd3bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:30 +0000
Subject: [PATCH 08/20] fix: mlsag Signature.Decode must not allocate what an
 untrusted header claims

---
 mlsag/mlsag.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 02cedc5..3df04c0 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -95,13 +95,20 @@ func (s *Signature) Decode(r io.Reader, decodeKeys bool) error {
 		return err
 	}
 
-	// Decode the responses
-	s.r = make([]Responses, lenR)
+	if numResponses == 0 {
+		return errors.New("cannot have zero responses per user")
+	}
+
+	// Decode the responses. The sizes are not trusted: memory grows with the
+	// data that is actually there
+	s.r = nil
 	for i := uint32(0); i < lenR; i++ {
-		err = s.r[i].Decode(r, numResponses)
+		var responses Responses
+		err = responses.Decode(r, numResponses)
 		if err != nil {
 			return err
 		}
+		s.r = append(s.r, responses)
 	}
 
 	if !decodeKeys {
@@ -109,12 +116,14 @@ func (s *Signature) Decode(r io.Reader, decodeKeys bool) error {
 	}
 
 	// Decode pubkeys
-	s.PubKeys = make([]PubKeys, lenR)
+	s.PubKeys = nil
 	for i := uint32(0); i < lenR; i++ {
-		err = s.PubKeys[i].Decode(r, numResponses)
+		var pubKeys PubKeys
+		err = pubKeys.Decode(r, numResponses)
 		if err != nil {
 			return err
 		}
+		s.PubKeys = append(s.PubKeys, pubKeys)
 	}
 	return nil
 }
-- 
2.43.0


From 1a9ee00585ab47ca97e75e3ada129943b3c456d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:32 +0000
Subject: [PATCH 09/20] fix: mlsag Signature.Equals must compare the number of
 response vectors

---
 mlsag/mlsag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 3df04c0..70ea5e6 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -134,6 +134,10 @@ func (s Signature) Equals(other Signature, includeKeys bool) bool {
 		return ok
 	}
 
+	if len(s.r) != len(other.r) {
+		return false
+	}
+
 	for i := range s.r {
 		ok = s.r[i].Equals(other.r[i])
 		if !ok {
-- 
2.43.0


From fbf5e7ae0041e60a9c82b9c6df1cf071b02e5046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:34 +0000
Subject: [PATCH 10/20] fix: mlsag AddDecoy must not share the caller's keys

SubCommToZero subtracted the commitment from the caller's own public keys,
so reusing the decoys for a second proof gave a wrong ring.
---
 mlsag/proof.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mlsag/proof.go b/mlsag/proof.go
index 71a130f..2007108 100644
--- a/mlsag/proof.go
+++ b/mlsag/proof.go
@@ -35,6 +35,8 @@ func (p *Proof) addPubKeys(keys PubKeys) {
 
 func (p *Proof) AddDecoy(keys PubKeys) {
 	keys.decoy = true
+	// SubCommToZero works on these keys in place: do not share them with the caller
+	keys.keys = append([]ristretto.Point(nil), keys.keys...)
 	p.addPubKeys(keys)
 }
 
-- 
2.43.0


From 1867903b9529d4f7b312f9acf4c1f37cdbc0b188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:47 +0000
Subject: [PATCH 11/20] fix: rangeproof must take the number of values from its
 argument, not from a package global

Verify depended on the last Prove of the process: a proof for another number
of values was rejected or panicked, surplus commitments went unverified, and
concurrent use raced.
---
 rangeproof/debug.go      | 40 ++++++++++++-------------
 rangeproof/poly.go       | 17 +++++------
 rangeproof/rangeproof.go | 64 +++++++++++++++++++++++-----------------
 3 files changed, 65 insertions(+), 56 deletions(-)

diff --git a/rangeproof/debug.go b/rangeproof/debug.go
index ecaaacc..0326801 100644
--- a/rangeproof/debug.go
+++ b/rangeproof/debug.go
@@ -12,14 +12,14 @@ import (
 )
 
 // Put all debug functions here
-func debugProve(x, y, z ristretto.Scalar, v, l, r []ristretto.Scalar, aL, aR, sL, sR []ristretto.Scalar) error {
+func debugProve(x, y, z ristretto.Scalar, v, l, r []ristretto.Scalar, aL, aR, sL, sR []ristretto.Scalar, m int) error {
 
-	ok, err := debugLxG(l, x, z, aL, aR, sL)
+	ok, err := debugLxG(l, x, z, aL, aR, sL, m)
 	if !ok {
 		return errors.Wrap(err, "[DEBUG]: <l(x), G> is constructed incorrectly")
 	}
 
-	ok, err = debugRxHPrime(r, x, y, z, aR, sR)
+	ok, err = debugRxHPrime(r, x, y, z, aR, sR, m)
 	if !ok {
 		return errors.Wrap(err, "[DEBUG]: <r(x), H'> is constructed incorrectly")
 	}
@@ -37,20 +37,20 @@ func debugProve(x, y, z ristretto.Scalar, v, l, r []ristretto.Scalar, aL, aR, sL
 
 // DEBUG
 
-func debugT0(aL, aR []ristretto.Scalar, y, z ristretto.Scalar) (ristretto.Scalar, error) {
+func debugT0(aL, aR []ristretto.Scalar, y, z ristretto.Scalar, m int) (ristretto.Scalar, error) {
 
 	aLMinusZ := vector.SubScalar(aL, z)
 
 	aRPlusZ := vector.AddScalar(aR, z)
 
-	yNM := vector.ScalarPowers(y, uint32(N*M))
+	yNM := vector.ScalarPowers(y, uint32(N*m))
 
 	hada, err := vector.Hadamard(yNM, aRPlusZ)
 	if err != nil {
 		return ristretto.Scalar{}, err
 	}
 
-	zMTwoN := sumZMTwoN(z)
+	zMTwoN := sumZMTwoN(z, m)
 
 	rightIP, err := vector.Add(zMTwoN, hada)
 	if err != nil {
@@ -66,28 +66,28 @@ func debugT0(aL, aR []ristretto.Scalar, y, z ristretto.Scalar) (ristretto.Scalar
 }
 
 // <l(x), G> =  <aL, G> + x<sL, G> +<-z1, G>
-func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristretto.Scalar) (bool, error) {
+func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristretto.Scalar, m int) (bool, error) {
 
 	var P ristretto.Point
 	P.SetZero()
 
 	genData := []byte("dusk.BulletProof.vec1")
 	ped := pedersen.New(genData)
-	ped.BaseVector.Compute(uint32((N * M)))
+	ped.BaseVector.Compute(uint32((N * m)))
 
 	G := ped.BaseVector.Bases
 
-	lG, err := vector.Exp(l, G, N, M)
+	lG, err := vector.Exp(l, G, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<l(x), G>")
 	}
 	// <aL,G>
-	aLG, err := vector.Exp(aL, G, N, M)
+	aLG, err := vector.Exp(aL, G, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<aL,G>")
 	}
 	// x<sL, G>
-	sLG, err := vector.Exp(sL, G, N, M)
+	sLG, err := vector.Exp(sL, G, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "x<sL, G>")
 	}
@@ -97,7 +97,7 @@ func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristrett
 	// <-z1, G>
 	var zNeg ristretto.Scalar
 	zNeg.Neg(&z)
-	zNegG, err := vector.Exp(vector.FromScalar(zNeg, uint32(N*M)), G, N, M)
+	zNegG, err := vector.Exp(vector.FromScalar(zNeg, uint32(N*m)), G, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<-z1, G>")
 	}
@@ -110,32 +110,32 @@ func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristrett
 }
 
 // < r(x), H'> = <aR, H> + x<sR, H> + <z*y^(n*m), H'> + sum( (< <z^(j+1),2^n>, H') ) from j = 1 to j = m
-func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []ristretto.Scalar) (bool, error) {
+func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []ristretto.Scalar, m int) (bool, error) {
 
 	genData := []byte("dusk.BulletProof.vec1")
 
 	genData = append(genData, uint8(1))
 
 	ped2 := pedersen.New(genData)
-	ped2.BaseVector.Compute(uint32((N * M)))
+	ped2.BaseVector.Compute(uint32((N * m)))
 
 	H := ped2.BaseVector.Bases
 
 	Hprime := computeHprime(H, y)
 
 	// <r(x), H'>
-	rH, err := vector.Exp(r, Hprime, N, M)
+	rH, err := vector.Exp(r, Hprime, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<r(x), H'>")
 	}
 
 	// <aR,H>
-	aRH, err := vector.Exp(aR, H, N, M)
+	aRH, err := vector.Exp(aR, H, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<aR,H>")
 	}
 	// x<sR, H>
-	sRH, err := vector.Exp(sR, H, N, M)
+	sRH, err := vector.Exp(sR, H, N, m)
 	if err != nil {
 
 		return false, errors.Wrap(err, "x<sR, H>")
@@ -145,18 +145,18 @@ func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []rist
 	xsRH.ScalarMult(&sRH, &x)
 
 	// y^(n*m)
-	yNM := vector.ScalarPowers(y, uint32(N*M))
+	yNM := vector.ScalarPowers(y, uint32(N*m))
 
 	// z*y^nm
 	zMulYn := vector.MulScalar(yNM, z)
 
 	// p = <z*y^nm , H'>
-	p, err := vector.Exp(zMulYn, Hprime, N, M)
+	p, err := vector.Exp(zMulYn, Hprime, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<z*y^nm , H'>")
 	}
 	// k = sum( (< <z^(j+1) * 2^n>, H') ) from j = 1 to j = m
-	k, err := vector.Exp(sumZMTwoN(z), Hprime, N, M)
+	k, err := vector.Exp(sumZMTwoN(z, m), Hprime, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "k = sum()...")
 	}
diff --git a/rangeproof/poly.go b/rangeproof/poly.go
index eef6fe7..edfcd22 100644
--- a/rangeproof/poly.go
+++ b/rangeproof/poly.go
@@ -15,7 +15,7 @@ type polynomial struct {
 	t0, t1, t2     ristretto.Scalar
 }
 
-func computePoly(aL, aR, sL, sR []ristretto.Scalar, y, z ristretto.Scalar) (*polynomial, error) {
+func computePoly(aL, aR, sL, sR []ristretto.Scalar, y, z ristretto.Scalar, m int) (*polynomial, error) {
 
 	// calculate l_0
 	l0 := vector.SubScalar(aL, z)
@@ -24,9 +24,9 @@ func computePoly(aL, aR, sL, sR []ristretto.Scalar, y, z ristretto.Scalar) (*pol
 	l1 := sL
 
 	// calculate r_0
-	yNM := vector.ScalarPowers(y, uint32(N*M))
+	yNM := vector.ScalarPowers(y, uint32(N*m))
 
-	zMTwoN := sumZMTwoN(z)
+	zMTwoN := sumZMTwoN(z, m)
 
 	r0 := vector.AddScalar(aR, z)
 
@@ -155,20 +155,19 @@ func (p *polynomial) computeT0(y, z ristretto.Scalar, v []ristretto.Scalar, n, m
 // calculates sum( z^(1+j) * ( 0^(j-1)n || 2 ^n || 0^(m-j)n ) ) from j = 1 to j=M (71)
 // implementation taken directly from java implementation.
 // XXX: Look into ways to speed this up, and improve readability
-// XXX: pass n and m as parameters
-func sumZMTwoN(z ristretto.Scalar) []ristretto.Scalar {
+func sumZMTwoN(z ristretto.Scalar, m int) []ristretto.Scalar {
 
-	res := make([]ristretto.Scalar, N*M)
+	res := make([]ristretto.Scalar, N*m)
 
-	zM := vector.ScalarPowers(z, uint32(M+3))
+	zM := vector.ScalarPowers(z, uint32(m+3))
 
 	var two ristretto.Scalar
 	two.SetBigInt(big.NewInt(2))
 	twoN := vector.ScalarPowers(two, N)
 
-	for i := 0; i < M*N; i++ {
+	for i := 0; i < m*N; i++ {
 		res[i].SetZero()
-		for j := 1; j <= M; j++ {
+		for j := 1; j <= m; j++ {
 			if (i >= (j-1)*N) && (i < j*N) {
 				res[i].MulAdd(&zM[j+1], &twoN[i-(j-1)*N], &res[i])
 			}
diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index 129dbeb..e44eb77 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -19,7 +19,8 @@ import (
 // So amount will be between 0...2^(N-1)
 const N = 64
 
-// M is the number of outputs for one bulletproof
+// M is the default number of outputs for one bulletproof. Both Prove and Verify
+// take the actual number from their argument
 var M = 1
 
 // M is the maximum number of values allowed per rangeproof
@@ -48,14 +49,14 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 		return Proof{}, errors.New("length of slice v is zero")
 	}
 
-	M = len(v)
-	if M > maxM {
+	m := len(v)
+	if m > maxM {
 		return Proof{}, fmt.Errorf("maximum amount of values must be less than %d", maxM)
 	}
 
 	// Pad zero values until we have power of two
-	padAmount := innerproduct.DiffNextPow2(uint32(M))
-	M = M + int(padAmount)
+	padAmount := innerproduct.DiffNextPow2(uint32(m))
+	m = m + int(padAmount)
 	for i := uint32(0); i < padAmount; i++ {
 		var zeroScalar ristretto.Scalar
 		zeroScalar.SetZero()
@@ -63,10 +64,10 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	}
 
 	// commitment to values v
-	Vs := make([]pedersen.Commitment, 0, M)
+	Vs := make([]pedersen.Commitment, 0, m)
 	genData := []byte("dusk.BulletProof.vec1")
 	ped := pedersen.New(genData)
-	ped.BaseVector.Compute(uint32((N * M)))
+	ped.BaseVector.Compute(uint32((N * m)))
 
 	// Hash for Fiat-Shamir
 	hs := fiatshamir.HashCacher{Cache: []byte{}}
@@ -81,8 +82,8 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 		hs.Append(V.Value.Bytes())
 	}
 
-	aLs := make([]ristretto.Scalar, 0, N*M)
-	aRs := make([]ristretto.Scalar, 0, N*M)
+	aLs := make([]ristretto.Scalar, 0, N*m)
+	aRs := make([]ristretto.Scalar, 0, N*m)
 
 	for i := range v {
 		// Compute Bitcommits aL and aR to v
@@ -95,7 +96,7 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	A := computeA(ped, aLs, aRs)
 
 	// // Compute S
-	S, sL, sR := computeS(ped)
+	S, sL, sR := computeS(ped, m)
 
 	// // update Fiat-Shamir
 	hs.Append(A.Value.Bytes(), S.Value.Bytes())
@@ -104,7 +105,7 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	y, z := computeYAndZ(hs)
 
 	// compute polynomial
-	poly, err := computePoly(aLs, aRs, sL, sR, y, z)
+	poly, err := computePoly(aLs, aRs, sL, sR, y, z, m)
 	if err != nil {
 		return Proof{}, errors.Wrap(err, "[Prove] - poly")
 	}
@@ -139,13 +140,13 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 
 	// START DEBUG
 	if debug {
-		err := debugProve(x, y, z, v, l, r, aLs, aRs, sL, sR)
+		err := debugProve(x, y, z, v, l, r, aLs, aRs, sL, sR, m)
 		if err != nil {
 			return Proof{}, errors.Wrap(err, "[Prove] - debugProve")
 		}
 
 		// DEBUG T0
-		testT0, err := debugT0(aLs, aRs, y, z)
+		testT0, err := debugT0(aLs, aRs, y, z, m)
 		if err != nil {
 			return Proof{}, errors.Wrap(err, "[Prove] - testT0")
 
@@ -154,7 +155,7 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 			return Proof{}, errors.New("[Prove]: Test t0 value does not match the value calculated from the polynomial")
 		}
 
-		polyt0 := poly.computeT0(y, z, v, N, uint32(M))
+		polyt0 := poly.computeT0(y, z, v, N, uint32(m))
 		if !polyt0.Equals(&poly.t0) {
 			return Proof{}, errors.New("[Prove]: t0 value from delta function, does not match the polynomial t0 value(Correct)")
 		}
@@ -180,11 +181,11 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 
 	var yinv ristretto.Scalar
 	yinv.Inverse(&y)
-	Hpf := vector.ScalarPowers(yinv, uint32(N*M))
+	Hpf := vector.ScalarPowers(yinv, uint32(N*m))
 
 	genData = append(genData, uint8(1))
 	ped2 := pedersen.New(genData)
-	ped2.BaseVector.Compute(uint32(N * M))
+	ped2.BaseVector.Compute(uint32(N * m))
 
 	H := ped2.BaseVector.Bases
 	G := ped.BaseVector.Bases
@@ -216,10 +217,10 @@ func computeA(ped *pedersen.Pedersen, aLs, aRs []ristretto.Scalar) pedersen.Comm
 }
 
 // S = kH + sL*G + sR * H
-func computeS(ped *pedersen.Pedersen) (pedersen.Commitment, []ristretto.Scalar, []ristretto.Scalar) {
+func computeS(ped *pedersen.Pedersen, m int) (pedersen.Commitment, []ristretto.Scalar, []ristretto.Scalar) {
 
-	sL, sR := make([]ristretto.Scalar, N*M), make([]ristretto.Scalar, N*M)
-	for i := 0; i < N*M; i++ {
+	sL, sR := make([]ristretto.Scalar, N*m), make([]ristretto.Scalar, N*m)
+	for i := 0; i < N*m; i++ {
 		var randA ristretto.Scalar
 		randA.Rand()
 		sL[i] = randA
@@ -322,14 +323,23 @@ func computeHprime(H []ristretto.Point, y ristretto.Scalar) []ristretto.Point {
 // Verify takes a bullet proof and returns true only if the proof was valid
 func Verify(p Proof) (bool, error) {
 
+	// the number of values comes with the proof, padded to a power of two
+	m := len(p.V)
+	if m < 1 || m > maxM || m&(m-1) != 0 {
+		return false, fmt.Errorf("number of commitments must be a power of two up to %d", maxM)
+	}
+	if p.IPProof == nil || len(p.IPProof.L) > 31 || 1<<uint(len(p.IPProof.L)) != N*m {
+		return false, errors.New("inner product proof does not match the number of commitments")
+	}
+
 	genData := []byte("dusk.BulletProof.vec1")
 	ped := pedersen.New(genData)
-	ped.BaseVector.Compute(uint32(N * M))
+	ped.BaseVector.Compute(uint32(N * m))
 
 	genData = append(genData, uint8(1))
 
 	ped2 := pedersen.New(genData)
-	ped2.BaseVector.Compute(uint32(N * M))
+	ped2.BaseVector.Compute(uint32(N * m))
 
 	G := ped.BaseVector.Bases
 	H := ped2.BaseVector.Bases
@@ -347,10 +357,10 @@ func Verify(p Proof) (bool, error) {
 	hs.Append(x.Bytes(), p.taux.Bytes(), p.mu.Bytes(), p.t.Bytes())
 	w := hs.Derive()
 
-	return megacheckWithC(p.IPProof, p.mu, x, y, z, p.t, p.taux, w, p.A, ped.BasePoint, ped.BlindPoint, p.S, p.T1, p.T2, G, H, p.V)
+	return megacheckWithC(p.IPProof, p.mu, x, y, z, p.t, p.taux, w, p.A, ped.BasePoint, ped.BlindPoint, p.S, p.T1, p.T2, G, H, p.V, m)
 }
 
-func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristretto.Scalar, A, G, H, S, T1, T2 ristretto.Point, GVec, HVec []ristretto.Point, V []pedersen.Commitment) (bool, error) {
+func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristretto.Scalar, A, G, H, S, T1, T2 ristretto.Point, GVec, HVec []ristretto.Point, V []pedersen.Commitment, m int) (bool, error) {
 
 	var c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11 ristretto.Point
 
@@ -378,7 +388,7 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 
 	// h vector scalars : y Had (bsInv - zM2N) - z points : H
 	bs := vector.MulScalar(sInv, ipproof.B)
-	zAnd2 := sumZMTwoN(z)
+	zAnd2 := sumZMTwoN(z, m)
 	h, err := vector.Sub(bs, zAnd2)
 	if err != nil {
 		return false, errors.Wrap(err, "[h1]")
@@ -386,7 +396,7 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 
 	var yinv ristretto.Scalar
 	yinv.Inverse(&y)
-	Hpf := vector.ScalarPowers(yinv, uint32(N*M))
+	Hpf := vector.ScalarPowers(yinv, uint32(N*m))
 
 	h, err = vector.Hadamard(h, Hpf)
 	if err != nil {
@@ -401,7 +411,7 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 	}
 
 	// G basepoint gbp : (c * w(ab-t)) + t-D(y,z) point : G
-	delta := computeDelta(y, z, N, uint32(M))
+	delta := computeDelta(y, z, N, uint32(m))
 	var tMinusDelta ristretto.Scalar
 	tMinusDelta.Sub(&t, &delta)
 
@@ -449,7 +459,7 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 	c8.PublicScalarMult(&c8, &c)
 
 	// scalar: z_j+2  points: Vj
-	zM := vector.ScalarPowers(z, uint32(M))
+	zM := vector.ScalarPowers(z, uint32(m))
 	var zSq ristretto.Scalar
 	zSq.Square(&z)
 	zM = vector.MulScalar(zM, zSq)
-- 
2.43.0


From 24124b185b8f7060488bdfe1441f367d914d367c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:49 +0000
Subject: [PATCH 12/20] fix: rangeproof.Prove must not pad the caller's slice
 in place

---
 rangeproof/rangeproof.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index e44eb77..0c84261 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -57,6 +57,8 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	// Pad zero values until we have power of two
 	padAmount := innerproduct.DiffNextPow2(uint32(m))
 	m = m + int(padAmount)
+	// work on a copy: appending in place could write into the caller's array
+	v = append(make([]ristretto.Scalar, 0, m), v...)
 	for i := uint32(0); i < padAmount; i++ {
 		var zeroScalar ristretto.Scalar
 		zeroScalar.SetZero()
-- 
2.43.0


From 24f438279d4b537cf2c8706a622c484a6c0d2832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:51 +0000
Subject: [PATCH 13/20] fix: rangeproof debug mode must accept the largest
 value of the range

---
 rangeproof/debug.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rangeproof/debug.go b/rangeproof/debug.go
index 0326801..b43ab04 100644
--- a/rangeproof/debug.go
+++ b/rangeproof/debug.go
@@ -171,12 +171,12 @@ func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []rist
 	return rH.Equals(&rhs), nil
 }
 
-// debugsizeOfV returns true if v is less than 2^N - 1
+// debugsizeOfV returns true if v is at most 2^N - 1
 func debugsizeOfV(v *big.Int) bool {
 	var twoN, e, one = big.NewInt(2), big.NewInt(int64(N)), big.NewInt(int64(1))
 	twoN.Exp(twoN, e, nil)
 	twoN.Sub(twoN, one)
 
 	cmp := v.Cmp(twoN)
-	return (cmp == -1)
+	return (cmp != 1)
 }
-- 
2.43.0


From 606a833c7189e3a1a2fabfeeb7b930978205034a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:15 +0000
Subject: [PATCH 14/20] fix: innerproduct Proof.Equals must compare the number
 of rounds

---
 rangeproof/innerproduct/innerproduct.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index f9ef448..43aa3e8 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -475,11 +475,17 @@ func (proof *Proof) Equals(other Proof) bool {
 		return false
 	}
 
+	if len(proof.L) != len(other.L) || len(proof.R) != len(other.R) {
+		return false
+	}
+
 	for i := range proof.L {
 		if ok := proof.L[i].Equals(&other.L[i]); !ok {
 			return false
 		}
+	}
 
+	for i := range proof.R {
 		if ok := proof.R[i].Equals(&other.R[i]); !ok {
 			return false
 		}
-- 
2.43.0


From e3e6e0edec655a274e8cc995a09eaf830bb6c396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:17 +0000
Subject: [PATCH 15/20] fix: rangeproof Proof.Equals must compare the inner
 product proof, and commitments only on request

---
 rangeproof/rangeproof.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index 0c84261..852b5a9 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -594,14 +594,16 @@ func (p *Proof) Decode(r io.Reader, includeCommits bool) error {
 
 // Equals returns proof equality with commitments
 func (p *Proof) Equals(other Proof, includeCommits bool) bool {
-	if len(p.V) != len(other.V) && includeCommits {
-		return false
-	}
+	if includeCommits {
+		if len(p.V) != len(other.V) {
+			return false
+		}
 
-	for i := range p.V {
-		ok := p.V[i].EqualValue(other.V[i])
-		if !ok {
-			return ok
+		for i := range p.V {
+			ok := p.V[i].EqualValue(other.V[i])
+			if !ok {
+				return ok
+			}
 		}
 	}
 
@@ -633,8 +635,10 @@ func (p *Proof) Equals(other Proof, includeCommits bool) bool {
 	if !ok {
 		return ok
 	}
-	return true
-	// return p.IPProof.Equals(*other.IPProof)
+	if p.IPProof == nil || other.IPProof == nil {
+		return p.IPProof == other.IPProof
+	}
+	return p.IPProof.Equals(*other.IPProof)
 }
 
 func readerToPoint(r io.Reader, p *ristretto.Point) error {
-- 
2.43.0


From bd0fef5a5c0179eabe3395fa8c9131b85420c64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:19 +0000
Subject: [PATCH 16/20] fix: innerproduct Proof.Decode must reject half rounds
 and invalid points

---
 rangeproof/innerproduct/innerproduct.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index 43aa3e8..df97f68 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -440,7 +440,7 @@ func (proof *Proof) Decode(r io.Reader) error {
 		return err
 	}
 	numBytes := len(buf.Bytes())
-	if numBytes%32 != 0 {
+	if numBytes%64 != 0 {
 		return errors.New("proof was not formatted correctly")
 	}
 	lenL := uint32(numBytes / 64)
@@ -458,8 +458,9 @@ func (proof *Proof) Decode(r io.Reader) error {
 		if err != nil {
 			return err
 		}
-		proof.L[i].SetBytes(&LBytes)
-		proof.R[i].SetBytes(&RBytes)
+		if !proof.L[i].SetBytes(&LBytes) || !proof.R[i].SetBytes(&RBytes) {
+			return errors.New("point not encodable")
+		}
 	}
 
 	return nil
-- 
2.43.0


From 3e6210758927ccd88ab82c6da6ce6161b13a79f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:22 +0000
Subject: [PATCH 17/20] fix: innerproduct.Generate must reject vectors of
 different sizes instead of panicking

---
 rangeproof/innerproduct/innerproduct.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index df97f68..7bff011 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -31,6 +31,10 @@ func Generate(GVec, HVec []ristretto.Point, aVec, bVec, HprimeFactors []ristrett
 		return nil, errors.New("[IPProof]: size of n (NM) is not a power of 2")
 	}
 
+	if n == 0 || len(HVec) != len(GVec) || len(aVec) != len(GVec) || len(bVec) != len(GVec) || len(HprimeFactors) != len(GVec) {
+		return nil, errors.New("[IPProof]: vectors must be non-empty and of the same size")
+	}
+
 	a := make([]ristretto.Scalar, len(aVec))
 	copy(a, aVec)
 	b := make([]ristretto.Scalar, len(bVec))
-- 
2.43.0


From f757474e8c43e76fd07cc99c42a108dfc675b9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:24 +0000
Subject: [PATCH 18/20] fix: pedersen.DecodeCommitments must not allocate what
 an untrusted header claims

---
 rangeproof/pedersen/pedersen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index 75c6c3f..ed5e7e7 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -93,13 +93,16 @@ func DecodeCommitments(r io.Reader) ([]Commitment, error) {
 		return nil, err
 	}
 
-	comms := make([]Commitment, lenV)
+	// lenV is not trusted: memory grows with the data that is actually there
+	comms := []Commitment{}
 
 	for i := uint32(0); i < lenV; i++ {
-		err := comms[i].Decode(r)
+		var comm Commitment
+		err := comm.Decode(r)
 		if err != nil {
 			return nil, err
 		}
+		comms = append(comms, comm)
 	}
 
 	return comms, nil
-- 
2.43.0


From 981f90167079b4341054808adec8c18bf7f22d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:26 +0000
Subject: [PATCH 19/20] fix: pedersen.CommitToVectors must not append to the
 caller's generator data

---
 rangeproof/pedersen/pedersen.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index ed5e7e7..2093297 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -200,7 +200,9 @@ func (p *Pedersen) CommitToVectors(vectors ...[]ristretto.Scalar) Commitment {
 			sum.Add(&sum, &commit)
 		} else {
 
-			genData := append(p.GenData, uint8(i))
+			// copy: appending in place could write into the caller's array
+			genData := append([]byte{}, p.GenData...)
+			genData = append(genData, uint8(i))
 			ped2 := New(genData)
 
 			commit := ped2.commitToScalars(nil, vector...)
-- 
2.43.0


From 42f6f6b42edc7ae78077c350dcd5924dce7ab2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:03 +0000
Subject: [PATCH 20/20] fix: bls aggregation must add equal points correctly

bn256's in-place addition returns a wrong point when both operands are equal
(its Double reads the operand after overwriting it), so aggregating a key or a
signature with an equal one gave an aggregate that never verifies.
---
 bls/bls.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bls/bls.go b/bls/bls.go
index e172281..9facae9 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -235,7 +235,9 @@ func (apk *Apk) Aggregate(pk *PublicKey) error {
 		return err
 	}
 
-	apk.gx.Add(apk.gx, gxt)
+	// not in place: bn256 gets the sum of two equal points wrong when the
+	// result overwrites an operand
+	apk.gx = newG2().Add(apk.gx, gxt)
 	return nil
 }
 
@@ -301,7 +303,9 @@ func (sigma *Signature) AggregateBytes(other []byte) error {
 
 // Aggregate two Signature
 func (sigma *Signature) Aggregate(other *Signature) *Signature {
-	sigma.e.Add(sigma.e, other.e)
+	// not in place: bn256 gets the sum of two equal points wrong when the
+	// result overwrites an operand
+	sigma.e = newG1().Add(sigma.e, other.e)
 	return sigma
 }
 
-- 
2.43.0

