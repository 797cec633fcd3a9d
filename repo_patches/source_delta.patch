From 7033f839dd2e6ecfd58e4d464f002b2b378723c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:34 +0000
Subject: [PATCH 01/22] fix: bLSAG Sign puts the mixin keys in the ring

The ring was allocated with room for the decoys but only the signer's own
key was ever stored in it, so every signature named a ring of one real key.
---
 ringsig/blsag/blsag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ringsig/blsag/blsag.go b/ringsig/blsag/blsag.go
index 7a639bb..4257ed2 100644
--- a/ringsig/blsag/blsag.go
+++ b/ringsig/blsag/blsag.go
@@ -69,6 +69,9 @@ func Sign(m []byte, mixin []ristretto.Point, sK ristretto.Scalar) RingSignature
 
 	pubKeys := make([]ristretto.Point, len(mixin)+1)
 	pubKeys[j] = pK // add signer
+	// fill the remaining positions with the decoys
+	copy(pubKeys, mixin[:j])
+	copy(pubKeys[j+1:], mixin[j:])
 
 	for i := j + 1; ; i++ {
 
-- 
2.43.0


From 62f7efdb81f730145bc91b1ae20532c8c5d075b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:34 +0000
Subject: [PATCH 02/22] fix: bLSAG Sign draws every decoy response at random

The response at position 0 was left zero unless the signer sat there, which
told any observer whether the signer is ring member 0.
---
 ringsig/blsag/blsag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringsig/blsag/blsag.go b/ringsig/blsag/blsag.go
index 4257ed2..0c52a74 100644
--- a/ringsig/blsag/blsag.go
+++ b/ringsig/blsag/blsag.go
@@ -42,7 +42,7 @@ func Sign(m []byte, mixin []ristretto.Point, sK ristretto.Scalar) RingSignature
 
 	// generate s_i where i =/= j and s_i E Zq
 	sVals := make([]ristretto.Scalar, len(mixin)+1)
-	for i := 1; i < len(sVals); i++ {
+	for i := range sVals {
 		var s ristretto.Scalar
 		s.Rand()
 		sVals[i] = s
-- 
2.43.0


From 7e2aaddc94666eb679c41a32833fe974afc255b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:35 +0000
Subject: [PATCH 03/22] fix: choose the signer's ring position with crypto/rand

Both ring signature schemes seeded math/rand with the clock (seconds, for
MLSAG), so the hidden position could be recomputed by anyone.
---
 mlsag/proof.go         | 11 +++++++----
 ringsig/blsag/blsag.go | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/mlsag/proof.go b/mlsag/proof.go
index 71a130f..7962c76 100644
--- a/mlsag/proof.go
+++ b/mlsag/proof.go
@@ -1,9 +1,9 @@
 package mlsag
 
 import (
+	"crypto/rand"
 	"errors"
-	"math/rand"
-	"time"
+	"math/big"
 
 	ristretto "github.com/bwesterb/go-ristretto"
 )
@@ -69,9 +69,12 @@ func privKeyToPubKey(privkey ristretto.Scalar) ristretto.Point {
 
 // shuffle all pubkeys and sets the index
 func (p *Proof) shuffleSet() error {
-	r := rand.New(rand.NewSource(time.Now().Unix()))
 	for i := len(p.pubKeysMatrix) - 1; i > 0; i-- {
-		j := r.Intn(i + 1)
+		r, err := rand.Int(rand.Reader, big.NewInt(int64(i+1)))
+		if err != nil {
+			return err
+		}
+		j := int(r.Int64())
 		p.pubKeysMatrix[i], p.pubKeysMatrix[j] = p.pubKeysMatrix[j], p.pubKeysMatrix[i]
 	}
 	// XXX: Optimise away the below for loop by storing the index when appended
diff --git a/ringsig/blsag/blsag.go b/ringsig/blsag/blsag.go
index 0c52a74..d2db4af 100644
--- a/ringsig/blsag/blsag.go
+++ b/ringsig/blsag/blsag.go
@@ -2,8 +2,8 @@ package blsag
 
 import (
 	"bytes"
-	"math/rand"
-	"time"
+	"crypto/rand"
+	"math/big"
 
 	ristretto "github.com/bwesterb/go-ristretto"
 )
@@ -25,8 +25,11 @@ func Sign(m []byte, mixin []ristretto.Point, sK ristretto.Scalar) RingSignature
 	pK.ScalarMultBase(&sK)
 
 	// secret j index
-	rand.Seed(time.Now().UnixNano())
-	j := rand.Intn(len(mixin) + 1)
+	secretIndex, err := rand.Int(rand.Reader, big.NewInt(int64(len(mixin)+1)))
+	if err != nil {
+		panic(err)
+	}
+	j := int(secretIndex.Int64())
 
 	// Hp(pK)
 	var hPK ristretto.Point
-- 
2.43.0


From f1653b3907fbf8292caa1ea165aa1f21817662f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:07 +0000
Subject: [PATCH 04/22] fix: MLSAG AddDecoy keeps its own copy of the decoy
 keys

SubCommToZero subtracts in place, which overwrote the keys of the caller
(and of any other proof using the same decoy).
---
 mlsag/proof.go   | 1 +
 mlsag/pubkeys.go | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/mlsag/proof.go b/mlsag/proof.go
index 7962c76..a0e9de7 100644
--- a/mlsag/proof.go
+++ b/mlsag/proof.go
@@ -34,6 +34,7 @@ func (p *Proof) addPubKeys(keys PubKeys) {
 }
 
 func (p *Proof) AddDecoy(keys PubKeys) {
+	keys = keys.clone()
 	keys.decoy = true
 	p.addPubKeys(keys)
 }
diff --git a/mlsag/pubkeys.go b/mlsag/pubkeys.go
index ebc2cd6..cd16fd1 100644
--- a/mlsag/pubkeys.go
+++ b/mlsag/pubkeys.go
@@ -62,6 +62,13 @@ func (p *PubKeys) Decode(r io.Reader, numKeys uint32) error {
 	}
 	return nil
 }
+
+// clone returns a copy of p which shares no memory with it
+func (p PubKeys) clone() PubKeys {
+	p.keys = append([]ristretto.Point(nil), p.keys...)
+	return p
+}
+
 func (p *PubKeys) AddPubKey(key ristretto.Point) {
 	p.keys = append(p.keys, key)
 }
-- 
2.43.0


From 96fa121eb5eda8b417c173084a2296a4875b673b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:08 +0000
Subject: [PATCH 05/22] fix: an MLSAG signature no longer shares memory with
 its prover

Proving again, or subtracting a commitment, on the same object shuffled or
changed the ring of signatures already handed out.
---
 mlsag/mlsag.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 0f857e7..4d0a1f1 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -248,11 +248,17 @@ func (proof *Proof) prove(skipLastKeyImage bool) (*Signature, []ristretto.Point,
 	// replace real response in responses array
 	responses[proof.index] = realResponse
 
+	// The signature must not change when the proof is used again
+	pubKeys := make([]PubKeys, numUsers)
+	for i := range pubKeys {
+		pubKeys[i] = proof.pubKeysMatrix[i].clone()
+	}
+
 	sig := &Signature{
 		c:       challenges[0],
 		r:       responses,
-		PubKeys: proof.pubKeysMatrix,
-		Msg:     proof.msg,
+		PubKeys: pubKeys,
+		Msg:     append([]byte(nil), proof.msg...),
 	}
 
 	return sig, keyImages, nil
-- 
2.43.0


From e214db790965ad5695e3331bf531b24dfc457c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:08 +0000
Subject: [PATCH 06/22] fix: MLSAG rings with a single member can be signed and
 verified

With one member the walk around the ring took one step too many: proving
panicked and verifying checked the wrong challenge.
---
 mlsag/mlsag.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 4d0a1f1..e1d49c8 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -211,7 +211,7 @@ func (proof *Proof) prove(skipLastKeyImage bool) (*Signature, []ristretto.Point,
 	var prevChallenge ristretto.Scalar
 	prevChallenge.Set(&CjPlusOne)
 
-	for k := secretIndex + 2; k != (secretIndex+1)%numUsers; k = (k + 1) % numUsers {
+	for k := (secretIndex + 2) % numUsers; k != (secretIndex+1)%numUsers; k = (k + 1) % numUsers {
 		i := k % numUsers
 
 		prevIndex := (i - 1) % numUsers
@@ -275,7 +275,7 @@ func (sig *Signature) Verify(keyImages []ristretto.Point) (bool, error) {
 
 	var prevChallenge = sig.c
 
-	for k := index + 1; k != (index)%numUsers; k = (k + 1) % numUsers {
+	for k := (index + 1) % numUsers; k != (index)%numUsers; k = (k + 1) % numUsers {
 		i := k % numUsers
 		prevIndex := (i - 1) % numUsers
 		if prevIndex < 0 {
-- 
2.43.0


From d0d85d000e48fb6f3e41975bf2ccda294c37103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:08 +0000
Subject: [PATCH 07/22] fix: MLSAG Verify rejects signatures with inconsistent
 dimensions

Ring members without a response were silently left out of the check, and
missing keys or responses made it panic.
---
 mlsag/mlsag.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index e1d49c8..a211a5f 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -270,6 +270,18 @@ func (sig *Signature) Verify(keyImages []ristretto.Point) (bool, error) {
 		return false, errors.New("cannot have zero length for responses, pubkeys or key images")
 	}
 
+	if len(sig.PubKeys) != len(sig.r) {
+		return false, errors.New("number of responses and pubkey vectors must be the same")
+	}
+	for i := range sig.PubKeys {
+		if sig.PubKeys[i].Len() != sig.r[i].Len() {
+			return false, errors.New("each pubkey must have exactly one response")
+		}
+		if len(keyImages) > sig.PubKeys[i].Len() {
+			return false, errors.New("cannot have more key images than pubkeys")
+		}
+	}
+
 	numUsers := len(sig.r)
 	index := 0
 
-- 
2.43.0


From 309e301a7c5dc105ed3fd0e3a364989b1ff0fa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:08 +0000
Subject: [PATCH 08/22] fix: bLSAG Verify rejects empty rings and mismatched
 responses

An empty ring or a missing response made it panic, surplus responses were
ignored.
---
 ringsig/blsag/blsag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ringsig/blsag/blsag.go b/ringsig/blsag/blsag.go
index d2db4af..0269925 100644
--- a/ringsig/blsag/blsag.go
+++ b/ringsig/blsag/blsag.go
@@ -114,6 +114,9 @@ func Verify(m []byte, ringsig RingSignature) bool {
 	// For all i, c_i+1 = H(m, L_i, R_i)
 
 	numPubKeys := len(ringsig.PubKeys)
+	if numPubKeys == 0 || len(ringsig.S) != numPubKeys {
+		return false
+	}
 
 	currC := ringsig.C // this is first c value c[0]
 
-- 
2.43.0


From 91fa2f0126a0bb4e3757d5fca6b3a273169428f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:08 +0000
Subject: [PATCH 09/22] fix: decoders allocate no more than the input they were
 given

A length field of a few bytes made Decode allocate gigabytes. Signatures
without responses, which Encode writes without a response count, now decode
too.
---
 mlsag/mlsag.go                  | 23 ++++++++++++++++++-----
 rangeproof/pedersen/pedersen.go |  8 ++++++--
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index a211a5f..6ad2190 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -80,18 +80,29 @@ func (s *Signature) Decode(r io.Reader, decodeKeys bool) error {
 	if err != nil {
 		return err
 	}
+
+	s.r = nil
+	if lenR <= 0 {
+		return nil
+	}
+
 	err = binary.Read(r, binary.BigEndian, &numResponses)
 	if err != nil {
 		return err
 	}
+	if numResponses <= 0 {
+		return errors.New("cannot have zero responses per user")
+	}
 
-	// Decode the responses
-	s.r = make([]Responses, lenR)
+	// Decode the responses. The claimed length cannot be trusted, so
+	// memory is only allocated for responses which are really there
 	for i := uint32(0); i < lenR; i++ {
-		err = s.r[i].Decode(r, numResponses)
+		var resp Responses
+		err = resp.Decode(r, numResponses)
 		if err != nil {
 			return err
 		}
+		s.r = append(s.r, resp)
 	}
 
 	if !decodeKeys {
@@ -99,12 +110,14 @@ func (s *Signature) Decode(r io.Reader, decodeKeys bool) error {
 	}
 
 	// Decode pubkeys
-	s.PubKeys = make([]PubKeys, lenR)
+	s.PubKeys = nil
 	for i := uint32(0); i < lenR; i++ {
-		err = s.PubKeys[i].Decode(r, numResponses)
+		var keys PubKeys
+		err = keys.Decode(r, numResponses)
 		if err != nil {
 			return err
 		}
+		s.PubKeys = append(s.PubKeys, keys)
 	}
 	return nil
 }
diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index 75c6c3f..9347e56 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -93,13 +93,17 @@ func DecodeCommitments(r io.Reader) ([]Commitment, error) {
 		return nil, err
 	}
 
-	comms := make([]Commitment, lenV)
+	// The claimed length cannot be trusted, so memory is
+	// only allocated for commitments which are really there
+	comms := []Commitment{}
 
 	for i := uint32(0); i < lenV; i++ {
-		err := comms[i].Decode(r)
+		var comm Commitment
+		err := comm.Decode(r)
 		if err != nil {
 			return nil, err
 		}
+		comms = append(comms, comm)
 	}
 
 	return comms, nil
-- 
2.43.0


From 815fec6aa9f596dc0cfed09313eed0206029c3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:09 +0000
Subject: [PATCH 10/22] fix: BLS batch verification needs exactly one message
 per public key

VerifyUnsafeBatch and VerifyCompressed ignored surplus public keys, indexed
out of range when keys were missing and dereferenced nil on an empty batch.
---
 bls/bls.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bls/bls.go b/bls/bls.go
index 353517f..aeed666 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -488,6 +488,14 @@ func verify(pk *bn256.G2, msg []byte, sigma *bn256.G1) error {
 }
 
 func verifyBatch(pkeys []*bn256.G2, msgList [][]byte, sig *bn256.G1, allowDistinct bool) error {
+	if len(msgList) == 0 || len(pkeys) != len(msgList) {
+		return fmt.Errorf(
+			"bls: the nr of Public Keys (%d) and the nr. of messages (%d) must be the same and not zero",
+			len(pkeys),
+			len(msgList),
+		)
+	}
+
 	if !allowDistinct && !distinct(msgList) {
 		return errors.New("bls: Messages are not distinct")
 	}
-- 
2.43.0


From 399f357459c0495aa77f6cfbd87d290e7a168476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:09 +0000
Subject: [PATCH 11/22] fix: aggregating no public keys is an error rather than
 a nil key

---
 bls/bls.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bls/bls.go b/bls/bls.go
index aeed666..cb2c055 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -212,6 +212,10 @@ func UnmarshalApk(b []byte) (*Apk, error) {
 // AggregateApk aggregates the public key according to the following formula:
 // apk ← ∏ⁿᵢ₌₁ pk^H₁(pkᵢ)
 func AggregateApk(pks []*PublicKey) (*Apk, error) {
+	if len(pks) == 0 {
+		return nil, errors.New("bls: cannot aggregate an empty set of Public Keys")
+	}
+
 	var apk *Apk
 	for i, pk := range pks {
 		if i == 0 {
-- 
2.43.0


From 32619e268cce2367a2cfb115eb8dc7a875574f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:09 +0000
Subject: [PATCH 12/22] fix: a failed BLS public key unmarshal leaves the key
 unchanged

---
 bls/bls.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bls/bls.go b/bls/bls.go
index cb2c055..9ebd1e7 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -568,11 +568,12 @@ func (pk *PublicKey) UnmarshalText(data []byte) error {
 	if err != nil {
 		return err
 	}
-	pk.gx = newG2()
-	_, err = pk.gx.Unmarshal(bs)
+	gx := newG2()
+	_, err = gx.Unmarshal(bs)
 	if err != nil {
 		return err
 	}
+	pk.gx = gx
 	return nil
 }
 
@@ -583,11 +584,12 @@ func (pk *PublicKey) Marshal() []byte {
 
 // Unmarshal a public key from a byte array
 func (pk *PublicKey) Unmarshal(data []byte) error {
-	pk.gx = newG2()
-	_, err := pk.gx.Unmarshal(data)
+	gx := newG2()
+	_, err := gx.Unmarshal(data)
 	if err != nil {
 		return err
 	}
+	pk.gx = gx
 	return nil
 }
 
-- 
2.43.0


From 4aa00a779139995cdacd71a5ec0a37b460f225fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:09 +0000
Subject: [PATCH 13/22] fix: inner product proofs with invalid points or half a
 round are rejected

---
 rangeproof/innerproduct/innerproduct.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index f9ef448..35a5dcb 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -440,7 +440,7 @@ func (proof *Proof) Decode(r io.Reader) error {
 		return err
 	}
 	numBytes := len(buf.Bytes())
-	if numBytes%32 != 0 {
+	if numBytes%64 != 0 {
 		return errors.New("proof was not formatted correctly")
 	}
 	lenL := uint32(numBytes / 64)
@@ -458,8 +458,12 @@ func (proof *Proof) Decode(r io.Reader) error {
 		if err != nil {
 			return err
 		}
-		proof.L[i].SetBytes(&LBytes)
-		proof.R[i].SetBytes(&RBytes)
+		if ok := proof.L[i].SetBytes(&LBytes); !ok {
+			return errors.New("point not encodable")
+		}
+		if ok := proof.R[i].SetBytes(&RBytes); !ok {
+			return errors.New("point not encodable")
+		}
 	}
 
 	return nil
-- 
2.43.0


From 3b10a582c74bd76e1f790135a4b6576a9a2592be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:20 +0000
Subject: [PATCH 14/22] fix: proof and signature equality compares every
 component

The inner product proof was left out of range proof equality, lists of
different lengths were compared by prefix or indexed out of range.
---
 mlsag/mlsag.go                          |  4 ++++
 rangeproof/innerproduct/innerproduct.go |  6 ++++++
 rangeproof/rangeproof.go                | 22 +++++++++++++---------
 3 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 6ad2190..37cfd73 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -128,6 +128,10 @@ func (s Signature) Equals(other Signature, includeKeys bool) bool {
 		return ok
 	}
 
+	if len(s.r) != len(other.r) {
+		return false
+	}
+
 	for i := range s.r {
 		ok = s.r[i].Equals(other.r[i])
 		if !ok {
diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index 35a5dcb..d7f1e52 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -471,6 +471,10 @@ func (proof *Proof) Decode(r io.Reader) error {
 
 // Equals test another proof for equality
 func (proof *Proof) Equals(other Proof) bool {
+	if len(proof.L) != len(other.L) || len(proof.R) != len(other.R) {
+		return false
+	}
+
 	if ok := proof.A.Equals(&other.A); !ok {
 		return false
 	}
@@ -483,7 +487,9 @@ func (proof *Proof) Equals(other Proof) bool {
 		if ok := proof.L[i].Equals(&other.L[i]); !ok {
 			return false
 		}
+	}
 
+	for i := range proof.R {
 		if ok := proof.R[i].Equals(&other.R[i]); !ok {
 			return false
 		}
diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index 129dbeb..92009f1 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -582,14 +582,16 @@ func (p *Proof) Decode(r io.Reader, includeCommits bool) error {
 
 // Equals returns proof equality with commitments
 func (p *Proof) Equals(other Proof, includeCommits bool) bool {
-	if len(p.V) != len(other.V) && includeCommits {
-		return false
-	}
+	if includeCommits {
+		if len(p.V) != len(other.V) {
+			return false
+		}
 
-	for i := range p.V {
-		ok := p.V[i].EqualValue(other.V[i])
-		if !ok {
-			return ok
+		for i := range p.V {
+			ok := p.V[i].EqualValue(other.V[i])
+			if !ok {
+				return ok
+			}
 		}
 	}
 
@@ -621,8 +623,10 @@ func (p *Proof) Equals(other Proof, includeCommits bool) bool {
 	if !ok {
 		return ok
 	}
-	return true
-	// return p.IPProof.Equals(*other.IPProof)
+	if p.IPProof == nil || other.IPProof == nil {
+		return p.IPProof == other.IPProof
+	}
+	return p.IPProof.Equals(*other.IPProof)
 }
 
 func readerToPoint(r io.Reader, p *ristretto.Point) error {
-- 
2.43.0


From 1b56f4809e36be309a3e8ca46e36f8891f511e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:15 +0000
Subject: [PATCH 15/22] fix: the number of values belongs to each range proof,
 not to the package

Prove stored the number of values in the package variable M and Verify read
it, so proofs could only be verified directly after a proof over the same
number of values was made, and never concurrently. Verify now derives it
from the commitments and checks the dimensions of the proof before use.
---
 rangeproof/debug.go      | 40 +++++++++++-----------
 rangeproof/poly.go       | 18 +++++-----
 rangeproof/rangeproof.go | 72 ++++++++++++++++++++++++----------------
 3 files changed, 73 insertions(+), 57 deletions(-)

diff --git a/rangeproof/debug.go b/rangeproof/debug.go
index ecaaacc..0326801 100644
--- a/rangeproof/debug.go
+++ b/rangeproof/debug.go
@@ -12,14 +12,14 @@ import (
 )
 
 // Put all debug functions here
-func debugProve(x, y, z ristretto.Scalar, v, l, r []ristretto.Scalar, aL, aR, sL, sR []ristretto.Scalar) error {
+func debugProve(x, y, z ristretto.Scalar, v, l, r []ristretto.Scalar, aL, aR, sL, sR []ristretto.Scalar, m int) error {
 
-	ok, err := debugLxG(l, x, z, aL, aR, sL)
+	ok, err := debugLxG(l, x, z, aL, aR, sL, m)
 	if !ok {
 		return errors.Wrap(err, "[DEBUG]: <l(x), G> is constructed incorrectly")
 	}
 
-	ok, err = debugRxHPrime(r, x, y, z, aR, sR)
+	ok, err = debugRxHPrime(r, x, y, z, aR, sR, m)
 	if !ok {
 		return errors.Wrap(err, "[DEBUG]: <r(x), H'> is constructed incorrectly")
 	}
@@ -37,20 +37,20 @@ func debugProve(x, y, z ristretto.Scalar, v, l, r []ristretto.Scalar, aL, aR, sL
 
 // DEBUG
 
-func debugT0(aL, aR []ristretto.Scalar, y, z ristretto.Scalar) (ristretto.Scalar, error) {
+func debugT0(aL, aR []ristretto.Scalar, y, z ristretto.Scalar, m int) (ristretto.Scalar, error) {
 
 	aLMinusZ := vector.SubScalar(aL, z)
 
 	aRPlusZ := vector.AddScalar(aR, z)
 
-	yNM := vector.ScalarPowers(y, uint32(N*M))
+	yNM := vector.ScalarPowers(y, uint32(N*m))
 
 	hada, err := vector.Hadamard(yNM, aRPlusZ)
 	if err != nil {
 		return ristretto.Scalar{}, err
 	}
 
-	zMTwoN := sumZMTwoN(z)
+	zMTwoN := sumZMTwoN(z, m)
 
 	rightIP, err := vector.Add(zMTwoN, hada)
 	if err != nil {
@@ -66,28 +66,28 @@ func debugT0(aL, aR []ristretto.Scalar, y, z ristretto.Scalar) (ristretto.Scalar
 }
 
 // <l(x), G> =  <aL, G> + x<sL, G> +<-z1, G>
-func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristretto.Scalar) (bool, error) {
+func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristretto.Scalar, m int) (bool, error) {
 
 	var P ristretto.Point
 	P.SetZero()
 
 	genData := []byte("dusk.BulletProof.vec1")
 	ped := pedersen.New(genData)
-	ped.BaseVector.Compute(uint32((N * M)))
+	ped.BaseVector.Compute(uint32((N * m)))
 
 	G := ped.BaseVector.Bases
 
-	lG, err := vector.Exp(l, G, N, M)
+	lG, err := vector.Exp(l, G, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<l(x), G>")
 	}
 	// <aL,G>
-	aLG, err := vector.Exp(aL, G, N, M)
+	aLG, err := vector.Exp(aL, G, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<aL,G>")
 	}
 	// x<sL, G>
-	sLG, err := vector.Exp(sL, G, N, M)
+	sLG, err := vector.Exp(sL, G, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "x<sL, G>")
 	}
@@ -97,7 +97,7 @@ func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristrett
 	// <-z1, G>
 	var zNeg ristretto.Scalar
 	zNeg.Neg(&z)
-	zNegG, err := vector.Exp(vector.FromScalar(zNeg, uint32(N*M)), G, N, M)
+	zNegG, err := vector.Exp(vector.FromScalar(zNeg, uint32(N*m)), G, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<-z1, G>")
 	}
@@ -110,32 +110,32 @@ func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristrett
 }
 
 // < r(x), H'> = <aR, H> + x<sR, H> + <z*y^(n*m), H'> + sum( (< <z^(j+1),2^n>, H') ) from j = 1 to j = m
-func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []ristretto.Scalar) (bool, error) {
+func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []ristretto.Scalar, m int) (bool, error) {
 
 	genData := []byte("dusk.BulletProof.vec1")
 
 	genData = append(genData, uint8(1))
 
 	ped2 := pedersen.New(genData)
-	ped2.BaseVector.Compute(uint32((N * M)))
+	ped2.BaseVector.Compute(uint32((N * m)))
 
 	H := ped2.BaseVector.Bases
 
 	Hprime := computeHprime(H, y)
 
 	// <r(x), H'>
-	rH, err := vector.Exp(r, Hprime, N, M)
+	rH, err := vector.Exp(r, Hprime, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<r(x), H'>")
 	}
 
 	// <aR,H>
-	aRH, err := vector.Exp(aR, H, N, M)
+	aRH, err := vector.Exp(aR, H, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<aR,H>")
 	}
 	// x<sR, H>
-	sRH, err := vector.Exp(sR, H, N, M)
+	sRH, err := vector.Exp(sR, H, N, m)
 	if err != nil {
 
 		return false, errors.Wrap(err, "x<sR, H>")
@@ -145,18 +145,18 @@ func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []rist
 	xsRH.ScalarMult(&sRH, &x)
 
 	// y^(n*m)
-	yNM := vector.ScalarPowers(y, uint32(N*M))
+	yNM := vector.ScalarPowers(y, uint32(N*m))
 
 	// z*y^nm
 	zMulYn := vector.MulScalar(yNM, z)
 
 	// p = <z*y^nm , H'>
-	p, err := vector.Exp(zMulYn, Hprime, N, M)
+	p, err := vector.Exp(zMulYn, Hprime, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<z*y^nm , H'>")
 	}
 	// k = sum( (< <z^(j+1) * 2^n>, H') ) from j = 1 to j = m
-	k, err := vector.Exp(sumZMTwoN(z), Hprime, N, M)
+	k, err := vector.Exp(sumZMTwoN(z, m), Hprime, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "k = sum()...")
 	}
diff --git a/rangeproof/poly.go b/rangeproof/poly.go
index eef6fe7..706e936 100644
--- a/rangeproof/poly.go
+++ b/rangeproof/poly.go
@@ -15,7 +15,7 @@ type polynomial struct {
 	t0, t1, t2     ristretto.Scalar
 }
 
-func computePoly(aL, aR, sL, sR []ristretto.Scalar, y, z ristretto.Scalar) (*polynomial, error) {
+func computePoly(aL, aR, sL, sR []ristretto.Scalar, y, z ristretto.Scalar, m int) (*polynomial, error) {
 
 	// calculate l_0
 	l0 := vector.SubScalar(aL, z)
@@ -24,9 +24,9 @@ func computePoly(aL, aR, sL, sR []ristretto.Scalar, y, z ristretto.Scalar) (*pol
 	l1 := sL
 
 	// calculate r_0
-	yNM := vector.ScalarPowers(y, uint32(N*M))
+	yNM := vector.ScalarPowers(y, uint32(N*m))
 
-	zMTwoN := sumZMTwoN(z)
+	zMTwoN := sumZMTwoN(z, m)
 
 	r0 := vector.AddScalar(aR, z)
 
@@ -155,20 +155,20 @@ func (p *polynomial) computeT0(y, z ristretto.Scalar, v []ristretto.Scalar, n, m
 // calculates sum( z^(1+j) * ( 0^(j-1)n || 2 ^n || 0^(m-j)n ) ) from j = 1 to j=M (71)
 // implementation taken directly from java implementation.
 // XXX: Look into ways to speed this up, and improve readability
-// XXX: pass n and m as parameters
-func sumZMTwoN(z ristretto.Scalar) []ristretto.Scalar {
+// XXX: pass n as parameter
+func sumZMTwoN(z ristretto.Scalar, m int) []ristretto.Scalar {
 
-	res := make([]ristretto.Scalar, N*M)
+	res := make([]ristretto.Scalar, N*m)
 
-	zM := vector.ScalarPowers(z, uint32(M+3))
+	zM := vector.ScalarPowers(z, uint32(m+3))
 
 	var two ristretto.Scalar
 	two.SetBigInt(big.NewInt(2))
 	twoN := vector.ScalarPowers(two, N)
 
-	for i := 0; i < M*N; i++ {
+	for i := 0; i < m*N; i++ {
 		res[i].SetZero()
-		for j := 1; j <= M; j++ {
+		for j := 1; j <= m; j++ {
 			if (i >= (j-1)*N) && (i < j*N) {
 				res[i].MulAdd(&zM[j+1], &twoN[i-(j-1)*N], &res[i])
 			}
diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index 92009f1..240a78d 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"math/big"
+	"math/bits"
 
 	"github.com/pkg/errors"
 
@@ -19,10 +20,11 @@ import (
 // So amount will be between 0...2^(N-1)
 const N = 64
 
-// M is the number of outputs for one bulletproof
+// M was the number of outputs for one bulletproof. The number of outputs
+// is a property of each proof, so this variable is not used anymore
 var M = 1
 
-// M is the maximum number of values allowed per rangeproof
+// maxM is the maximum number of values allowed per rangeproof
 const maxM = 16
 
 // Proof is the constructed BulletProof
@@ -48,14 +50,14 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 		return Proof{}, errors.New("length of slice v is zero")
 	}
 
-	M = len(v)
-	if M > maxM {
+	m := len(v)
+	if m > maxM {
 		return Proof{}, fmt.Errorf("maximum amount of values must be less than %d", maxM)
 	}
 
 	// Pad zero values until we have power of two
-	padAmount := innerproduct.DiffNextPow2(uint32(M))
-	M = M + int(padAmount)
+	padAmount := innerproduct.DiffNextPow2(uint32(m))
+	m = m + int(padAmount)
 	for i := uint32(0); i < padAmount; i++ {
 		var zeroScalar ristretto.Scalar
 		zeroScalar.SetZero()
@@ -63,10 +65,10 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	}
 
 	// commitment to values v
-	Vs := make([]pedersen.Commitment, 0, M)
+	Vs := make([]pedersen.Commitment, 0, m)
 	genData := []byte("dusk.BulletProof.vec1")
 	ped := pedersen.New(genData)
-	ped.BaseVector.Compute(uint32((N * M)))
+	ped.BaseVector.Compute(uint32((N * m)))
 
 	// Hash for Fiat-Shamir
 	hs := fiatshamir.HashCacher{Cache: []byte{}}
@@ -81,8 +83,8 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 		hs.Append(V.Value.Bytes())
 	}
 
-	aLs := make([]ristretto.Scalar, 0, N*M)
-	aRs := make([]ristretto.Scalar, 0, N*M)
+	aLs := make([]ristretto.Scalar, 0, N*m)
+	aRs := make([]ristretto.Scalar, 0, N*m)
 
 	for i := range v {
 		// Compute Bitcommits aL and aR to v
@@ -95,7 +97,7 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	A := computeA(ped, aLs, aRs)
 
 	// // Compute S
-	S, sL, sR := computeS(ped)
+	S, sL, sR := computeS(ped, m)
 
 	// // update Fiat-Shamir
 	hs.Append(A.Value.Bytes(), S.Value.Bytes())
@@ -104,7 +106,7 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	y, z := computeYAndZ(hs)
 
 	// compute polynomial
-	poly, err := computePoly(aLs, aRs, sL, sR, y, z)
+	poly, err := computePoly(aLs, aRs, sL, sR, y, z, m)
 	if err != nil {
 		return Proof{}, errors.Wrap(err, "[Prove] - poly")
 	}
@@ -139,13 +141,13 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 
 	// START DEBUG
 	if debug {
-		err := debugProve(x, y, z, v, l, r, aLs, aRs, sL, sR)
+		err := debugProve(x, y, z, v, l, r, aLs, aRs, sL, sR, m)
 		if err != nil {
 			return Proof{}, errors.Wrap(err, "[Prove] - debugProve")
 		}
 
 		// DEBUG T0
-		testT0, err := debugT0(aLs, aRs, y, z)
+		testT0, err := debugT0(aLs, aRs, y, z, m)
 		if err != nil {
 			return Proof{}, errors.Wrap(err, "[Prove] - testT0")
 
@@ -154,7 +156,7 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 			return Proof{}, errors.New("[Prove]: Test t0 value does not match the value calculated from the polynomial")
 		}
 
-		polyt0 := poly.computeT0(y, z, v, N, uint32(M))
+		polyt0 := poly.computeT0(y, z, v, N, uint32(m))
 		if !polyt0.Equals(&poly.t0) {
 			return Proof{}, errors.New("[Prove]: t0 value from delta function, does not match the polynomial t0 value(Correct)")
 		}
@@ -180,11 +182,11 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 
 	var yinv ristretto.Scalar
 	yinv.Inverse(&y)
-	Hpf := vector.ScalarPowers(yinv, uint32(N*M))
+	Hpf := vector.ScalarPowers(yinv, uint32(N*m))
 
 	genData = append(genData, uint8(1))
 	ped2 := pedersen.New(genData)
-	ped2.BaseVector.Compute(uint32(N * M))
+	ped2.BaseVector.Compute(uint32(N * m))
 
 	H := ped2.BaseVector.Bases
 	G := ped.BaseVector.Bases
@@ -216,10 +218,10 @@ func computeA(ped *pedersen.Pedersen, aLs, aRs []ristretto.Scalar) pedersen.Comm
 }
 
 // S = kH + sL*G + sR * H
-func computeS(ped *pedersen.Pedersen) (pedersen.Commitment, []ristretto.Scalar, []ristretto.Scalar) {
+func computeS(ped *pedersen.Pedersen, m int) (pedersen.Commitment, []ristretto.Scalar, []ristretto.Scalar) {
 
-	sL, sR := make([]ristretto.Scalar, N*M), make([]ristretto.Scalar, N*M)
-	for i := 0; i < N*M; i++ {
+	sL, sR := make([]ristretto.Scalar, N*m), make([]ristretto.Scalar, N*m)
+	for i := 0; i < N*m; i++ {
 		var randA ristretto.Scalar
 		randA.Rand()
 		sL[i] = randA
@@ -322,14 +324,28 @@ func computeHprime(H []ristretto.Point, y ristretto.Scalar) []ristretto.Point {
 // Verify takes a bullet proof and returns true only if the proof was valid
 func Verify(p Proof) (bool, error) {
 
+	// the number of values is given by the commitments and
+	// the amount of inner product rounds is fixed by it
+	m := len(p.V)
+	if m < 1 || m > maxM || innerproduct.DiffNextPow2(uint32(m)) != 0 {
+		return false, fmt.Errorf("number of commitments must be a power of two between 1 and %d", maxM)
+	}
+	if p.IPProof == nil {
+		return false, errors.New("inner product proof is missing")
+	}
+	rounds := bits.TrailingZeros(uint(N * m))
+	if len(p.IPProof.L) != rounds || len(p.IPProof.R) != rounds {
+		return false, errors.New("inner product proof does not match the number of commitments")
+	}
+
 	genData := []byte("dusk.BulletProof.vec1")
 	ped := pedersen.New(genData)
-	ped.BaseVector.Compute(uint32(N * M))
+	ped.BaseVector.Compute(uint32(N * m))
 
 	genData = append(genData, uint8(1))
 
 	ped2 := pedersen.New(genData)
-	ped2.BaseVector.Compute(uint32(N * M))
+	ped2.BaseVector.Compute(uint32(N * m))
 
 	G := ped.BaseVector.Bases
 	H := ped2.BaseVector.Bases
@@ -347,10 +363,10 @@ func Verify(p Proof) (bool, error) {
 	hs.Append(x.Bytes(), p.taux.Bytes(), p.mu.Bytes(), p.t.Bytes())
 	w := hs.Derive()
 
-	return megacheckWithC(p.IPProof, p.mu, x, y, z, p.t, p.taux, w, p.A, ped.BasePoint, ped.BlindPoint, p.S, p.T1, p.T2, G, H, p.V)
+	return megacheckWithC(p.IPProof, p.mu, x, y, z, p.t, p.taux, w, p.A, ped.BasePoint, ped.BlindPoint, p.S, p.T1, p.T2, G, H, p.V, m)
 }
 
-func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristretto.Scalar, A, G, H, S, T1, T2 ristretto.Point, GVec, HVec []ristretto.Point, V []pedersen.Commitment) (bool, error) {
+func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristretto.Scalar, A, G, H, S, T1, T2 ristretto.Point, GVec, HVec []ristretto.Point, V []pedersen.Commitment, m int) (bool, error) {
 
 	var c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11 ristretto.Point
 
@@ -378,7 +394,7 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 
 	// h vector scalars : y Had (bsInv - zM2N) - z points : H
 	bs := vector.MulScalar(sInv, ipproof.B)
-	zAnd2 := sumZMTwoN(z)
+	zAnd2 := sumZMTwoN(z, m)
 	h, err := vector.Sub(bs, zAnd2)
 	if err != nil {
 		return false, errors.Wrap(err, "[h1]")
@@ -386,7 +402,7 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 
 	var yinv ristretto.Scalar
 	yinv.Inverse(&y)
-	Hpf := vector.ScalarPowers(yinv, uint32(N*M))
+	Hpf := vector.ScalarPowers(yinv, uint32(N*m))
 
 	h, err = vector.Hadamard(h, Hpf)
 	if err != nil {
@@ -401,7 +417,7 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 	}
 
 	// G basepoint gbp : (c * w(ab-t)) + t-D(y,z) point : G
-	delta := computeDelta(y, z, N, uint32(M))
+	delta := computeDelta(y, z, N, uint32(m))
 	var tMinusDelta ristretto.Scalar
 	tMinusDelta.Sub(&t, &delta)
 
@@ -449,7 +465,7 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 	c8.PublicScalarMult(&c8, &c)
 
 	// scalar: z_j+2  points: Vj
-	zM := vector.ScalarPowers(z, uint32(M))
+	zM := vector.ScalarPowers(z, uint32(m))
 	var zSq ristretto.Scalar
 	zSq.Square(&z)
 	zM = vector.MulScalar(zM, zSq)
-- 
2.43.0


From 727d537bc97f538d3cc7da3825609f904107ff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:16 +0000
Subject: [PATCH 16/22] fix: range proofs and commitments do not write to the
 caller's slices

Appending to a slice handed in by the caller overwrites whatever the caller
keeps between its length and its capacity.
---
 rangeproof/pedersen/pedersen.go | 3 ++-
 rangeproof/rangeproof.go        | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index 9347e56..ece2d89 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -201,7 +201,8 @@ func (p *Pedersen) CommitToVectors(vectors ...[]ristretto.Scalar) Commitment {
 			sum.Add(&sum, &commit)
 		} else {
 
-			genData := append(p.GenData, uint8(i))
+			genData := append([]byte{}, p.GenData...)
+			genData = append(genData, uint8(i))
 			ped2 := New(genData)
 
 			commit := ped2.commitToScalars(nil, vector...)
diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index 240a78d..b1b991d 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -58,6 +58,7 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	// Pad zero values until we have power of two
 	padAmount := innerproduct.DiffNextPow2(uint32(m))
 	m = m + int(padAmount)
+	v = append(make([]ristretto.Scalar, 0, m), v...)
 	for i := uint32(0); i < padAmount; i++ {
 		var zeroScalar ristretto.Scalar
 		zeroScalar.SetZero()
-- 
2.43.0


From 92819a894df26bab3d8e542dfd1e56241795c535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:16 +0000
Subject: [PATCH 17/22] fix: the merkle tree does not append to hashes owned by
 its payloads

---
 merkletree/merkletree.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 8f6ea8c..d4faec2 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -50,7 +50,16 @@ func VerifyNode(n *Node) ([]byte, error) {
 		return nil, err
 	}
 
-	return hash.Sha3256(append(leftBytes, rightBytes...))
+	return hashChildren(leftBytes, rightBytes)
+}
+
+// hashChildren hashes the concatenation of the hashes of two child nodes.
+// The hashes belong to the payloads, so they are copied rather than appended to
+func hashChildren(left, right []byte) ([]byte, error) {
+	payloadHash := make([]byte, 0, len(left)+len(right))
+	payloadHash = append(payloadHash, left...)
+	payloadHash = append(payloadHash, right...)
+	return hash.Sha3256(payloadHash)
 }
 
 // CalculateNodeHash is a helper function for calculating the hash of a node
@@ -59,7 +68,7 @@ func CalculateNodeHash(n *Node) ([]byte, error) {
 		return n.Data.CalculateHash()
 	}
 
-	return hash.Sha3256(append(n.Left.Hash, n.Right.Hash...))
+	return hashChildren(n.Left.Hash, n.Right.Hash)
 }
 
 // NewTree constructs a merkletree using the Payload/Content pl
@@ -123,9 +132,7 @@ func createIntermediate(nl []*Node) (*Node, error) {
 		if i+1 == len(nl) {
 			right = i
 		}
-		payloadHash := append(nl[left].Hash, nl[right].Hash...)
-
-		h, err := hash.Sha3256(payloadHash)
+		h, err := hashChildren(nl[left].Hash, nl[right].Hash)
 		if err != nil {
 			return nil, err
 		}
@@ -208,8 +215,7 @@ func (t *Tree) VerifyContent(data Payload) (bool, error) {
 					return false, err
 				}
 
-				h, err := hash.Sha3256(append(leftBytes, rightBytes...))
-
+				h, err := hashChildren(leftBytes, rightBytes)
 				if err != nil {
 					return false, err
 				}
-- 
2.43.0


From 95a97cbeb5d26ecb31ac068b3d944d55e4d63c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:29 +0000
Subject: [PATCH 18/22] fix: Prove refuses values outside of the range

Without the debug flag Prove returned a proof which can never be verified.
---
 rangeproof/rangeproof.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index b1b991d..657d4a8 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -55,6 +55,12 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 		return Proof{}, fmt.Errorf("maximum amount of values must be less than %d", maxM)
 	}
 
+	for i := range v {
+		if v[i].BigInt().BitLen() > N {
+			return Proof{}, fmt.Errorf("value %d is not in the range [0, 2^%d)", i, N)
+		}
+	}
+
 	// Pad zero values until we have power of two
 	padAmount := innerproduct.DiffNextPow2(uint32(m))
 	m = m + int(padAmount)
-- 
2.43.0


From 43df3fbb1cbaa3779a394f05fb1095fae34a3b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:29 +0000
Subject: [PATCH 19/22] fix: the debug checks of Prove report failures and
 accept 2^N - 1

errors.Wrap returns nil for a nil error, so a failed check went unnoticed.
---
 rangeproof/debug.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rangeproof/debug.go b/rangeproof/debug.go
index 0326801..890c35b 100644
--- a/rangeproof/debug.go
+++ b/rangeproof/debug.go
@@ -15,13 +15,19 @@ import (
 func debugProve(x, y, z ristretto.Scalar, v, l, r []ristretto.Scalar, aL, aR, sL, sR []ristretto.Scalar, m int) error {
 
 	ok, err := debugLxG(l, x, z, aL, aR, sL, m)
+	if err != nil {
+		return errors.Wrap(err, "[DEBUG]: <l(x), G>")
+	}
 	if !ok {
-		return errors.Wrap(err, "[DEBUG]: <l(x), G> is constructed incorrectly")
+		return errors.New("[DEBUG]: <l(x), G> is constructed incorrectly")
 	}
 
 	ok, err = debugRxHPrime(r, x, y, z, aR, sR, m)
+	if err != nil {
+		return errors.Wrap(err, "[DEBUG]: <r(x), H'>")
+	}
 	if !ok {
-		return errors.Wrap(err, "[DEBUG]: <r(x), H'> is constructed incorrectly")
+		return errors.New("[DEBUG]: <r(x), H'> is constructed incorrectly")
 	}
 
 	for i := range v {
@@ -171,12 +177,12 @@ func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []rist
 	return rH.Equals(&rhs), nil
 }
 
-// debugsizeOfV returns true if v is less than 2^N - 1
+// debugsizeOfV returns true if v is at most 2^N - 1
 func debugsizeOfV(v *big.Int) bool {
 	var twoN, e, one = big.NewInt(2), big.NewInt(int64(N)), big.NewInt(int64(1))
 	twoN.Exp(twoN, e, nil)
 	twoN.Sub(twoN, one)
 
 	cmp := v.Cmp(twoN)
-	return (cmp == -1)
+	return (cmp <= 0)
 }
-- 
2.43.0


From 2cc2af12c4f4f958633345be06e1fb8ccbb65e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:58 +0000
Subject: [PATCH 20/22] fix: vector operations always return new vectors and
 0^0 = 1

SubScalar and Neg returned their argument itself in special cases, and
ScalarPowers(0, n) did not start with one, unlike ScalarPowersSum.
---
 rangeproof/vector/vector.go | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/rangeproof/vector/vector.go b/rangeproof/vector/vector.go
index dacd1fa..83762cc 100644
--- a/rangeproof/vector/vector.go
+++ b/rangeproof/vector/vector.go
@@ -53,10 +53,6 @@ func Sub(a, b []ristretto.Scalar) ([]ristretto.Scalar, error) {
 
 // Neg Negates a vector a
 func Neg(a []ristretto.Scalar) []ristretto.Scalar {
-	if len(a) == 0 {
-		return a
-	}
-
 	res := make([]ristretto.Scalar, len(a))
 
 	for i := range a {
@@ -69,10 +65,6 @@ func Neg(a []ristretto.Scalar) []ristretto.Scalar {
 // SubScalar Subtracts a scalars value b, from every element in the slice a
 func SubScalar(a []ristretto.Scalar, b ristretto.Scalar) []ristretto.Scalar {
 
-	if b.IsNonZeroI() == 0 {
-		return a
-	}
-
 	res := make([]ristretto.Scalar, len(a))
 
 	for i := 0; i < len(a); i++ {
@@ -150,10 +142,6 @@ func ScalarPowers(a ristretto.Scalar, n uint32) []ristretto.Scalar {
 		return res
 	}
 
-	if a.IsNonZeroI() == 0 {
-		return res
-	}
-
 	var k ristretto.Scalar
 	k.SetOne()
 	res[0] = k
-- 
2.43.0


From 696ce80d8d3e663484d7a7865586dada3635ce02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:01 +0000
Subject: [PATCH 21/22] fix: inner product proofs check their dimensions and do
 not drop errors

---
 rangeproof/innerproduct/innerproduct.go | 35 ++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index d7f1e52..f89ac02 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -31,6 +31,10 @@ func Generate(GVec, HVec []ristretto.Point, aVec, bVec, HprimeFactors []ristrett
 		return nil, errors.New("[IPProof]: size of n (NM) is not a power of 2")
 	}
 
+	if n == 0 || len(HVec) != len(GVec) || len(aVec) != len(GVec) || len(bVec) != len(GVec) || len(HprimeFactors) != len(GVec) {
+		return nil, errors.New("[IPProof]: all vectors must have the same size and cannot be empty")
+	}
+
 	a := make([]ristretto.Scalar, len(aVec))
 	copy(a, aVec)
 	b := make([]ristretto.Scalar, len(bVec))
@@ -51,13 +55,25 @@ func Generate(GVec, HVec []ristretto.Point, aVec, bVec, HprimeFactors []ristrett
 		n = n / 2
 
 		aL, aR, err := vector.SplitScalars(a, n)
+		if err != nil {
+			return nil, err
+		}
 		bL, bR, err := vector.SplitScalars(b, n)
+		if err != nil {
+			return nil, err
+		}
 		GL, GR, err := vector.SplitPoints(G, n)
+		if err != nil {
+			return nil, err
+		}
 		HL, HR, err := vector.SplitPoints(H, n)
+		if err != nil {
+			return nil, err
+		}
 
 		cL, err := vector.InnerProduct(aL, bR)
 		if err != nil {
-
+			return nil, err
 		}
 		cR, err := vector.InnerProduct(aR, bL)
 		if err != nil {
@@ -163,9 +179,21 @@ func Generate(GVec, HVec []ristretto.Point, aVec, bVec, HprimeFactors []ristrett
 		n = n / 2
 
 		aL, aR, err := vector.SplitScalars(a, n)
+		if err != nil {
+			return nil, err
+		}
 		bL, bR, err := vector.SplitScalars(b, n)
+		if err != nil {
+			return nil, err
+		}
 		GL, GR, err := vector.SplitPoints(G, n)
+		if err != nil {
+			return nil, err
+		}
 		HL, HR, err := vector.SplitPoints(H, n)
+		if err != nil {
+			return nil, err
+		}
 
 		cL, err := vector.InnerProduct(aL, bR)
 		if err != nil {
@@ -337,6 +365,11 @@ func (proof *Proof) VerifScalars() ([]ristretto.Scalar, []ristretto.Scalar, []ri
 
 // Verify is used for unit tests and verifies that a given proof evaluates to the point P
 func (proof *Proof) Verify(G, H, L, R []ristretto.Point, HprimeFactor []ristretto.Scalar, Q, P ristretto.Point, n int) bool {
+	if len(proof.L) != len(proof.R) || len(proof.L) >= 32 || len(G) != 1<<uint(len(proof.L)) ||
+		len(H) != len(G) || len(HprimeFactor) != len(G) {
+		return false
+	}
+
 	uSq, uInvSq, s := proof.VerifScalars()
 
 	sInv := make([]ristretto.Scalar, len(s))
-- 
2.43.0


From deabfd6418aa1c6f0903776e50b84e1faaad82e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:12 +0000
Subject: [PATCH 22/22] fix: UnsafeBatch never returns nil or one of its
 arguments

---
 bls/bls.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bls/bls.go b/bls/bls.go
index 9ebd1e7..399554e 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -440,10 +440,14 @@ func UnsafeAggregate(one, other *UnsafeSignature) *UnsafeSignature {
 // UnsafeBatch is a utility function to aggregate distinct messages
 // (if not distinct the scheme is vulnerable to chosen-key attack)
 func UnsafeBatch(sigs ...*UnsafeSignature) (*UnsafeSignature, error) {
+	if len(sigs) == 0 {
+		return nil, errors.New("bls: cannot aggregate an empty set of signatures")
+	}
+
 	var sum *UnsafeSignature
 	for i, sig := range sigs {
 		if i == 0 {
-			sum = sig
+			sum = &UnsafeSignature{e: newG1().Set(sig.e)}
 		} else {
 			sum = UnsafeAggregate(sum, sig)
 		}
-- 
2.43.0

