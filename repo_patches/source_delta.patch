From 65989029b0238effa2ce74201bbfb96834407467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 01/15] fix: compare the whole of S with the group order in
 IsCanonicalSignature

---
 ed25519_model.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ed25519_model.go b/ed25519_model.go
index 77e25af..8f93db1 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -324,8 +324,9 @@ func (ref *Ed25519DsaSigner) Verify(mess []byte, signature *Signature) (res bool
 // IsCanonicalSignature check signature on canonical
 func (ref *Ed25519DsaSigner) IsCanonicalSignature(signature *Signature) bool {
 
-	sgnS := signature.GetS().Uint64()
-	return sgnS != Ed25519Group.GROUP_ORDER.Uint64() && sgnS > 0
+	// 0 < S < group order, compared over the full width of S.
+	s := signature.GetS()
+	return s.Sign() > 0 && s.Cmp(Ed25519Group.GROUP_ORDER) < 0
 }
 
 // MakeSignatureCanonical return canonical signature
-- 
2.43.0


From 406533d31b1616d18e7f25e89e92e705389b3a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 02/15] fix: Decrypt returns an error for input that is not a
 whole number of blocks

---
 ed25519_model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ed25519_model.go b/ed25519_model.go
index 8f93db1..0546d89 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -94,6 +94,10 @@ func (ref *Ed25519BlockCipher) decode(ciphertext []byte, sharedKey []byte, ivDat
 		return nil, err
 	}
 
+	if len(ciphertext)%c.BlockSize() != 0 {
+		return nil, errors.New("blocks are corrupted, input is not a whole number of blocks")
+	}
+
 	dec := cipher.NewCBCDecrypter(c, ivData)
 	buf := make([]byte, len(ciphertext))
 	dec.CryptBlocks(buf, ciphertext)
-- 
2.43.0


From 6a422ce87cee2f2cf03411bcf70e91f51fab8103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 03/15] fix: Encrypt and Decrypt return an error when the
 private key they need is missing

---
 ed25519_model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ed25519_model.go b/ed25519_model.go
index 0546d89..e76e427 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -123,6 +123,10 @@ func (ref *Ed25519BlockCipher) decode(ciphertext []byte, sharedKey []byte, ivDat
 // GetSharedKey create shared bytes
 func (ref *Ed25519BlockCipher) GetSharedKey(privateKey *PrivateKey, publicKey *PublicKey, salt []byte) ([]byte, error) {
 
+	if privateKey == nil {
+		return nil, errors.New("cannot create shared key without private key")
+	}
+
 	grA, err := NewEd25519EncodedGroupElement(publicKey.Raw)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 0f67c4b43d4eefac1662fd66d34c53d5d381f438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 04/15] fix: Verify rejects signatures and public keys of the
 wrong length

---
 ed25519_model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ed25519_model.go b/ed25519_model.go
index e76e427..a9d278e 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -277,6 +277,10 @@ func (ref *Ed25519DsaSigner) Sign(mess []byte) (*Signature, error) {
 // prevent  panic inside ed25519.Verify
 func (ref *Ed25519DsaSigner) Verify(mess []byte, signature *Signature) (res bool) {
 
+	if len(signature.R) != 32 || len(signature.S) != 32 || len(ref.KeyPair.PublicKey.Raw) != 32 {
+		return false
+	}
+
 	if !ref.IsCanonicalSignature(signature) {
 		return false
 	}
-- 
2.43.0


From 20dea66f901a9cea907630ab7e424e91cb762b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 05/15] fix: Signature.Bytes no longer writes behind the R
 slice

---
 signature.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/signature.go b/signature.go
index 8d1bae4..b397bb0 100644
--- a/signature.go
+++ b/signature.go
@@ -71,7 +71,9 @@ func (ref *Signature) GetS() *big.Int {
 // Bytes Gets a little-endian 64-byte representation of the signature.
 func (ref *Signature) Bytes() []byte {
 
-	return append(ref.R, ref.S...)
+	// A fresh buffer: appending to R could write into memory behind it.
+	b := make([]byte, 0, len(ref.R)+len(ref.S))
+	return append(append(b, ref.R...), ref.S...)
 }
 
 func (ref *Signature) String() string {
-- 
2.43.0


From d8268d13143ecdefe259f6da3c1046a31f36170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 06/15] fix: NewSignatureFromBigInt accepts exactly the
 integers of at most 256 bits

---
 signature.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/signature.go b/signature.go
index b397bb0..03a2724 100644
--- a/signature.go
+++ b/signature.go
@@ -7,7 +7,6 @@ package crypto
 import (
 	"encoding/hex"
 	"errors"
-	"math"
 	"math/big"
 
 	"github.com/proximax-storage/go-xpx-utils"
@@ -37,8 +36,8 @@ func NewSignature(r []byte, s []byte) (*Signature, error) {
 // NewSignatureFromBigInt create new Signature from big.Int parts
 func NewSignatureFromBigInt(rInt, sInt *big.Int) (*Signature, error) {
 	if (rInt == nil) || (sInt == nil) ||
-		(rInt.Uint64() > math.MaxInt32) ||
-		(sInt.Uint64() > math.MaxInt32) {
+		(rInt.Sign() < 0) || (rInt.BitLen() > 256) ||
+		(sInt.Sign() < 0) || (sInt.BitLen() > 256) {
 		return nil, errBadParamNewSignatureBigInt
 	}
 
-- 
2.43.0


From c25d4f7c7891a6a18359914c6ed1a3a7cba13b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 07/15] fix: NewPrivateKeyFromBigInt keeps the leading zero
 bytes of the key

---
 key_model.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/key_model.go b/key_model.go
index ef1ba0a..5ba7424 100644
--- a/key_model.go
+++ b/key_model.go
@@ -44,7 +44,12 @@ func NewPrivateKey(raw []byte) *PrivateKey {
 
 // NewPrivateKeyFromBigInt creates a new private key from []byte
 func NewPrivateKeyFromBigInt(val *big.Int) *PrivateKey {
-	return &PrivateKey{val, val.Bytes()}
+	raw := val.Bytes()
+	// Bytes drops leading zeroes, which belong to the 32 byte key.
+	if len(raw) < 32 {
+		raw = append(make([]byte, 32-len(raw)), raw...)
+	}
+	return &PrivateKey{val, raw}
 }
 
 // NewPrivateKeyfromHexString creates a private key from a hex strings.
-- 
2.43.0


From aa4046e8b07a99a5c3250d2317b87cb04d2363e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 08/15] fix: GetAffineXFromAffineY checks v*x^2 and keeps x
 when reading its parity

---
 math.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math.go b/math.go
index 480e390..3bb7f3a 100644
--- a/math.go
+++ b/math.go
@@ -206,7 +206,7 @@ func (ref *mathUtils) GetAffineXFromAffineY(y *big.Int, shouldBeNegative bool) (
 	x := ref.getSqrtOfFraction(u, v)
 
 	vx2 := (&big.Int{}).Mul(v, x)
-	vx2.Mul(v, x)
+	vx2.Mul(vx2, x)
 
 	if v.Sub(vx2, u).Mod(v, Ed25519Field.P).Cmp(bigIntegerZERO()) != 0 {
 		if vx2.Add(vx2, u).Mod(vx2, Ed25519Field.P).Cmp(bigIntegerZERO()) != 0 {
@@ -216,7 +216,7 @@ func (ref *mathUtils) GetAffineXFromAffineY(y *big.Int, shouldBeNegative bool) (
 		x = x.Mul(x, ref.IntsToBigInteger(Ed25519Field.I.Raw)).Mod(x, Ed25519Field.P)
 	}
 
-	isNegative := x.Mod(x, big.NewInt(2)).Cmp(bigIntegerONE()) == 0 // final
+	isNegative := x.Bit(0) == 1 // final
 	if (shouldBeNegative && !isNegative) || (!shouldBeNegative && isNegative) {
 		x = x.Neg(x).Mod(x, Ed25519Field.P)
 	}
-- 
2.43.0


From 00a3ded55da5026a3ec20aed4e0dadd1a37a3848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 09/15] fix: ToGroupElement leaves the caller's bytes as they
 are

---
 math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math.go b/math.go
index 3bb7f3a..f6d9246 100644
--- a/math.go
+++ b/math.go
@@ -172,8 +172,8 @@ func (ref *mathUtils) ToFieldElement(b *big.Int) *Ed25519FieldElement {
 func (ref *mathUtils) ToGroupElement(bytes []byte) (*Ed25519GroupElement, error) {
 
 	shouldBeNegative := (bytes[31] >> 7) != 0
-	bytes[31] &= 0x7f
 	y := ref.BytesToBigInteger(bytes)
+	y.SetBit(y, 255, 0)
 	x, err := ref.GetAffineXFromAffineY(y, shouldBeNegative)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 5d11d357efb9822f8e1fa21b30e68668d44e7abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 10/15] fix: ToRepresentation recovers x and y of a PRECOMPUTED
 element

---
 math.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/math.go b/math.go
index f6d9246..5c4e7f9 100644
--- a/math.go
+++ b/math.go
@@ -287,12 +287,8 @@ func (ref *mathUtils) ToRepresentation(g *Ed25519GroupElement, newCoorSys Coordi
 
 		return ref.getNeeCoor(x, y, newCoorSys)
 	case PRECOMPUTED:
-		// safaty gX for next calculation
-		x := (&big.Int{}).Sub(gX, gY)
-		x = x.Mul(x, gZ.Mul(gZ, big.NewInt(2))).ModInverse(x, Ed25519Field.P).Mod(x, Ed25519Field.P)
-
-		y := gX.Add(gX, gY)
-		y = y.Mul(y, big.NewInt(2)).ModInverse(y, Ed25519Field.P).Mod(y, Ed25519Field.P)
+		x := xMulYModInverseAndModP((&big.Int{}).Sub(gX, gY), big.NewInt(2))
+		y := xMulYModInverseAndModP((&big.Int{}).Add(gX, gY), big.NewInt(2))
 		return ref.getNeeCoor(x, y, newCoorSys)
 	}
 	return nil, errors.New("NewUnsupportedOperationException")
-- 
2.43.0


From 0056cc161063a6db8709adfa8467225d3cae4c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 11/15] fix: group element equality does not depend on the
 order of the operands

---
 ed25519_encode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ed25519_encode.go b/ed25519_encode.go
index 05b61a7..8f86f8a 100644
--- a/ed25519_encode.go
+++ b/ed25519_encode.go
@@ -2104,6 +2104,11 @@ func NewEd25519GroupElementCached(
 // Equals compares two Ed25519GroupElement with reduction of coordinates
 func (ref *Ed25519GroupElement) Equals(ge *Ed25519GroupElement) (res bool) {
 
+	if ge.coordinateSystem == P2 && (ref.coordinateSystem == P3 || ref.coordinateSystem == P1xP1) {
+		// P2 cannot be lifted to the other systems, but they can be lowered to P2.
+		return ref.toP2().Equals(ge)
+	}
+
 	if ref.coordinateSystem != ge.coordinateSystem {
 		defer func() {
 			err := recover()
-- 
2.43.0


From 3f6fba28f09f407391938b2b9b8181e66e8ea3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 12/15] fix: NewKeyPair returns an error when it is given no
 key

---
 key_pair.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/key_pair.go b/key_pair.go
index 51abde1..9f1c523 100644
--- a/key_pair.go
+++ b/key_pair.go
@@ -27,6 +27,9 @@ func NewKeyPair(privateKey *PrivateKey, publicKey *PublicKey, engine CryptoEngin
 	}
 
 	if publicKey == nil {
+		if privateKey == nil {
+			return nil, errors.New("a key pair needs a private or a public key")
+		}
 		publicKey = engine.CreateKeyGenerator().DerivePublicKey(privateKey)
 	} else if !engine.CreateKeyAnalyzer().IsKeyCompressed(publicKey) {
 		return nil, errors.New("publicKey must be in compressed form")
-- 
2.43.0


From 661f393341310e31188445e2b9a6920ac3187499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 13/15] fix: XMulY_Plus_ZMulT_DelD no longer overwrites the
 numbers it is given

---
 math.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/math.go b/math.go
index 5c4e7f9..7d17650 100644
--- a/math.go
+++ b/math.go
@@ -537,8 +537,9 @@ func (ref *mathUtils) AddGroupElements(g1 *Ed25519GroupElement, g2 *Ed25519Group
 }
 
 func (ref *mathUtils) XMulY_Plus_ZMulT_DelD(x big.Int, y, z, t, d *big.Int) *big.Int {
-	b := &x
-	return b.Mul(b, y).Add(b, (&big.Int{}).Mul(z, t)).Mul(b, d.ModInverse(d, Ed25519Field.P)).Mod(b, Ed25519Field.P)
+	// x shares its words with the caller's number, so the result needs its own
+	b := &big.Int{}
+	return b.Mul(&x, y).Add(b, (&big.Int{}).Mul(z, t)).Mul(b, (&big.Int{}).ModInverse(d, Ed25519Field.P)).Mod(b, Ed25519Field.P)
 }
 
 /** DoubleGroupElement
-- 
2.43.0


From 2606c3bd26abd6504f4c8eaf9cfd283f633f2039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:01 +0000
Subject: [PATCH 14/15] fix: a P1xP1 element equals a P3 element of the same
 point

---
 ed25519_encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ed25519_encode.go b/ed25519_encode.go
index 8f86f8a..87788b9 100644
--- a/ed25519_encode.go
+++ b/ed25519_encode.go
@@ -2104,8 +2104,8 @@ func NewEd25519GroupElementCached(
 // Equals compares two Ed25519GroupElement with reduction of coordinates
 func (ref *Ed25519GroupElement) Equals(ge *Ed25519GroupElement) (res bool) {
 
-	if ge.coordinateSystem == P2 && (ref.coordinateSystem == P3 || ref.coordinateSystem == P1xP1) {
-		// P2 cannot be lifted to the other systems, but they can be lowered to P2.
+	if ref.coordinateSystem == P1xP1 || (ref.coordinateSystem == P3 && ge.coordinateSystem == P2) {
+		// Neither P2 nor P3 can be converted to P1xP1, nor P2 to P3, but all of them can be lowered to P2.
 		return ref.toP2().Equals(ge)
 	}
 
-- 
2.43.0


From 6a3ebf71bd5ec4e2af82de184c6fe0522309bfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 15/15] fix: GetSharedKey and Decrypt return an error when the
 public key they need is missing

---
 ed25519_model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ed25519_model.go b/ed25519_model.go
index a9d278e..b122fc9 100644
--- a/ed25519_model.go
+++ b/ed25519_model.go
@@ -127,6 +127,10 @@ func (ref *Ed25519BlockCipher) GetSharedKey(privateKey *PrivateKey, publicKey *P
 		return nil, errors.New("cannot create shared key without private key")
 	}
 
+	if publicKey == nil {
+		return nil, errors.New("cannot create shared key without public key")
+	}
+
 	grA, err := NewEd25519EncodedGroupElement(publicKey.Raw)
 	if err != nil {
 		return nil, err
-- 
2.43.0

