From 757ef73c45f7e06a4e1e388327893d54530868ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 01/54] fix: sm3 Sum must not change the hash state and must
 append to its argument

---
 sm3/sm3.go | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 997f47a..f6337df 100755
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -159,24 +159,18 @@ func (sm3 *SM3) Write(p []byte) (int, error) {
 }
 
 func (sm3 *SM3) Sum(in []byte) []byte {
-	sm3.Write(in)
-	msg := sm3.pad()
+	// Work on a copy so that the caller can keep writing and summing.
+	d := *sm3
+	d.unhandleMsg = append([]byte{}, sm3.unhandleMsg...)
+	msg := d.pad()
 
-	sm3.update(msg, len(msg)/sm3.BlockSize())
-
-	needed := sm3.Size()
-	if cap(in)-len(in) < needed {
-		newIn := make([]byte, len(in), len(in)+needed)
-		copy(newIn, in)
-		in = newIn
-	}
-	out := in[len(in) : len(in)+needed]
+	d.update(msg, len(msg)/d.BlockSize())
 
+	var out [32]byte
 	for i := 0; i < 8; i++ {
-		binary.BigEndian.PutUint32(out[i*4:], sm3.digest[i])
+		binary.BigEndian.PutUint32(out[i*4:], d.digest[i])
 	}
-	return out
-
+	return append(in, out[:]...)
 }
 
 func Sm3Sum(data []byte) []byte {
-- 
2.43.0


From c1d36bec33286a3eff6563305b0764f27769345e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 02/54] fix: sha3 clone of a squeezing sponge uses the unread
 length, not the buffer capacity

---
 sha3/sha3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sha3/sha3.go b/sha3/sha3.go
index 65b5031..2d82e1b 100755
--- a/sha3/sha3.go
+++ b/sha3/sha3.go
@@ -69,7 +69,7 @@ func (d *state) clone() *state {
 	if ret.state == spongeAbsorbing {
 		ret.buf = ret.storage[:len(ret.buf)]
 	} else {
-		ret.buf = ret.storage[d.rate-cap(d.buf) : d.rate]
+		ret.buf = ret.storage[d.rate-len(d.buf) : d.rate]
 	}
 
 	return &ret
-- 
2.43.0


From 4e9c01027761afcaa1e7fdad73642fcb6f0add3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 03/54] fix: BLAKE2s digest length above 32 is refused instead
 of truncated or panicking

---
 hashset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashset.go b/hashset.go
index 12890fe..6d8547a 100644
--- a/hashset.go
+++ b/hashset.go
@@ -224,6 +224,9 @@ func Hash(data []byte, digestLen uint16, typeChoose uint32) []byte {
 		break
 
 	case HASH_ALG_BLAKE2S:
+		if digestLen > blake2s.Size {
+			return nil
+		}
 		h := blake2s.NewMAC(uint8(digestLen), nil)
 
 		_, err := h.Write(data)
-- 
2.43.0


From 13980c8619435162b4f6a1df0394a640d0fb0e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 04/54] fix: point decompression refuses x out of range and x
 without a curve point

---
 secp256k1.go | 7 ++++++-
 secp256r1.go | 7 ++++++-
 sm2_std.go   | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/secp256k1.go b/secp256k1.go
index b8a0149..c595bbb 100644
--- a/secp256k1.go
+++ b/secp256k1.go
@@ -251,6 +251,9 @@ func secp256k1_decompress(in []byte) ([]byte, error) {
 	}
 
 	c := secp256k1
+	if x.Cmp(c.P) >= 0 {
+		return nil, errors.New("x coordinate out of range")
+	}
 
 	// y^2 = x^3 + b
 	// y   = sqrt(x^3 + b)
@@ -259,7 +262,9 @@ func secp256k1_decompress(in []byte) ([]byte, error) {
 	x3b.Mul(&x3b, x)
 	x3b.Add(&x3b, c.B)
 	x3b.Mod(&x3b, c.P)
-	y.ModSqrt(&x3b, c.P)
+	if y.ModSqrt(&x3b, c.P) == nil {
+		return nil, errors.New("no point with this x coordinate")
+	}
 
 	if y.Bit(0) != ybit {
 		y.Sub(c.P, &y)
diff --git a/secp256r1.go b/secp256r1.go
index c3aba71..660160c 100644
--- a/secp256r1.go
+++ b/secp256r1.go
@@ -47,6 +47,9 @@ func secp256r1_decompress(in []byte) ([]byte, error) {
 	}
 
 	c := secp256r1
+	if x.Cmp(c.P) >= 0 {
+		return nil, errors.New("x coordinate out of range")
+	}
 
 	var y, x3b, xa big.Int
 	x3b.Mul(x, x)
@@ -56,7 +59,9 @@ func secp256r1_decompress(in []byte) ([]byte, error) {
 	x3b.Add(&x3b, c.B)
 	x3b.Add(&x3b, &xa)
 	x3b.Mod(&x3b, c.P)
-	y.ModSqrt(&x3b, c.P)
+	if y.ModSqrt(&x3b, c.P) == nil {
+		return nil, errors.New("no point with this x coordinate")
+	}
 
 	if y.Bit(0) != ybit {
 		y.Sub(c.P, &y)
diff --git a/sm2_std.go b/sm2_std.go
index 8e719cf..2c820b7 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1618,6 +1618,9 @@ func sm2_std_decompress(in []byte) ([]byte, error){
 	}
 
 	c := sm2_std
+	if x.Cmp(c.P) >= 0 {
+		return nil, errors.New("x coordinate out of range")
+	}
 
 	var y, x3b, xa big.Int
 	x3b.Mul(x, x)
@@ -1627,7 +1630,9 @@ func sm2_std_decompress(in []byte) ([]byte, error){
 	x3b.Add(&x3b, c.B)
 	x3b.Add(&x3b, &xa)
 	x3b.Mod(&x3b, c.P)
-	y.ModSqrt(&x3b, c.P)
+	if y.ModSqrt(&x3b, c.P) == nil {
+		return nil, errors.New("no point with this x coordinate")
+	}
 
 	if y.Bit(0) != ybit {
 		y.Sub(c.P, &y)
-- 
2.43.0


From 26e363739974c5f5af4bd0b6912374cf3c27e77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 05/54] fix: Point_add and Point_mul fail on undecodable points
 instead of crashing

---
 eccset.go | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/eccset.go b/eccset.go
index ea7ea3e..a845346 100644
--- a/eccset.go
+++ b/eccset.go
@@ -424,25 +424,30 @@ func Point_mulBaseG_add(pointin, scalar []byte, typeChoose uint32) (point []byte
 	return nil, false
 }
 
+// uncompressedPoint returns the X||Y form of a point given as X||Y, 04||X||Y or
+// in compressed form, or nil if it is none of these.
+func uncompressedPoint(point []byte, typeChoose uint32) []byte {
+	if len(point) == 33 {
+		point = PointDecompress(point, typeChoose)
+	}
+	if len(point) == 65 && point[0] == 0x04 {
+		return point[1:]
+	}
+	if len(point) == 64 {
+		return point
+	}
+	return nil
+}
+
 func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 	if typeChoose == ECC_CURVE_ED25519 {
 		if len(point1) != 32 || len(point2) != 32 {
 			return nil, FAILURE
 		}
 	} else {
-		if len(point1) == 33 {
-			point1 = PointDecompress(point1, typeChoose)[1:]
-		} else if len(point1) == 65 {
-			point1 = point1[1:]
-		} else if len(point1) != 64 {
-			return nil, FAILURE
-		}
-
-		if len(point2) == 33 {
-			point2 = PointDecompress(point2, typeChoose)[1:]
-		} else if len(point2) == 65 {
-			point2 = point2[1:]
-		} else if len(point2) != 64 {
+		point1 = uncompressedPoint(point1, typeChoose)
+		point2 = uncompressedPoint(point2, typeChoose)
+		if point1 == nil || point2 == nil {
 			return nil, FAILURE
 		}
 	}
@@ -494,11 +499,8 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 			return nil, FAILURE
 		}
 	} else {
-		if len(pointin) == 33 {
-			pointin = PointDecompress(pointin, typeChoose)[1:]
-		} else if len(pointin) == 65 {
-			pointin = pointin[1:]
-		} else if len(pointin) != 64 {
+		pointin = uncompressedPoint(pointin, typeChoose)
+		if pointin == nil {
 			return nil, FAILURE
 		}
 
-- 
2.43.0


From 7737d0277dd016fa24c8cf462e10dd5fee80d32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 06/54] fix: Add reports infinity only for the identity, not
 for points with x = 0

---
 ecdsa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecdsa.go b/ecdsa.go
index 6f5ef48..9380f7f 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -380,7 +380,7 @@ func Add(point1, point2 []byte, name string) (point []byte, isinfinity bool) {
 		return nil, false
 	}
 
-	if x_big.Cmp(big.NewInt(0)) == 0 && x_big.Cmp(big.NewInt(0)) == 0 {
+	if x_big.Cmp(big.NewInt(0)) == 0 && y_big.Cmp(big.NewInt(0)) == 0 {
 		return nil, true
 	}
 
-- 
2.43.0


From 567b3fa3d60d0490932b348cbe9ccb3dba191788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 07/54] fix: points passed to verification, encryption and
 point operations must be on the curve

---
 eccset.go | 18 +++++++++---------
 ecdsa.go  | 39 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/eccset.go b/eccset.go
index a845346..ab0f992 100644
--- a/eccset.go
+++ b/eccset.go
@@ -394,13 +394,13 @@ func Point_mulBaseG_add(pointin, scalar []byte, typeChoose uint32) (point []byte
 
 	switch typeChoose {
 	case ECC_CURVE_SECP256K1:
-		return MulBaseG_Add(pointin, scalar, "secp256k1")
+		return MulBaseG_Add(uncompressedPoint(pointin, typeChoose), scalar, "secp256k1")
 		break
 	case ECC_CURVE_SECP256R1:
-		return MulBaseG_Add(pointin, scalar, "secp256r1")
+		return MulBaseG_Add(uncompressedPoint(pointin, typeChoose), scalar, "secp256r1")
 		break
 	case ECC_CURVE_SM2_STANDARD:
-		return MulBaseG_Add(pointin, scalar, "sm2_std")
+		return MulBaseG_Add(uncompressedPoint(pointin, typeChoose), scalar, "sm2_std")
 		break
 	case ECC_CURVE_ED25519:
 		var point1, s, point2 [32]byte
@@ -454,21 +454,21 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 	switch typeChoose {
 	case ECC_CURVE_SECP256K1:
 		point, is_infinity := Add(point1, point2, "secp256k1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SECP256R1:
 		point, is_infinity := Add(point1, point2, "secp256r1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SM2_STANDARD:
 		point, is_infinity := Add(point1, point2, "sm2_std")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
@@ -511,21 +511,21 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 	switch typeChoose {
 	case ECC_CURVE_SECP256K1:
 		point, is_infinity := Mul(pointin, scalar, "secp256k1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SECP256R1:
 		point, is_infinity := Mul(pointin, scalar, "secp256r1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SM2_STANDARD:
 		point, is_infinity := Mul(pointin, scalar, "sm2_std")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
diff --git a/ecdsa.go b/ecdsa.go
index 9380f7f..7683982 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -39,6 +39,29 @@ var (
 	three    = new(big.Int).SetUint64(3)
 )
 
+// isPoint reports whether point is X||Y of a point of the named curve, with
+// both coordinates below the field prime.
+func isPoint(point []byte, name string) bool {
+	var curve elliptic.Curve
+	switch name {
+	case "secp256k1":
+		curve = secp256k1
+	case "secp256r1":
+		curve = secp256r1
+	case "sm2_std":
+		curve = sm2_std
+	default:
+		return false
+	}
+	if len(point) != 64 {
+		return false
+	}
+	x := new(big.Int).SetBytes(point[:32])
+	y := new(big.Int).SetBytes(point[32:])
+	p := curve.Params().P
+	return x.Cmp(p) < 0 && y.Cmp(p) < 0 && curve.IsOnCurve(x, y)
+}
+
 func genPublicKey(privateKey []byte, name string) ([]byte, error) {
 	if privateKey == nil || len(privateKey) != 32 {
 		return nil, ErrPrivateKeyIllegal
@@ -204,6 +227,10 @@ func verify(publicKey, ID, hash, signature []byte, name string) bool {
 		return false
 	}
 
+	if !isPoint(publicKey, name) {
+		return false
+	}
+
 	pubk := new(ecdsa.PublicKey)
 
 	if name == "secp256k1" {
@@ -241,6 +268,9 @@ func encrypt(pubkey []byte, plain []byte, name string) ([]byte, error) {
 	if pubkey == nil || len(pubkey) != 64 {
 		return nil, ErrPublicKeyIllegal
 	}
+	if !isPoint(pubkey, name) {
+		return nil, ErrPublicKeyIllegal
+	}
 
 	if plain == nil || len(plain) == 0 {
 		return nil, ErrMessageIllegal
@@ -287,6 +317,9 @@ func decrypt(prikey, cipher []byte, name string) ([]byte, error) {
 }
 
 func MulBaseG_Add(pointin, scalar []byte, name string) (point []byte, isinfinity bool) {
+	if !isPoint(pointin, name) {
+		return nil, false
+	}
 
 	var curve *curveParam
 	var k1curve *secp256k1Curve
@@ -353,6 +386,9 @@ func MulBaseG_Add(pointin, scalar []byte, name string) (point []byte, isinfinity
 }
 
 func Add(point1, point2 []byte, name string) (point []byte, isinfinity bool) {
+	if !isPoint(point1, name) || !isPoint(point2, name) {
+		return nil, false
+	}
 	var curve *curveParam
 	var k1curve *secp256k1Curve
 	var sm2Curve *sm2_stdCurve
@@ -399,6 +435,9 @@ func Add(point1, point2 []byte, name string) (point []byte, isinfinity bool) {
 }
 
 func Mul(pointin, scalar []byte, name string) (point []byte, isinfinity bool) {
+	if !isPoint(pointin, name) {
+		return nil, false
+	}
 
 	var curve *curveParam
 	var k1curve *secp256k1Curve
-- 
2.43.0


From 651be22f3dbe392a4fa13957294c75379e4e71eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 08/54] fix: SM2 scalars with leading zero bytes beyond 32
 bytes do not overrun the buffer

---
 sm2_std.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2_std.go b/sm2_std.go
index 2c820b7..78850eb 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -200,7 +200,7 @@ func sm2_stdGetScalar(b *[32]byte, a []byte) {
 		n.Mod(n, sm2_std.N)
 		scalarBytes = n.Bytes()
 	} else {
-		scalarBytes = a
+		scalarBytes = n.Bytes()
 	}
 	for i, v := range scalarBytes {
 		b[len(scalarBytes)-(1+i)] = v
-- 
2.43.0


From 32297a99674a417db012748470395da0c178def7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 09/54] fix: SM2 point addition of equal points returns the
 double

---
 sm2_std.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm2_std.go b/sm2_std.go
index 78850eb..f817ae3 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -472,7 +472,8 @@ func sm2_stdPointAdd(x1, y1, z1, x2, y2, z2, x3, y3, z3 *sm2_stdFieldElement) {
 
 	if sm2_stdToBig(&u1).Cmp(sm2_stdToBig(&u2)) == 0 &&
 		sm2_stdToBig(&s1).Cmp(sm2_stdToBig(&s2)) == 0 {
-		sm2_stdPointDouble(x1, y1, z1, x1, y1, z1)
+		sm2_stdPointDouble(x3, y3, z3, x1, y1, z1)
+		return
 	}
 
 	sm2_stdSub(&h, &u2, &u1)
-- 
2.43.0


From 7bfcbbb2038a4150349dc2d0295a54f0b1e610b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:35 +0000
Subject: [PATCH 10/54] fix: SM2 signing retries when r = 0 or r + k = n

---
 sm2_std.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index f817ae3..78e02fb 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1083,10 +1083,7 @@ func sm2_std_sign(priv *ecdsa.PrivateKey, hash, uid []byte) (r, s *big.Int, v by
 				v = 0x00
 			}
 
-			if r.Sign() != 0 {
-				break
-			}
-			if t := new(big.Int).Add(r, k); t.Cmp(N) == 0 {
+			if t := new(big.Int).Add(r, k); r.Sign() != 0 && t.Cmp(N) != 0 {
 				break
 			}
 		}
-- 
2.43.0


From 3611270c0b985b2c152dc4f81c136af2f0ae98bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 11/54] fix: SM2 signing refuses the private key n-1, which has
 no inverse of 1+d

---
 sm2_std.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm2_std.go b/sm2_std.go
index 78e02fb..5607de5 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1064,6 +1064,9 @@ func sm2_std_sign(priv *ecdsa.PrivateKey, hash, uid []byte) (r, s *big.Int, v by
 	if N.Sign() == 0 {
 		return nil, nil, 0, ErrUnknownCurve
 	}
+	if new(big.Int).Add(priv.D, big.NewInt(1)).Cmp(N) == 0 {
+		return nil, nil, 0, ErrPrivateKeyIllegal
+	}
 	var k , ry *big.Int
 
 	for {
-- 
2.43.0


From 1b0211d66f92b869abaff580fe936dd4a128b20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 12/54] fix: ECDSA public key recovery handles digest 0 and
 fails instead of crashing on bad input

---
 secp256k1.go | 12 ++++++++++--
 secp256r1.go | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/secp256k1.go b/secp256k1.go
index c595bbb..543ddf9 100644
--- a/secp256k1.go
+++ b/secp256k1.go
@@ -300,6 +300,9 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 	curve := secp256k1
 
 	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
+	if r_inv == nil || sig[64] > 1 {
+		return nil, errors.New("invalid data")
+	}
 
 	G.Curve = curve
 	G.X = curve.Gx
@@ -327,6 +330,9 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 		}
 
 		buf1 := PointDecompress(buf2, ECC_CURVE_SECP256K1)
+		if buf1 == nil {
+			return nil, errors.New("failed to decompress")
+		}
 
 		R.Curve = curve
 		R.X = new(big.Int).SetBytes(buf1[1:33])
@@ -340,12 +346,14 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 		point2.Curve = curve
 		point2.X, point2.Y = curve.ScalarBaseMult(hash)
 
-		point2.Y = point2.Y.Sub(curve.P, point2.Y)
+		if point2.Y.Sign() != 0 { // the point at infinity is (0, 0)
+			point2.Y = point2.Y.Sub(curve.P, point2.Y)
+		}
 
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
 
-		if verifyesdsa(point2, hash, new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])) {
+		if curve.IsOnCurve(point2.X, point2.Y) && verifyesdsa(point2, hash, new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])) {
 			pubkey := make([]byte, 64)
 			x := point2.X.Bytes()
 			y := point2.Y.Bytes()
diff --git a/secp256r1.go b/secp256r1.go
index 660160c..426181a 100644
--- a/secp256r1.go
+++ b/secp256r1.go
@@ -97,6 +97,9 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 	curve := secp256r1
 
 	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
+	if r_inv == nil || sig[64] > 1 {
+		return nil, errors.New("invalid data")
+	}
 	G.Curve = curve
 	G.X = curve.Gx
 	G.Y = curve.Gy
@@ -123,6 +126,9 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 		}
 
 		buf1 := PointDecompress(buf2, ECC_CURVE_SECP256R1)
+		if buf1 == nil {
+			return nil, errors.New("failed to decompress")
+		}
 
 		R.Curve = curve
 		R.X = new(big.Int).SetBytes(buf1[1:33])
@@ -134,12 +140,14 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 		point2 := new(ecdsa.PublicKey)
 		point2.Curve = curve
 		point2.X, point2.Y = curve.ScalarBaseMult(hash)
-		point2.Y = point2.Y.Sub(curve.P, point2.Y)
+		if point2.Y.Sign() != 0 { // the point at infinity is (0, 0)
+			point2.Y = point2.Y.Sub(curve.P, point2.Y)
+		}
 
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
 
-		if verifyesdsa(point2, hash, new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])) {
+		if curve.IsOnCurve(point2.X, point2.Y) && verifyesdsa(point2, hash, new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])) {
 			pubkey := make([]byte, 64)
 			x := point2.X.Bytes()
 			y := point2.Y.Bytes()
-- 
2.43.0


From 69420502215b564ac306cdedb7644a942309153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 13/54] fix: SM2 public key recovery uses the SM2 equation, so
 it recovers the signer's key

---
 sm2_std.go | 98 ++++++++++++++++++------------------------------------
 1 file changed, 32 insertions(+), 66 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 5607de5..e3c7f84 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1655,75 +1655,41 @@ func sm2_std_decompress(in []byte) ([]byte, error){
 
 func sm2_std_recover_public(sig, msg []byte) ([]byte, error) {
 
-	if sig == nil || msg == nil || len(sig) != 65 || len(msg) != 32 {
+	if sig == nil || msg == nil || len(sig) != 65 || len(msg) != 32 || sig[64] > 1 {
 		return nil, errors.New("invalid data")
 	}
 
-	buf2 := make([]byte, 33)
-	hash := make([]byte, 32)
-	s := new(big.Int)
-	R := new(ecdsa.PublicKey)
-	G := new(ecdsa.PublicKey)
-
-	copy(hash, msg)
-	copy(buf2[1:], sig[:32])
-
 	curve := sm2_std
+	r := new(big.Int).SetBytes(sig[:32])
+	s := new(big.Int).SetBytes(sig[32:64])
+
+	// the signer computed r = e + R.x, and sig[64] is the parity of R.y
+	x := new(big.Int).Sub(r, new(big.Int).SetBytes(msg))
+	x.Mod(x, curve.N)
+	buf := make([]byte, 33)
+	buf[0] = 0x02 + sig[64]
+	copy(buf[33-len(x.Bytes()):], x.Bytes())
+	R := PointDecompress(buf, ECC_CURVE_SM2_STANDARD)
+	if R == nil {
+		return nil, errors.New("failed to decompress")
+	}
+
+	// R = s*G + (r+s)*P, so P = (R - s*G) / (r+s)
+	tInv := new(big.Int).ModInverse(new(big.Int).Add(r, s), curve.N)
+	if tInv == nil {
+		return nil, errors.New("invalid data")
+	}
+	px, py := curve.ScalarBaseMult(new(big.Int).Sub(curve.N, new(big.Int).Mod(s, curve.N)).Bytes())
+	px, py = curve.Add(px, py, new(big.Int).SetBytes(R[1:33]), new(big.Int).SetBytes(R[33:]))
+	px, py = curve.ScalarMult(px, py, tInv.Bytes())
 
-	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
-	G.Curve = curve
-	G.X = curve.Gx
-	G.Y = curve.Gy
-
-	for k := 0; k < 2; k ++ {
-		if k == 0 {
-			buf2[0] = 0x02
-		}
-
-		if k == 1 {
-			buf2[0] = 0x03
-		}
-
-		if k == 0 {
-			if sig[64] == 1 {
-				s = new(big.Int).Sub(curve.N, new(big.Int).SetBytes(sig[32:64]))
-			}
-		}
-
-		if k == 1 {
-			if sig[64] == 0 {
-				s = new(big.Int).Sub(curve.N, new(big.Int).SetBytes(sig[32:64]))
-			}
-		}
-
-		buf1 := PointDecompress(buf2, ECC_CURVE_SM2_STANDARD)
-
-		R.Curve = curve
-		R.X = new(big.Int).SetBytes(buf1[1:33])
-		R.Y = new(big.Int).SetBytes(buf1[33:])
-
-		point1 := new(ecdsa.PublicKey)
-		point1.Curve = curve
-		point1.X, point1.Y = curve.ScalarMult(R.X, R.Y, s.Bytes())
-
-		point2 := new(ecdsa.PublicKey)
-		point2.Curve = curve
-		point2.X, point2.Y = curve.ScalarBaseMult(hash)
-
-		point2.Y = point2.Y.Sub(curve.P, point2.Y)
-
-		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
-		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
-
-		if verifyesdsa(point2, hash, new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])) {
-			pubkey := make([]byte, 64)
-			x := point2.X.Bytes()
-			y := point2.Y.Bytes()
-			copy(pubkey[32-len(x):32], x)
-			copy(pubkey[64-len(y):], y)
-
-			return pubkey, nil
-		}
+	pubk := &ecdsa.PublicKey{Curve: curve, X: px, Y: py}
+	if !curve.IsOnCurve(px, py) || !sm2_std_verify(pubk, msg, nil, r, s) {
+		return nil, errors.New("failed to recover the public key")
 	}
-	return nil, errors.New("failed to decompress")
-}
\ No newline at end of file
+
+	pubkey := make([]byte, 64)
+	copy(pubkey[32-len(px.Bytes()):32], px.Bytes())
+	copy(pubkey[64-len(py.Bytes()):], py.Bytes())
+	return pubkey, nil
+}
-- 
2.43.0


From 5301fabf20ebb82a36833fdd19d4302e1c5f092d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 14/54] fix: SM2 decryption that fails returns FAILURE and no
 plaintext

---
 eccset.go  | 6 ++++++
 sm2_std.go | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/eccset.go b/eccset.go
index ab0f992..68f9721 100644
--- a/eccset.go
+++ b/eccset.go
@@ -218,6 +218,9 @@ func Encryption(pubkey []byte, plain []byte, typeChoose uint32) (cipher []byte,
 		return nil, ECC_WRONG_TYPE
 		break
 	}
+	if err != nil {
+		return nil, FAILURE
+	}
 
 	ret = SUCCESS
 	return
@@ -245,6 +248,9 @@ func Decryption(prikey []byte, cipher []byte, typeChoose uint32) (plain []byte,
 		return nil, ECC_WRONG_TYPE
 		break
 	}
+	if err != nil {
+		return nil, FAILURE
+	}
 
 	ret = SUCCESS
 	return
diff --git a/sm2_std.go b/sm2_std.go
index e3c7f84..9b4d968 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1257,7 +1257,7 @@ func sm2_std_decrypt(priv *ecdsa.PrivateKey, data []byte) ([]byte, error) {
 	tm = append(tm, y2Buf...)
 	h := sm3.Sm3Sum(tm)
 	if bytes.Compare(h, data[64:96]) != 0 {
-		return c, errors.New("Decrypt: failed to decrypt")
+		return nil, errors.New("Decrypt: failed to decrypt")
 	}
 	return c, nil
 }
-- 
2.43.0


From 92eca88bee579f0162f553dad8ce9b0b018e09d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 15/54] fix: SM2 decryption refuses malformed ciphertexts,
 off-curve points and the zero key

---
 ecdsa.go   | 2 +-
 sm2_std.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecdsa.go b/ecdsa.go
index 7683982..8df5a72 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -305,7 +305,7 @@ func decrypt(prikey, cipher []byte, name string) ([]byte, error) {
 	priv.D = privateKeyBig
 	sm2Curve = sm2_std
 
-	if privateKeyBig.Cmp(sm2Curve.Params().N) >= 0 {
+	if privateKeyBig.Sign() == 0 || privateKeyBig.Cmp(sm2Curve.Params().N) >= 0 {
 		return nil, ErrPrivateKeyIllegal
 	}
 
diff --git a/sm2_std.go b/sm2_std.go
index 9b4d968..8456d36 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1229,6 +1229,9 @@ func sm2_std_encrypt(pub *ecdsa.PublicKey, data []byte) ([]byte, error) {
 }
 
 func sm2_std_decrypt(priv *ecdsa.PrivateKey, data []byte) ([]byte, error) {
+	if len(data) < 98 || data[0] != 0x04 || !isPoint(data[1:65], "sm2_std") {
+		return nil, errors.New("Decrypt: invalid ciphertext")
+	}
 	data = data[1:]
 	length := len(data) - 96
 	curve := priv.Curve
-- 
2.43.0


From afd7d1db5d131de9ce613ba11949c2dc0585cab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 16/54] fix: SM2 key agreement derives keys of 8192 bytes and
 more at their full length

---
 sm2_std.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 8456d36..02fc4f8 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1265,7 +1265,7 @@ func sm2_std_decrypt(priv *ecdsa.PrivateKey, data []byte) ([]byte, error) {
 	return c, nil
 }
 
-func ka_kdf(point *ecdsa.PublicKey, Zinitiator, Zresponder []byte, keyLengthbit uint16) (key []byte) {
+func ka_kdf(point *ecdsa.PublicKey, Zinitiator, Zresponder []byte, keyLengthbit uint32) (key []byte) {
 
 	x := make([]byte, 32)
 	y := make([]byte, 32)
@@ -1280,9 +1280,9 @@ func ka_kdf(point *ecdsa.PublicKey, Zinitiator, Zresponder []byte, keyLengthbit
 	var hlen1 uint32
 
 	if keyLengthbit % 256 == 0 {
-		hlen1 = uint32(keyLengthbit / 256)
+		hlen1 = keyLengthbit / 256
 	} else {
-		hlen1 = uint32(keyLengthbit / 256) + 1
+		hlen1 = keyLengthbit / 256 + 1
 	}
 
 	for i := uint32(1); i <= hlen1; i ++ {
@@ -1446,7 +1446,7 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 		return nil, nil, err
 	}
 
-	key = ka_kdf(point1, Zinitiator, Zresponder, keylen * 8)
+	key = ka_kdf(point1, Zinitiator, Zresponder, uint32(keylen) * 8)
 
 	s_check := ka_check(0x02, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
 
@@ -1577,7 +1577,7 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 		return
 	}
 
-	key = ka_kdf(point1, Zinitiator, Zresponder, keylen * 8)
+	key = ka_kdf(point1, Zinitiator, Zresponder, uint32(keylen) * 8)
 
 	Sinner = ka_check(0x03, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
 	Souter = ka_check(0x02, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
-- 
2.43.0


From 02c69a86e548770fc7a08d80089e4cfceabd0c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 17/54] fix: SM2 key agreement refuses off-curve keys and a
 shared point at infinity instead of crashing

---
 sm2_std.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 02fc4f8..82ed625 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1371,7 +1371,7 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 	x.SetBytes(tmpPubkeyResponder[:32])
 	y.SetBytes(tmpPubkeyResponder[32:])
 
-	if !sm2_std.IsOnCurve(&x, &y) {
+	if !isPoint(tmpPubkeyResponder, "sm2_std") {
 		err = errors.New("invalid responder's tmp public key")
 		return
 	}
@@ -1398,6 +1398,11 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 	tmp1 = tmp1.Add(new(big.Int).SetBytes(prikeyInitiator), tmp2)
 	tmp1 = tmp1.Mod(tmp1, sm2_std.N)
 
+	if !isPoint(pubkeyInitiator, "sm2_std") || !isPoint(pubkeyResponder, "sm2_std") || !isPoint(tmpPubkeyInitiator, "sm2_std") {
+		err = errors.New("invalid public key")
+		return
+	}
+
 	tmp2Bytes := make([]byte, 16)
 	copy(tmp2Bytes, tmpPubkeyResponder[16:32])
 	tmp2Bytes[0] |= 0x80
@@ -1412,6 +1417,10 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 	point2.Y = new(big.Int).SetBytes(pubkeyResponder[32:])
 
 	point1.X, point1.Y = sm2_std.Add(point1.X, point1.Y, point2.X, point2.Y)
+	if point1.X.Sign() == 0 && point1.Y.Sign() == 0 || tmp1.Sign() == 0 {
+		err = errors.New("shared point at infinity")
+		return
+	}
 	point1.X, point1.Y = sm2_std.ScalarMult(point1.X, point1.Y, tmp1.Bytes())
 
 	if pubkeyInitiator == nil || len(pubkeyInitiator) != 64 {
@@ -1484,7 +1493,7 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 	x.SetBytes(tmpPubkeyInitiator[:32])
 	y.SetBytes(tmpPubkeyInitiator[32:])
 
-	if !sm2_std.IsOnCurve(&x, &y) {
+	if !isPoint(tmpPubkeyInitiator, "sm2_std") {
 		err = errors.New("invalid initiator's tmp public key")
 		return
 	}
@@ -1529,6 +1538,11 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 	tmp1 = tmp1.Add(new(big.Int).SetBytes(prikeyResponder), tmp2)
 	tmp1 = tmp1.Mod(tmp1, sm2_std.N)
 
+	if !isPoint(pubkeyInitiator, "sm2_std") || !isPoint(pubkeyResponder, "sm2_std") {
+		err = errors.New("invalid public key")
+		return
+	}
+
 	tmp2Bytes := make([]byte, 16)
 	copy(tmp2Bytes, tmpPubkeyInitiator[16:32])
 	tmp2Bytes[0] |= 0x80
@@ -1543,6 +1557,10 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 	point2.Y = new(big.Int).SetBytes(pubkeyInitiator[32:])
 
 	point1.X, point1.Y = sm2_std.Add(point1.X, point1.Y, point2.X, point2.Y)
+	if point1.X.Sign() == 0 && point1.Y.Sign() == 0 || tmp1.Sign() == 0 {
+		err = errors.New("shared point at infinity")
+		return
+	}
 	point1.X, point1.Y = sm2_std.ScalarMult(point1.X, point1.Y, tmp1.Bytes())
 
 	if pubkeyInitiator == nil || len(pubkeyInitiator) != 64 {
-- 
2.43.0


From e2a99631e8757051cca5b4c8bfb92a5ef211c807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 18/54] fix: SM2 key agreement returns no key when a step fails

---
 eccset.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/eccset.go b/eccset.go
index 68f9721..66f3541 100644
--- a/eccset.go
+++ b/eccset.go
@@ -281,8 +281,7 @@ func KeyAgreement_initiator_step2(IDinitiator []byte,
 	var err error
 	key, Sout, err = sm2_std_ka_initiator_step2(IDinitiator, IDresponder, prikeyInitiator, pubkeyInitiator, pubkeyResponder, tmpPrikeyInitiator, tmpPubkeyInitiator, tmpPubkeyResponder, Sin, keylen)
 	if err != nil {
-		ret = FAILURE
-		return
+		return nil, nil, FAILURE
 	}
 
 	ret = SUCCESS
@@ -308,8 +307,7 @@ func KeyAgreement_responder_step1(IDinitiator []byte,
 	key, tmpPubkeyResponder, Sinner, Souter, err = sm2_std_ka_responder_step1(IDinitiator, IDresponder, prikeyResponder, pubkeyResponder, pubkeyInitiator, tmpPubkeyInitiator, nil, keylen)
 
 	if err != nil {
-		ret = FAILURE
-		return
+		return nil, nil, nil, nil, FAILURE
 	}
 
 	ret = SUCCESS
@@ -336,8 +334,7 @@ func KeyAgreement_responder_ElGamal_step1(IDinitiator []byte,
 	key, tmpPubkeyResponder, Sinner, Souter, err = sm2_std_ka_responder_step1(IDinitiator, IDresponder, prikeyResponder, pubkeyResponder, pubkeyInitiator, tmpPubkeyInitiator, random, keylen)
 
 	if err != nil {
-		ret = FAILURE
-		return
+		return nil, nil, nil, nil, FAILURE
 	}
 
 	ret = SUCCESS
-- 
2.43.0


From 0cec00294ef34d8f0123dd63dd67cdc9023428c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 19/54] fix: SM2 key agreement never uses the ephemeral key
 zero

---
 sm2_std.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sm2_std.go b/sm2_std.go
index 82ed625..5b26154 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1344,6 +1344,11 @@ func sm2_std_ka_initiaor_step1() (tmpPrikeyInitiator, tmpPubkeyInitiator []byte)
 	rand.Read(random)
 	randbig := new(big.Int).SetBytes(random)
 	randbig.Mod(randbig, sm2_std.N)
+	for randbig.Sign() == 0 {
+		rand.Read(random)
+		randbig.SetBytes(random)
+		randbig.Mod(randbig, sm2_std.N)
+	}
 	random = randbig.Bytes()
 	copy(tmpPrikeyInitiator[32-len(random):], random)
 	tmpPubkeyInitiator, _ = genPublicKey(tmpPrikeyInitiator, "sm2_std")
-- 
2.43.0


From 5df1910e7c0f0561d1a320ccd0d564cc8280c1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 20/54] fix: ED25519 raw-scalar signing uses the same scalar as
 its key generation

---
 eddsa/ed25519.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index 1a81267..d1ff79b 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -57,9 +57,6 @@ func ED25519_sign(prikey, message []byte) ([]byte, error) {
 	var messageDigest, hramDigest [64]byte
 
 	copy(expandedSecretKey[:], prikey[:])
-	expandedSecretKey[0] &= 248
-	expandedSecretKey[31] &= 63
-	expandedSecretKey[31] |= 64
 	rand.Read(digest1[:])
 	h := sha512.New()
 	h.Write(digest1[:])
-- 
2.43.0


From ead300f4584bce18bbd221c3d947600779ad369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 21/54] fix: ED25519 and X25519 key generation is right for
 scalars of 2^255 and more

---
 eddsa/ed25519.go | 11 +++++++++--
 eddsa/x25519.go  |  3 +--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index d1ff79b..ba5b40e 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -26,14 +26,21 @@ var (
 	ErrPrivateKeyIllegal = errors.New("Invalid private key data!")
 )
 
+// reduceScalar returns the 32-byte scalar modulo the order of the base point.
+func reduceScalar(scalar []byte) (out [32]byte) {
+	var wide [64]byte
+	copy(wide[:32], scalar)
+	edwards25519.ScReduce(&out, &wide)
+	return
+}
+
 func ED25519_genPub(prikey []byte) ([]byte, error) {
 	if prikey == nil || len(prikey) != 32 {
 		return nil, ErrPrivateKeyIllegal
 	}
 
 	var A edwards25519.ExtendedGroupElement
-	var hBytes [32]byte
-	copy(hBytes[:], prikey[:])
+	hBytes := reduceScalar(prikey)
 	edwards25519.GeScalarMultBase(&A, &hBytes)
 
 	var publicKeyBytes [32]byte
diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index 8129c64..704e3df 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -27,8 +27,7 @@ func X25519_genPub(prikey []byte) ([]byte, error) {
 	}
 
 	var A edwards25519.ExtendedGroupElement
-	var hBytes [32]byte
-	copy(hBytes[:], prikey[:])
+	hBytes := reduceScalar(prikey)
 	edwards25519.GeScalarMultBase(&A, &hBytes)
 
 	var publicKeyBytes [32]byte
-- 
2.43.0


From fb1a048118061f2b196c03a720fd7b1862aaa8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 22/54] fix: X25519 and CURVE25519_SHA256 verification accepts
 the empty message, as signing does

---
 eddsa/curve25519_sha256.go | 2 +-
 eddsa/x25519.go            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/eddsa/curve25519_sha256.go b/eddsa/curve25519_sha256.go
index 96d94ef..db06c60 100644
--- a/eddsa/curve25519_sha256.go
+++ b/eddsa/curve25519_sha256.go
@@ -67,7 +67,7 @@ func CURVE25519_sha256_sign(prikey, message []byte) ([]byte, error) {
 }
 
 func CURVE25519_sha256_verify(pubkey, message,signature []byte) bool {
-	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 || message == nil || len(message) == 0 {
+	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 {
 		return false
 	}
 
diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index 704e3df..6e2a6c9 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -604,7 +604,7 @@ func verify_modify(message, sm, pubkey []byte) bool {
 
 func X25519_verify(pubkey, message,signature []byte) bool {
 
-	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 || message == nil || len(message) == 0 {
+	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 {
 		return false
 	}
 
-- 
2.43.0


From 11f463564bdf1e2ec39a987edd065d3f01b3ac3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 23/54] fix: CURVE25519_SHA256 does not modify the caller's
 private key

---
 eddsa/curve25519_sha256.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eddsa/curve25519_sha256.go b/eddsa/curve25519_sha256.go
index db06c60..aff7de6 100644
--- a/eddsa/curve25519_sha256.go
+++ b/eddsa/curve25519_sha256.go
@@ -24,7 +24,7 @@ func CURVE25519_sha256_genPub(prikey []byte) ([]byte, error) {
 
 	pubkey := make([]byte, 32)
 
-	Keygen(pubkey, nil, prikey)
+	Keygen(pubkey, nil, append([]byte{}, prikey...)) // Keygen clamps in place
 
 	return pubkey, nil
 }
@@ -37,7 +37,7 @@ func CURVE25519_sha256_sign(prikey, message []byte) ([]byte, error) {
 	pubkey := make([]byte, 32)
 	s := make([]byte, 32)
 
-	Keygen(pubkey, s, prikey)
+	Keygen(pubkey, s, append([]byte{}, prikey...)) // Keygen clamps in place
 
 	digest := sha256.New()
 	digest.Write(message)
-- 
2.43.0


From 686f1c16157551603c4a076bdc6f2c5f6df51e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 24/54] fix: Ed25519 verification rejects s not below the group
 order (RFC 8032 5.1.7)

---
 eddsa/curve25519.go | 3 +++
 eddsa/ed25519.go    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/eddsa/curve25519.go b/eddsa/curve25519.go
index 1735074..3c72c01 100644
--- a/eddsa/curve25519.go
+++ b/eddsa/curve25519.go
@@ -105,6 +105,9 @@ func CURVE25519_verify(pubkey, message, sig []byte) bool {
 	if len(sig) != 64 || sig[63]&224 != 0 {
 		return false
 	}
+	if !IsCanonicalSignature(sig[32:]) { // s must be below the group order
+		return false
+	}
 
 	copy(publicKey, pubkey)
 	var A edwards25519.ExtendedGroupElement
diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index ba5b40e..4d65d3b 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -106,6 +106,9 @@ func ED25519_verify(pubkey, message, sig []byte) bool {
 	if len(sig) != 64 || sig[63]&224 != 0 {
 		return false
 	}
+	if !IsCanonicalSignature(sig[32:]) { // s must be below the group order
+		return false
+	}
 
 	copy(publicKey, pubkey)
 	var A edwards25519.ExtendedGroupElement
-- 
2.43.0


From bdb9c98f1305f317ce65a9d1fb15a10a6e299400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 25/54] fix: Ed25519 point decoding rejects non-canonical
 encodings (RFC 8032 5.1.3)

---
 eddsa/edwards25519/edwards25519.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/eddsa/edwards25519/edwards25519.go b/eddsa/edwards25519/edwards25519.go
index 873a01f..9620c3e 100755
--- a/eddsa/edwards25519/edwards25519.go
+++ b/eddsa/edwards25519/edwards25519.go
@@ -616,6 +616,14 @@ func (p *ExtendedGroupElement) FromBytes(s *[32]byte) bool {
 
 	var tmpX, tmp2 [32]byte
 
+	// only the reduced encoding of y is valid
+	y := p.Y // FeToBytes changes the limbs of its argument
+	FeToBytes(&tmpX, &y)
+	tmpX[31] |= s[31] & 0x80
+	if tmpX != *s {
+		return false
+	}
+
 	FeSquare(&vxx, &p.X)
 	FeMul(&vxx, &vxx, &v)
 	FeSub(&check, &vxx, &u)
@@ -632,6 +640,10 @@ func (p *ExtendedGroupElement) FromBytes(s *[32]byte) bool {
 		}
 	}
 
+	if x := p.X; FeIsNonZero(&x) == 0 && s[31]>>7 == 1 { // x = 0 has no negative form
+		return false
+	}
+
 	if FeIsNegative(&p.X) != (s[31] >> 7) {
 		FeNeg(&p.X, &p.X)
 	}
-- 
2.43.0


From 6303b8a8cae49caceb49ca89464723b09ca91920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 26/54] fix: X25519 verification rejects non-canonical public
 keys

---
 eddsa/x25519.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index 6e2a6c9..fd7b544 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -548,6 +548,10 @@ func geFromBytesNegateVartime(h *edwards25519.ExtendedGroupElement, s *[32]byte)
 		edwards25519.FeMul(&h.X, &h.X, &edwards25519.SqrtM1)
 	}
 
+	if edwards25519.FeIsNonZero(&h.X) == 0 && s[31]>>7 == 1 { // x = 0 has no negative form
+		return false
+	}
+
 	if edwards25519.FeIsNegative(&h.X) == (s[31] >> 7) {
 		edwards25519.FeNeg(&h.X, &h.X)
 	}
@@ -614,6 +618,9 @@ func X25519_verify(pubkey, message,signature []byte) bool {
 	var u edwards25519.FieldElement
 	var x25519_pubkey, ed_pubkey [32]byte
 	copy(x25519_pubkey[:], pubkey)
+	if feIsReduced(x25519_pubkey) { // u must be below the field prime
+		return false
+	}
 	edwards25519.FeFromBytes(&u, &x25519_pubkey)
 	y := montToEdy(u)
 	edwards25519.FeToBytes(&ed_pubkey, &y)
-- 
2.43.0


From 1768d386744981e909c6aebb8ef805382f93ded2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 27/54] fix: Ed25519 point operations refuse undecodable points
 and take any 32-byte scalar

---
 eccset.go        | 6 ++++++
 eddsa/ed25519.go | 9 ++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/eccset.go b/eccset.go
index 66f3541..c79e2f2 100644
--- a/eccset.go
+++ b/eccset.go
@@ -409,6 +409,9 @@ func Point_mulBaseG_add(pointin, scalar []byte, typeChoose uint32) (point []byte
 		var point1, s, point2 [32]byte
 		copy(point1[:], pointin)
 		copy(s[:], scalar)
+		if len(pointin) != 32 || !eddsa.ValidPoint(&point1) {
+			return nil, false
+		}
 		infinity := eddsa.ScalarMultBaseAdd(&point1, &s, &point2)
 		if infinity {
 			return nil, true
@@ -480,6 +483,9 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 		var P1, P2, P [32]byte
 		copy(P1[:], point1)
 		copy(P2[:], point2)
+		if !eddsa.ValidPoint(&P1) || !eddsa.ValidPoint(&P2) {
+			return nil, FAILURE
+		}
 		infinity := eddsa.Point_add(&P1, &P2, &P)
 		if infinity {
 			return nil, FAILURE
diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index 4d65d3b..d1cbc65 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -163,6 +163,12 @@ func feIsOne(f edwards25519.FieldElement) bool {
 	return true
 }
 
+// ValidPoint reports whether point is the encoding of a curve point.
+func ValidPoint(point *[32]byte) bool {
+	var P edwards25519.ExtendedGroupElement
+	return P.FromBytes(point)
+}
+
 func ScalarMultBaseAdd(point1, scalar, point2 *[32]byte) bool {
 	var (
 		P1    edwards25519.ExtendedGroupElement   //p3
@@ -174,7 +180,8 @@ func ScalarMultBaseAdd(point1, scalar, point2 *[32]byte) bool {
 	)
 	P1.FromBytes(point1)
 	one[0] = 1
-	edwards25519.GeDoubleScalarMultVartime(&R, &one, &P1, scalar)
+	s := reduceScalar(scalar[:])
+	edwards25519.GeDoubleScalarMultVartime(&R, &one, &P1, &s)
 
 	edwards25519.FeInvert(&recip, &R.Z)
 	edwards25519.FeMul(&x, &R.X, &recip)
-- 
2.43.0


From 7d7d3ca57a94a8119b93f4676d78bdbee5e16d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 28/54] fix: BLS12-381 refuses the private key 0 and signing
 refuses keys not below the order

---
 bls12_381/bls12-381.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bls12_381/bls12-381.go b/bls12_381/bls12-381.go
index df04c7e..cba8747 100644
--- a/bls12_381/bls12-381.go
+++ b/bls12_381/bls12-381.go
@@ -12,7 +12,7 @@ const BLS12_381_ORDER = "73eda753299d7d483339d80809a1d80553bda402fffe5bfefffffff
 func isScalarLegal(scalar []byte) bool {
 	curveOrder, _ := new(big.Int).SetString(BLS12_381_ORDER, 16)
 	scalarBig := new(big.Int).SetBytes(scalar)
-	if scalarBig.Cmp(curveOrder) >= 0 {
+	if scalarBig.Sign() == 0 || scalarBig.Cmp(curveOrder) >= 0 {
 		return false
 	}
 	return true
@@ -43,6 +43,9 @@ func Sign(privateKey, message []byte) ([]byte, error) {
 	if len(privateKey) != 32 {
 		return nil, errors.New("invalid private key lenth!")
 	}
+	if !isScalarLegal(privateKey) {
+		return nil, errors.New("invalid private key data")
+	}
 	prikey := NewScalar(privateKey)
 
 	return scheme.Sign(prikey, message)
-- 
2.43.0


From f8819f657d1d8f03dd19ff387edcaa268902f181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 29/54] fix: BLS12-381 verification rejects undecodable public
 keys and the identity

---
 bls12_381/bls12-381.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bls12_381/bls12-381.go b/bls12_381/bls12-381.go
index cba8747..be1a259 100644
--- a/bls12_381/bls12-381.go
+++ b/bls12_381/bls12-381.go
@@ -59,7 +59,9 @@ func Verify(publicKey, message, signature []byte) bool {
 		return false
 	}
 	pk := NullOwcryptG1()
-	pk.UnmarshalBinary(publicKey)
+	if err := pk.UnmarshalBinary(publicKey); err != nil || pk.Equal(pk.Null()) {
+		return false
+	}
 	err := scheme.Verify(pk, message, signature)
 
 	if err != nil {
-- 
2.43.0


From eccc39b36cf218e0c05c9097d027cad37efbad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 30/54] fix: BLS12-381 point decoding (and aggregation) refuses
 trailing bytes

---
 bls12_381/g1.go | 4 ++++
 bls12_381/g2.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/bls12_381/g1.go b/bls12_381/g1.go
index 7824caa..b06346e 100644
--- a/bls12_381/g1.go
+++ b/bls12_381/g1.go
@@ -3,6 +3,7 @@ package bls12_381
 import (
 	"crypto/cipher"
 	"encoding/hex"
+	"errors"
 	"github.com/blocktree/go-owcrypt/bls12_381/bls"
 
 	"io"
@@ -97,6 +98,9 @@ func (k *OwcryptG1) MarshalBinary() ([]byte, error) {
 }
 
 func (k *OwcryptG1) UnmarshalBinary(buff []byte) error {
+	if len(buff) != k.MarshalSize() {
+		return errors.New("bls12-381.G1: invalid length")
+	}
 	var err error
 	k.p, err = bls.NewG1().FromCompressed(buff)
 	return err
diff --git a/bls12_381/g2.go b/bls12_381/g2.go
index c445d50..00b42ce 100644
--- a/bls12_381/g2.go
+++ b/bls12_381/g2.go
@@ -4,6 +4,7 @@ import (
 	"crypto/cipher"
 	"crypto/sha256"
 	"encoding/hex"
+	"errors"
 	"github.com/blocktree/go-owcrypt/bls12_381/bls"
 	"io"
 	"strings"
@@ -103,6 +104,9 @@ func (k *OwcryptG2) MarshalBinary() ([]byte, error) {
 }
 
 func (k *OwcryptG2) UnmarshalBinary(buff []byte) error {
+	if len(buff) != k.MarshalSize() {
+		return errors.New("bls12-381.G2: invalid length")
+	}
 	var err error
 	k.p, err = bls.NewG2(nil).FromCompressed(buff)
 	return err
-- 
2.43.0


From 5d3156e6262a0e63c9a81a0b5ddf68e9da16499f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 31/54] fix: BLS12-381 scalar*G+point refuses bad points, takes
 any scalar and reports infinity

---
 bls12_381/bls12-381.go | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/bls12_381/bls12-381.go b/bls12_381/bls12-381.go
index be1a259..74df1b1 100644
--- a/bls12_381/bls12-381.go
+++ b/bls12_381/bls12-381.go
@@ -89,30 +89,26 @@ func newSig(signature []byte) (*g1pubs.Signature, error) {
 	return g1pubs.DeserializeSignature(sig)
 }
 
-func scalarMulG(scalar []byte) (*g1pubs.PublicKey, error) {
+func ScalarMultBaseAdd(pointin, scalar []byte) ([]byte, bool) {
 	if len(scalar) != 32 {
-		return nil, errors.New("invalid private key length")
-	}
-	if !isScalarLegal(scalar) {
-		return nil, errors.New("invalid private key data")
+		return nil, false
 	}
-	publicKey := g1pubs.PrivToPub(newSK(scalar))
 
-	return publicKey, nil
-}
-
-func ScalarMultBaseAdd(pointin, scalar []byte) ([]byte, bool) {
-
-	pin, _ := newPK(pointin)
-
-	pScalar, _ := scalarMulG(scalar)
-
-	pout := g1pubs.NewPublicKeyFromG1(pin.GetPoint().Add(pScalar.GetPoint()).ToAffine())
+	pin := NullOwcryptG1()
+	if err := pin.UnmarshalBinary(pointin); err != nil || pin.Equal(pin.Null()) {
+		return nil, false
+	}
 
-	poutBytes := pout.Serialize()
+	// NewScalar reduces modulo the group order
+	pout := NullOwcryptG1().Mul(NewScalar(scalar), nil)
+	pout.Add(pout, pin)
 
-	if new(big.Int).SetBytes(poutBytes[:]).Cmp(big.NewInt(0)) == 0 {
+	if pout.Equal(pin.Null()) {
 		return nil, true
 	}
-	return poutBytes[:], false
+	poutBytes, err := pout.MarshalBinary()
+	if err != nil {
+		return nil, false
+	}
+	return poutBytes, false
 }
\ No newline at end of file
-- 
2.43.0


From 310892b5ecd9a8ad6a7a7880064f0726189f4e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 32/54] fix: BLS AUG verification does not write behind the
 caller's public key

---
 eccset.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/eccset.go b/eccset.go
index c79e2f2..db5c3c1 100644
--- a/eccset.go
+++ b/eccset.go
@@ -99,8 +99,7 @@ func Signature(prikey []byte, ID []byte, message []byte, typeChoose uint32) (sig
 		break
 	case ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG:
 		pubkey, _ := GenPubkey(prikey, typeChoose)
-		message = append(pubkey, message...)
-		message = append([]byte(AUG_SCHEME_DST), message...)
+		message = append(append([]byte(AUG_SCHEME_DST), pubkey...), message...)
 		signature, err = bls12_381.Sign(prikey, message)
 		break
 	case ECC_CURVE_PASTA:
@@ -178,8 +177,7 @@ func Verify(pubkey []byte, ID []byte, message []byte, signature []byte, typeChoo
 		pass = bls12_381.Verify(pubkey, message, signature)
 		break
 	case ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG:
-		message = append(pubkey, message...)
-		message = append([]byte(AUG_SCHEME_DST), message...)
+		message = append(append([]byte(AUG_SCHEME_DST), pubkey...), message...)
 		pass = bls12_381.Verify(pubkey, message, signature)
 		break
 	case ECC_CURVE_PASTA:
-- 
2.43.0


From 6169cb745d11c5c12af867208b3c9d3f9edee969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:16 +0000
Subject: [PATCH 33/54] fix: the target group's Null is its identity and Sub
 the inverse of Add

---
 bls12_381/gt.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/bls12_381/gt.go b/bls12_381/gt.go
index 5d3b11a..1dd8ffa 100644
--- a/bls12_381/gt.go
+++ b/bls12_381/gt.go
@@ -26,12 +26,8 @@ func (k *OwcryptGT) Equal(kk kyber.Point) bool {
 	return k.f.Equal(kk.(*OwcryptGT).f)
 }
 
-const gtLength = 576
-
 func (k *OwcryptGT) Null() kyber.Point {
-	var zero [gtLength]byte
-	k.f, _ = bls.NewGT().FromBytes(zero[:])
-	return k
+	return newEmptyGT()
 }
 
 func (k *OwcryptGT) Base() kyber.Point {
@@ -63,7 +59,10 @@ func (k *OwcryptGT) Add(a, b kyber.Point) kyber.Point {
 func (k *OwcryptGT) Sub(a, b kyber.Point) kyber.Point {
 	aa := a.(*OwcryptGT)
 	bb := b.(*OwcryptGT)
-	bls.NewGT().Sub(k.f, aa.f, bb.f)
+	gt := bls.NewGT()
+	inv := gt.New()
+	gt.Inverse(inv, bb.f)
+	gt.Mul(k.f, aa.f, inv)
 	return k
 }
 
-- 
2.43.0


From c5cced45d53f9d03646738fa241f81462e28f421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 34/54] fix: BLS signing and verification refuse messages
 without a known domain tag

---
 bls12_381/bls12-381.go | 5 ++++-
 bls12_381/g2.go        | 6 ++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/bls12_381/bls12-381.go b/bls12_381/bls12-381.go
index 74df1b1..a1cee3f 100644
--- a/bls12_381/bls12-381.go
+++ b/bls12_381/bls12-381.go
@@ -47,6 +47,9 @@ func Sign(privateKey, message []byte) ([]byte, error) {
 		return nil, errors.New("invalid private key data")
 	}
 	prikey := NewScalar(privateKey)
+	if !hasDST(message) {
+		return nil, errors.New("message without a known domain separation tag")
+	}
 
 	return scheme.Sign(prikey, message)
 }
@@ -55,7 +58,7 @@ func Verify(publicKey, message, signature []byte) bool {
 	pairing := NewBLS12381Suite()
 	scheme := sig.NewSchemeOnG2(pairing)
 
-	if len(publicKey) != 48 || len(message) == 0 || len(signature) != 96 {
+	if len(publicKey) != 48 || !hasDST(message) || len(signature) != 96 {
 		return false
 	}
 	pk := NullOwcryptG1()
diff --git a/bls12_381/g2.go b/bls12_381/g2.go
index 00b42ce..5de3cd4 100644
--- a/bls12_381/g2.go
+++ b/bls12_381/g2.go
@@ -143,6 +143,12 @@ const (
 	aug_scheme_dst = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_AUG_"
 )
 
+// hasDST tells whether m starts with a tag that Hash knows. Hash leaves its
+// receiver, usually the point at infinity, unchanged for any other message.
+func hasDST(m []byte) bool {
+	return strings.HasPrefix(string(m), basic_scheme_dst) || strings.HasPrefix(string(m), aug_scheme_dst)
+}
+
 func (k *OwcryptG2) Hash(m []byte) kyber.Point {
 	if strings.Index(string(m), basic_scheme_dst) == 0 {
 		pg2, _ := bls.NewG2(nil).HashToCurve(m[len(basic_scheme_dst):], m[:len(basic_scheme_dst)])
-- 
2.43.0


From 2566acf34b11c81bdda41a361da24428bfdf6dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 35/54] fix: Pasta points are parsed in every encoding and
 refused when not on the curve

---
 pasta/crypto.go | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index d955aca..0eea5eb 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -1,6 +1,7 @@
 package pasta
 
 import (
+	"bytes"
 	"encoding/binary"
 	"encoding/hex"
 	"errors"
@@ -80,23 +81,22 @@ func (a *Affine) FromBigEndianBytes(p []byte) error {
 		if err != nil {
 			return err
 		}
-		Decompress(a, compressed)
+		if !Decompress(a, compressed) {
+			return errors.New("invalid input data p, x is not on the curve")
+		}
 	} else {
-		var x_mont, y_mont [4]uint64
-		var tmp [32]byte
 		if len(p) == 65 {
 			if p[0] != 0x04 {
 				return errors.New("invalid input data p, first byte is not 0x04")
 			}
 			p = p[1:]
-		} else {
-			copy(tmp[:], reverseBytes(p[:32]))
-			FiatPastaFpToMontgomery(&x_mont, BytesArrayToU64Array(tmp))
-			copy(tmp[:], reverseBytes(p[32:]))
-			FiatPastaFpToMontgomery(&y_mont, BytesArrayToU64Array(tmp))
 		}
-		a.X.Set(x_mont)
-		a.Y.Set(y_mont)
+		var out Affine
+		if !fieldFromBigEndianBytes(&out.X, p[:32]) || !fieldFromBigEndianBytes(&out.Y, p[32:]) ||
+			AffineIsZero(out) == 1 || !AffineIsOnCurve(out) {
+			return errors.New("invalid input data p, not a point on the curve")
+		}
+		*a = out
 	}
 
 	return nil
@@ -133,17 +133,26 @@ func (c *Compressed) FromBigEndianBytes(p []byte) error {
 	} else if p[0] == 0x03 {
 		c.IsOdd = true
 	} else {
-		errors.New("invalid input data p, first byte is not 0x02 or 0x03")
+		return errors.New("invalid input data p, first byte is not 0x02 or 0x03")
 	}
 
-	var tmp [32]byte
-	copy(tmp[:], reverseBytes(p[1:]))
-	var x_mont [4]uint64
-	FiatPastaFpToMontgomery(&x_mont, BytesArrayToU64Array(tmp))
-	c.X.Set(x_mont)
+	if !fieldFromBigEndianBytes(&c.X, p[1:]) {
+		return errors.New("invalid input data p, x is not reduced")
+	}
 	return nil
 }
 
+// fieldFromBigEndianBytes sets f to the field element with the given canonical
+// encoding, and returns false if the encoding is not below the field prime.
+func fieldFromBigEndianBytes(f *Field, in []byte) bool {
+	mont := BigEndianBytesToFpMontgomeryArray(in)
+	if !bytes.Equal(FpMontgomeryArrayToBigEndianBytes(mont), in) {
+		return false
+	}
+	f.Set(mont)
+	return true
+}
+
 type Signature struct {
 	R Field
 	S Scalar
-- 
2.43.0


From b56394469fb4dba134fbb5ca11210010fb6349c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 36/54] fix: Pasta refuses the private key 0

---
 pasta/pasta.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pasta/pasta.go b/pasta/pasta.go
index 1c77dcb..d31f0a9 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -1,6 +1,7 @@
 package pasta
 
 import (
+	"bytes"
 	"crypto/rand"
 	"errors"
 )
@@ -9,7 +10,7 @@ import (
 // publicKey  : big endian X || Y
 // all data is in big int field
 func GenPublicKey(privateKey []byte) ([]byte, error) {
-	if privateKey == nil || len(privateKey) != 32 || privateKey[0]&0xC0 != 0 {
+	if privateKey == nil || len(privateKey) != 32 || privateKey[0]&0xC0 != 0 || bytes.Equal(privateKey, make([]byte, 32)) {
 		return nil, errors.New("invalid private key")
 	}
 
-- 
2.43.0


From b2e15afb34e790640e35f33281d1dd8906596eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 37/54] fix: Pasta point operations fail on bad points, report
 infinity and take any scalar

---
 eccset.go      | 14 ++++++++++----
 pasta/pasta.go | 21 +++++++++++++++++----
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/eccset.go b/eccset.go
index db5c3c1..418e7fc 100644
--- a/eccset.go
+++ b/eccset.go
@@ -420,8 +420,8 @@ func Point_mulBaseG_add(pointin, scalar []byte, typeChoose uint32) (point []byte
 		return bls12_381.ScalarMultBaseAdd(pointin, scalar)
 		break
 	case ECC_CURVE_PASTA:
-		pointout, _ := pasta.PointMulBaseGAdd(pointin, scalar)
-		return pointout, false
+		pointout, err := pasta.PointMulBaseGAdd(pointin, scalar)
+		return pointout, err == pasta.ErrInfinity
 	default:
 		return nil, false
 	}
@@ -491,7 +491,10 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 		return P[:], SUCCESS
 		break
 	case ECC_CURVE_PASTA:
-		pout, _ := pasta.PointAdd(point1, point2)
+		pout, err := pasta.PointAdd(point1, point2)
+		if err != nil {
+			return nil, FAILURE
+		}
 		return pout, SUCCESS
 		break
 	default:
@@ -548,7 +551,10 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 	//	return P[:], SUCCESS
 	//	break
 	case ECC_CURVE_PASTA:
-		pout, _ := pasta.PointMul(pointin, scalar)
+		pout, err := pasta.PointMul(pointin, scalar)
+		if err != nil {
+			return nil, FAILURE
+		}
 		return pout, SUCCESS
 		break
 	default:
diff --git a/pasta/pasta.go b/pasta/pasta.go
index d31f0a9..06f5cdd 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -6,6 +6,9 @@ import (
 	"errors"
 )
 
+// ErrInfinity reports that the result of a point operation is the point at infinity
+var ErrInfinity = errors.New("point at infinity")
+
 // privateKey : big endian
 // publicKey  : big endian X || Y
 // all data is in big int field
@@ -127,12 +130,22 @@ func PointMulBaseGAdd(pointin, scalar []byte) ([]byte, error) {
 	if pointin == nil || scalar == nil || len(scalar) != 32 {
 		return nil, errors.New("invalid input data")
 	}
-	pointTmp, err := GenPublicKey(scalar)
+	var r, p, q Affine
+	err := p.FromBigEndianBytes(pointin)
 	if err != nil {
 		return nil, err
 	}
+	AffineScalarMul(&q, BigEndianBytesToFqMontgomeryArray(scalar), AffineOne)
+	AffineAdd(&r, p, q)
+	return affineResult(r)
+}
 
-	return PointAdd(pointTmp, pointin)
+// affineResult encodes the result of a point operation
+func affineResult(r Affine) ([]byte, error) {
+	if AffineIsZero(r) == 1 {
+		return nil, ErrInfinity
+	}
+	return r.ToBigEndianBytes(), nil
 }
 
 func PointAdd(point1, point2 []byte) ([]byte, error) {
@@ -150,7 +163,7 @@ func PointAdd(point1, point2 []byte) ([]byte, error) {
 		return nil, err
 	}
 	AffineAdd(&r, p, q)
-	return r.ToBigEndianBytes(), nil
+	return affineResult(r)
 }
 
 func PointMul(pointin, scalar []byte) ([]byte, error) {
@@ -166,7 +179,7 @@ func PointMul(pointin, scalar []byte) ([]byte, error) {
 	}
 	AffineScalarMul(&r, BigEndianBytesToFqMontgomeryArray(scalar), p)
 
-	return r.ToBigEndianBytes(), nil
+	return affineResult(r)
 }
 
 func PointDecompress(point []byte) ([]byte, error) {
-- 
2.43.0


From 1d0dd9b8434801745f1f7bba9449ac8f2277718d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 38/54] fix: Pasta GroupNegate negates the point

---
 pasta/crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index 0eea5eb..a63cc4d 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -511,7 +511,7 @@ func GroupScalarMul(r *Group, k Scalar, p Group) {
 
 func GroupNegate(q *Group, p Group) {
 	FieldCopy(&q.X, p.X)
-	FieldCopy(&q.Y, p.Y)
+	FieldNegate(&q.Y, p.Y)
 	FieldCopy(&q.Z, p.Z)
 }
 
-- 
2.43.0


From d4fa536f3fba5e95067fb23267c5cf54358b6783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 39/54] fix: Pasta GroupAdd doubles equal points in different
 coordinates

---
 pasta/crypto.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index a63cc4d..ff2ea5f 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -432,11 +432,6 @@ func GroupAdd(r *Group, p, q Group) {
 		return
 	}
 
-	if FieldEq(p.X, q.X) == 1 && FieldEq(p.Y, q.Y) == 1 && FieldEq(p.Z, q.Z) == 1 {
-		GroupDbl(r, p)
-		return
-	}
-
 	var z1z1, z2z2 Field
 	FieldSq(&z1z1, p.Z)
 	FieldSq(&z2z2, q.Z)
@@ -449,6 +444,12 @@ func GroupAdd(r *Group, p, q Group) {
 	FieldMul(&r.Y, p.Z, z1z1)
 	FieldMul(&s2, q.Y, r.Y)
 
+	// the same point, maybe with different coordinates
+	if FieldEq(u1, u2) == 1 && FieldEq(s1, s2) == 1 {
+		GroupDbl(r, p)
+		return
+	}
+
 	var h, i, j, w, v Field
 	FieldSub(&h, u2, u1)
 	FieldAdd(&r.Z, h, h)
-- 
2.43.0


From d127298a9d79ef34e790bc390c0a91e7433ff6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 40/54] fix: Pasta Compress and Decompress agree on the form of
 x

---
 pasta/crypto.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index ff2ea5f..5f1aa99 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -121,7 +121,7 @@ func (c Compressed) ToBigEndianBytes() []byte {
 		out = append(out, 0x02)
 	}
 
-	return append(out, c.X.ToBigEndianBytes()...)
+	return append(out, FpMontgomeryArrayToBigEndianBytes(c.X)...)
 }
 
 func (c *Compressed) FromBigEndianBytes(p []byte) error {
@@ -555,10 +555,9 @@ func GeneratePubkey(pub_key *Affine, priv_key Scalar) {
 }
 
 func Compress(compressed *Compressed, pt Affine) {
-	var out, y_bigint [4]uint64
-	FiatPastaFpFromMontgomery(&out, pt.X.ToU64Array())
+	var y_bigint [4]uint64
 	FiatPastaFpFromMontgomery(&y_bigint, pt.Y.ToU64Array())
-	compressed.X.Set(out)
+	compressed.X.Set(pt.X)
 	if y_bigint[0]&0x01 == 1 {
 		compressed.IsOdd = true
 	} else {
-- 
2.43.0


From 679259d7392680db0aefc2a522cd47b176622243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 41/54] fix: Pasta signing nonces cover the scalar range

---
 pasta/pasta.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasta/pasta.go b/pasta/pasta.go
index 06f5cdd..c39c853 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -32,7 +32,7 @@ func Sign(privateKey, msg []byte) ([]byte, error) {
 	var k Scalar
 	for {
 		rand.Read(kBytes[:])
-		kBytes[0] &= 0x03
+		kBytes[0] &= 0x3F
 
 		k.Set(BigEndianBytesToFqMontgomeryArray(kBytes[:]))
 		var k_nonzero uint64
-- 
2.43.0


From 1d32e6b0db14fff091e5642dbd2d779155568e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 42/54] fix: Pasta verification rejects r and s that are not
 reduced

---
 pasta/pasta.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pasta/pasta.go b/pasta/pasta.go
index c39c853..26f4537 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -81,9 +81,15 @@ func Verify(publicKey, msg, sig []byte) bool {
 		return false
 	}
 
-	var r_mont, s_mont Scalar
-	r_mont.Set(BigEndianBytesToFpMontgomeryArray(sig[:32]))
+	var r_mont Field
+	var s_mont Scalar
+	if !fieldFromBigEndianBytes(&r_mont, sig[:32]) {
+		return false
+	}
 	s_mont.Set(BigEndianBytesToFqMontgomeryArray(sig[32:]))
+	if !bytes.Equal(FqMontgomeryArrayToBigEndianBytes(s_mont), sig[32:]) {
+		return false
+	}
 
 	mm, err := NewMinaMessage(msg)
 	if err != nil {
@@ -114,6 +120,9 @@ func Verify(publicKey, msg, sig []byte) bool {
 
 	var r Group
 	GroupAdd(&r, sg, neg_epub)
+	if IsZero(r) == 1 {
+		return false
+	}
 
 	var raff Affine
 	AffineFromGroup(&raff, r)
-- 
2.43.0


From 488f8f5cdbaa2e5a0f8dc0ac82a596451c881440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 43/54] fix: Pasta byte reversal keeps every byte of inputs of
 any length

---
 pasta/utils.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pasta/utils.go b/pasta/utils.go
index 0bdc01b..743acc2 100644
--- a/pasta/utils.go
+++ b/pasta/utils.go
@@ -59,9 +59,9 @@ func BytesArrayTo32LengthBytesArray(in []byte) [32]byte {
 }
 
 func reverseBytes(s []byte) []byte {
-	out := make([]byte, 32)
-	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
-		out[i], out[j] = s[j], s[i]
+	out := make([]byte, len(s))
+	for i := range s {
+		out[i] = s[len(s)-1-i]
 	}
 	return out
 }
-- 
2.43.0


From 05a2f0a85ffb158f8777564f009c0d401bf93ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 44/54] fix: SM2 key agreement responder draws again when its
 ephemeral key is zero

---
 sm2_std.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sm2_std.go b/sm2_std.go
index 5b26154..11c4ef9 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1510,6 +1510,11 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 		rand.Read(tmp)
 		randbig := new(big.Int).SetBytes(tmp)
 		randbig.Mod(randbig, sm2_std.N)
+		for randbig.Sign() == 0 {
+			rand.Read(tmp)
+			randbig.SetBytes(tmp)
+			randbig.Mod(randbig, sm2_std.N)
+		}
 		tmp = randbig.Bytes()
 		copy(tmpPriResponder[32-len(tmp):], tmp)
 		} else {
-- 
2.43.0


From 5c53d5c1ee244dae828405b6d513a5d69596454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 45/54] fix: BLS12-381 pairing engine no longer negates the
 caller's point in AddPairInv

---
 bls12_381/bls/pairing.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bls12_381/bls/pairing.go b/bls12_381/bls/pairing.go
index 97adc55..6cfa041 100644
--- a/bls12_381/bls/pairing.go
+++ b/bls12_381/bls/pairing.go
@@ -62,8 +62,9 @@ func (e *Engine) AddPair(g1 *PointG1, g2 *PointG2) *Engine {
 
 // AddPairInv adds a G1, G2 point pair to pairing engine. G1 point is negated.
 func (e *Engine) AddPairInv(g1 *PointG1, g2 *PointG2) *Engine {
-	e.G1.Neg(g1, g1)
-	e.AddPair(g1, g2)
+	ng1 := e.G1.New()
+	e.G1.Neg(ng1, g1)
+	e.AddPair(ng1, g2)
 	return e
 }
 
-- 
2.43.0


From d372346300c94f6fd3d63ad445c7558918bf7dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 46/54] fix: BLS12-381 hash to curve refuses domain tags longer
 than 255 bytes

---
 bls12_381/bls/hash_to_field.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bls12_381/bls/hash_to_field.go b/bls12_381/bls/hash_to_field.go
index 60f8234..bd46fdb 100644
--- a/bls12_381/bls/hash_to_field.go
+++ b/bls12_381/bls/hash_to_field.go
@@ -22,10 +22,10 @@ func hashToFpXMDSHA256(msg []byte, domain []byte, count int) ([]*fe, error) {
 
 func expandMsgSHA256XMD(msg []byte, domain []byte, outLen int) ([]byte, error) {
 	h := sha256.New()
-	domainLen := uint8(len(domain))
-	if domainLen > 255 {
+	if len(domain) > 255 {
 		return nil, fmt.Errorf("invalid domain length")
 	}
+	domainLen := uint8(len(domain))
 	// DST_prime = DST || I2OSP(len(DST), 1)
 	// b_0 = H(Z_pad || msg || l_i_b_str || I2OSP(0, 1) || DST_prime)
 	_, _ = h.Write(make([]byte, h.BlockSize()))
-- 
2.43.0


From 788e3c2725a79fa8c08550ab5a3f9c813e3201ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:39 +0000
Subject: [PATCH 47/54] fix: BLS12-381 chooses its field arithmetic once,
 without a data race

---
 bls12_381/bls/arithmetic_decl.go | 9 ++++++---
 bls12_381/bls/bls12_381.go       | 1 -
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/bls12_381/bls/arithmetic_decl.go b/bls12_381/bls/arithmetic_decl.go
index fab5743..341f50e 100644
--- a/bls12_381/bls/arithmetic_decl.go
+++ b/bls12_381/bls/arithmetic_decl.go
@@ -3,20 +3,23 @@
 package bls
 
 import (
+	"sync"
+
 	"golang.org/x/sys/cpu"
 )
 
 var mul func(c, a, b *fe) = mulADX
 var mulAssign func(a, b *fe) = mulAssignADX
 
+var cfgArchOnce sync.Once
+
 func cfgArch() {
-	if !x86ArchitectureSet {
+	cfgArchOnce.Do(func() {
 		if !(cpu.X86.HasADX && cpu.X86.HasBMI2) || forceNonADXArch {
 			mul = mulNoADX
 			mulAssign = mulAssignNoADX
 		}
-		x86ArchitectureSet = true
-	}
+	})
 }
 
 func square(c, a *fe) {
diff --git a/bls12_381/bls/bls12_381.go b/bls12_381/bls/bls12_381.go
index 195c5c0..4d8354e 100644
--- a/bls12_381/bls/bls12_381.go
+++ b/bls12_381/bls/bls12_381.go
@@ -267,4 +267,3 @@ var cofactorEFFG2 = new(big.Int).SetBytes(
 */
 
 var forceNonADXArch bool
-var x86ArchitectureSet bool = false
-- 
2.43.0


From b580c7489033415d8b9983edbd95c645ad4d695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 48/54] fix: SM2 field reduction does not underflow when a limb
 is one, which gave wrong points

---
 sm2_std.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 11c4ef9..105f17b 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -823,7 +823,7 @@ func sm2_stdReduceDegree(a *sm2_stdFieldElement, b *sm2_stdLargeFieldElement) {
 				tmp[i+7] -= set7
 				tmp[i+7] -= (x << 24) & bottom28Bits
 				tmp[i+8] += (x << 28) & bottom29Bits
-				if tmp[i+8] < 0x20000000 {
+				if tmp[i+8] < 0x20000000 && x > 1 { // x = 1 needs no borrow, and (x >> 1) has none to give
 					tmp[i+8] += 0x20000000 & xMask
 					tmp[i+8] -= 1
 					tmp[i+8] -= x >> 4
@@ -837,7 +837,7 @@ func sm2_stdReduceDegree(a *sm2_stdFieldElement, b *sm2_stdLargeFieldElement) {
 				tmp[i+7] -= set7
 				tmp[i+7] -= (x << 24) & bottom28Bits
 				tmp[i+8] += (x << 28) & bottom29Bits
-				if tmp[i+8] < 0x20000000 {
+				if tmp[i+8] < 0x20000000 && x > 1 { // x = 1 needs no borrow, and (x >> 1) has none to give
 					tmp[i+8] += 0x20000000 & xMask
 					tmp[i+8] -= x >> 4
 					tmp[i+9] += ((x >> 1) - 1) & xMask
-- 
2.43.0


From 00797ca396a45b3170c82ed6ef043976510a3c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 49/54] fix: BLS12-381 generic field squaring keeps the carries
 of the doubled products

---
 bls12_381/bls/arithmetic_fallback.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/bls12_381/bls/arithmetic_fallback.go b/bls12_381/bls/arithmetic_fallback.go
index fc14959..9460fca 100644
--- a/bls12_381/bls/arithmetic_fallback.go
+++ b/bls12_381/bls/arithmetic_fallback.go
@@ -635,10 +635,13 @@ func madd2s(a, b, c, d, e uint64) (superhi, hi, lo uint64) {
 	hi, superhi = bits.Add64(hi, hi, carry)
 
 	sum, carry = bits.Add64(c, e, 0)
-	hi, _ = bits.Add64(hi, 0, carry)
+	hi, carry = bits.Add64(hi, 0, carry)
+	superhi += carry
 	lo, carry = bits.Add64(lo, sum, 0)
-	hi, _ = bits.Add64(hi, 0, carry)
-	hi, _ = bits.Add64(hi, 0, d)
+	hi, carry = bits.Add64(hi, 0, carry)
+	superhi += carry
+	hi, carry = bits.Add64(hi, 0, d)
+	superhi += carry
 	return
 }
 
@@ -649,8 +652,10 @@ func madd1s(a, b, d, e uint64) (superhi, hi, lo uint64) {
 	lo, carry = bits.Add64(lo, lo, 0)
 	hi, superhi = bits.Add64(hi, hi, carry)
 	lo, carry = bits.Add64(lo, e, 0)
-	hi, _ = bits.Add64(hi, 0, carry)
-	hi, _ = bits.Add64(hi, 0, d)
+	hi, carry = bits.Add64(hi, 0, carry)
+	superhi += carry
+	hi, carry = bits.Add64(hi, 0, d)
+	superhi += carry
 	return
 }
 
@@ -662,9 +667,11 @@ func madd2sb(a, b, c, e uint64) (superhi, hi, lo uint64) {
 	hi, superhi = bits.Add64(hi, hi, carry)
 
 	sum, carry = bits.Add64(c, e, 0)
-	hi, _ = bits.Add64(hi, 0, carry)
+	hi, carry = bits.Add64(hi, 0, carry)
+	superhi += carry
 	lo, carry = bits.Add64(lo, sum, 0)
-	hi, _ = bits.Add64(hi, 0, carry)
+	hi, carry = bits.Add64(hi, 0, carry)
+	superhi += carry
 	return
 }
 
@@ -675,7 +682,8 @@ func madd1sb(a, b, e uint64) (superhi, hi, lo uint64) {
 	lo, carry = bits.Add64(lo, lo, 0)
 	hi, superhi = bits.Add64(hi, hi, carry)
 	lo, carry = bits.Add64(lo, e, 0)
-	hi, _ = bits.Add64(hi, 0, carry)
+	hi, carry = bits.Add64(hi, 0, carry)
+	superhi += carry
 	return
 }
 
-- 
2.43.0


From 628ee451756c51b352e896dc63505ac1d8f79ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 50/54] fix: BLS12-381 multiplication without ADX takes the
 carry of the cleared limb from the addition

---
 bls12_381/bls/arithmetic_x86.s | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bls12_381/bls/arithmetic_x86.s b/bls12_381/bls/arithmetic_x86.s
index fc8660b..5ac4477 100644
--- a/bls12_381/bls/arithmetic_x86.s
+++ b/bls12_381/bls/arithmetic_x86.s
@@ -952,6 +952,7 @@ TEXT ·mulNoADX(SB), NOSPLIT, $16-24
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, SI
 	ADCQ DX, R13
 	// | SI is idle now
 
@@ -1017,6 +1018,7 @@ TEXT ·mulNoADX(SB), NOSPLIT, $16-24
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, DI
 	ADCQ DX, R13
 	// | DI is idle now
 
@@ -1084,6 +1086,7 @@ TEXT ·mulNoADX(SB), NOSPLIT, $16-24
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, CX
 	ADCQ DX, R13
 	// CX is idle now
 
@@ -1148,6 +1151,7 @@ TEXT ·mulNoADX(SB), NOSPLIT, $16-24
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, R14
 	ADCQ DX, R13
 	// R14 is idle now
 
@@ -1212,6 +1216,7 @@ TEXT ·mulNoADX(SB), NOSPLIT, $16-24
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, R15
 	ADCQ DX, R13
 	// R15 is idle now
 
@@ -1284,6 +1289,7 @@ TEXT ·mulNoADX(SB), NOSPLIT, $16-24
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, R8
 	ADCQ DX, R13
 	// R8 is idle now
 
@@ -1807,6 +1813,7 @@ TEXT ·mulAssignNoADX(SB), NOSPLIT, $16-16
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, SI
 	ADCQ DX, R13
 	// | SI is idle now
 
@@ -1872,6 +1879,7 @@ TEXT ·mulAssignNoADX(SB), NOSPLIT, $16-16
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, DI
 	ADCQ DX, R13
 	// | DI is idle now
 
@@ -1939,6 +1947,7 @@ TEXT ·mulAssignNoADX(SB), NOSPLIT, $16-16
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, CX
 	ADCQ DX, R13
 	// CX is idle now
 
@@ -2003,6 +2012,7 @@ TEXT ·mulAssignNoADX(SB), NOSPLIT, $16-16
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, R14
 	ADCQ DX, R13
 	// R14 is idle now
 
@@ -2067,6 +2077,7 @@ TEXT ·mulAssignNoADX(SB), NOSPLIT, $16-16
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, R15
 	ADCQ DX, R13
 	// R15 is idle now
 
@@ -2139,6 +2150,7 @@ TEXT ·mulAssignNoADX(SB), NOSPLIT, $16-16
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, R8
 	ADCQ DX, R13
 	// R8 is idle now
 
-- 
2.43.0


From 3b8150f4e0c0b3f4d081ece577a1ab712063dffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 51/54] fix: BLS12-381 multiplication with ADX keeps the second
 carry of each reduction step

---
 bls12_381/bls/arithmetic_x86.s | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/bls12_381/bls/arithmetic_x86.s b/bls12_381/bls/arithmetic_x86.s
index 5ac4477..97305b5 100644
--- a/bls12_381/bls/arithmetic_x86.s
+++ b/bls12_381/bls/arithmetic_x86.s
@@ -2471,6 +2471,8 @@ TEXT ·mulADX(SB), NOSPLIT, $16-24
 	ADCXQ R9, R13
 	ADOXQ SI, R13
 	ADCXQ SI, SI
+	MOVQ $0, AX
+	ADOXQ AX, SI
 
 /*	 | i = 1										*/
 
@@ -2508,6 +2510,8 @@ TEXT ·mulADX(SB), NOSPLIT, $16-24
 	ADCXQ R9, R14
 	ADOXQ SI, R14
 	ADCXQ CX, CX
+	MOVQ $0, AX
+	ADOXQ AX, CX
 
 /*	 | i = 2										*/
 
@@ -2545,6 +2549,8 @@ TEXT ·mulADX(SB), NOSPLIT, $16-24
 	ADCXQ R9, R15
 	ADOXQ CX, R15
 	ADCXQ DI, DI
+	MOVQ $0, AX
+	ADOXQ AX, DI
 
 /*	 | i = 3										*/
 
@@ -2582,6 +2588,8 @@ TEXT ·mulADX(SB), NOSPLIT, $16-24
 	ADCXQ BX, R8
 	ADOXQ DI, R8
 	ADCXQ CX, CX
+	MOVQ $0, AX
+	ADOXQ AX, CX
 
 /*	 | i = 4										*/
 
@@ -2621,6 +2629,8 @@ TEXT ·mulADX(SB), NOSPLIT, $16-24
 	ADCXQ BX, R9
 	ADOXQ CX, R9
 	ADCXQ DI, DI
+	MOVQ $0, AX
+	ADOXQ AX, DI
 
 /*	 | i = 5										*/
 
@@ -2937,6 +2947,8 @@ TEXT ·mulAssignADX(SB), NOSPLIT, $16-16
 	ADCXQ R9, R13
 	ADOXQ SI, R13
 	ADCXQ SI, SI
+	MOVQ $0, AX
+	ADOXQ AX, SI
 
 /*	 | i = 1									*/
 
@@ -2974,6 +2986,8 @@ TEXT ·mulAssignADX(SB), NOSPLIT, $16-16
 	ADCXQ R9, R14
 	ADOXQ SI, R14
 	ADCXQ CX, CX
+	MOVQ $0, AX
+	ADOXQ AX, CX
 
 /*	 | i = 2									*/
 
@@ -3011,6 +3025,8 @@ TEXT ·mulAssignADX(SB), NOSPLIT, $16-16
 	ADCXQ R9, R15
 	ADOXQ CX, R15
 	ADCXQ DI, DI
+	MOVQ $0, AX
+	ADOXQ AX, DI
 
 /*	 | i = 3									*/
 
@@ -3048,6 +3064,8 @@ TEXT ·mulAssignADX(SB), NOSPLIT, $16-16
 	ADCXQ BX, R8
 	ADOXQ DI, R8
 	ADCXQ CX, CX
+	MOVQ $0, AX
+	ADOXQ AX, CX
 
 /*	 | i = 4									*/
 
@@ -3087,6 +3105,8 @@ TEXT ·mulAssignADX(SB), NOSPLIT, $16-16
 	ADCXQ BX, R9
 	ADOXQ CX, R9
 	ADCXQ DI, DI
+	MOVQ $0, AX
+	ADOXQ AX, DI
 
 /*	 | i = 5									*/
 
-- 
2.43.0


From 448098cef7c42da2791a458c998e3238abe74eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:47 +0000
Subject: [PATCH 52/54] fix: report ECC_PRIKEY_ILLEGAL for illegal 25519
 private keys

eddsa has an error value of its own for them, which GenPubkey and Signature did not recognise and mapped to FAILURE; the README documents ECC_PRIKEY_ILLEGAL.
---
 eccset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eccset.go b/eccset.go
index 418e7fc..c1c2d10 100644
--- a/eccset.go
+++ b/eccset.go
@@ -57,7 +57,7 @@ func GenPubkey(prikey []byte, typeChoose uint32) (pubkey []byte, ret uint16) {
 	}
 
 	if err != nil {
-		if err == ErrPrivateKeyIllegal {
+		if err == ErrPrivateKeyIllegal || err == eddsa.ErrPrivateKeyIllegal {
 			return nil, ECC_PRIKEY_ILLEGAL
 		}
 		if err == ErrUnknownCurve {
@@ -110,7 +110,7 @@ func Signature(prikey []byte, ID []byte, message []byte, typeChoose uint32) (sig
 	}
 
 	if err != nil {
-		if err == ErrPrivateKeyIllegal {
+		if err == ErrPrivateKeyIllegal || err == eddsa.ErrPrivateKeyIllegal {
 			return nil, 0, ECC_PRIKEY_ILLEGAL
 		}
 		if err == ErrUnknownCurve {
-- 
2.43.0


From 13156c268868fb887436263e07f6a15dbcb9283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:25 +0000
Subject: [PATCH 53/54] fix: CURVE25519_SHA256 signs and verifies with the key
 whose public key is the base point

---
 eddsa/curve25519_sha256.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/eddsa/curve25519_sha256.go b/eddsa/curve25519_sha256.go
index aff7de6..ce8035a 100644
--- a/eddsa/curve25519_sha256.go
+++ b/eddsa/curve25519_sha256.go
@@ -512,6 +512,15 @@ func xToY2(t *long10, y2 *long10, x *long10) {
 	mul(y2, t, x)
 }
 
+/* isBase tells whether x is the x coordinate of the base point  */
+func isBase(x []byte) bool {
+	r := x[0] ^ 9
+	for _, b := range x[1:32] {
+		r |= b
+	}
+	return r == 0
+}
+
 func core(Px, s, k, Gx []byte) {
 	var dx, t1, t2, t3, t4 long10
 	var x, z [2]*long10
@@ -557,6 +566,15 @@ func core(Px, s, k, Gx []byte) {
 	mul(&dx, x[0], &t1)
 	pack(&dx, Px)
 
+	/* P = G or P = -G, so abs(P) = G: the formula below cannot be used  */
+	if s != nil && isBase(Px) {
+		for i := range s {
+			s[i] = 0
+		}
+		s[0] = 1
+		return
+	}
+
 	/* calculate s such that s abs(P) = G  .. assumes G is std base point */
 	if s != nil {
 		xToY2(&t2, &t1, &dx)      /* t1 = Py^2  */
@@ -621,6 +639,21 @@ func Sign(v, h, x, s []byte) bool {
 
 func Verify(Y, v, h, P []byte) {
 	/* Y = v abs(P) + h G  */
+
+	/* abs(P) = G: P-G is at infinity, but Y is just (v + h) G  */
+	if isBase(P) {
+		v1 := make([]byte, 32)
+		h1 := make([]byte, 32)
+		tmp := make([]byte, 32)
+		copy(v1, v)
+		copy(h1, h)
+		divmod(tmp, v1, 32, order, 32)
+		divmod(tmp, h1, 32, order, 32)
+		mulaSmall(v1, v1, 0, h1, 32, 1)
+		core(Y, nil, v1, nil)
+		return
+	}
+
 	d := make([]byte, 32)
 	p := [2]*long10{
 		&long10{},
-- 
2.43.0


From 86dfdb55185b136c3701f9ca903447fe0bf757aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:25 +0000
Subject: [PATCH 54/54] fix: SM3 counts the bits of writes of 2^28 bytes and
 more on 32-bit machines

---
 sm3/sm3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index f6337df..fbe1965 100755
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -147,7 +147,7 @@ func (sm3 *SM3) Reset() {
 
 func (sm3 *SM3) Write(p []byte) (int, error) {
 	toWrite := len(p)
-	sm3.length += uint64(len(p) * 8)
+	sm3.length += uint64(len(p)) * 8
 
 	msg := append(sm3.unhandleMsg, p...)
 	nblocks := len(msg) / sm3.BlockSize()
-- 
2.43.0

