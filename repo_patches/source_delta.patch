From 864daa955b6502eb0754409b382e07d238046d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:15 +0000
Subject: [PATCH 1/6] fix: do not modify the receiver in the generic
 FieldElement.BytesInto

BytesInto, and with it Bytes, BigInt, IsNegativeI, IsNonZeroI and Abs, carried
the limbs of the element they only read.  Operations on shared operands (for
instance Point.Lizard) were thus racy with the generic field arithmetic.
---
 edwards25519/field_generic.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edwards25519/field_generic.go b/edwards25519/field_generic.go
index c8eb2a2..0c34a27 100644
--- a/edwards25519/field_generic.go
+++ b/edwards25519/field_generic.go
@@ -251,6 +251,10 @@ func (fe *FieldElement) ConditionalSet(a *FieldElement, b int32) {
 func (fe *FieldElement) BytesInto(s *[32]byte) *FieldElement {
 	var carry [10]int32
 
+	// Carry on a copy: fe itself is only read, as it might be shared.
+	ret, t := fe, *fe
+	fe = &t
+
 	q := (19*fe[9] + (1 << 24)) >> 25
 	q = (fe[0] + q) >> 26
 	q = (fe[1] + q) >> 25
@@ -327,7 +331,7 @@ func (fe *FieldElement) BytesInto(s *[32]byte) *FieldElement {
 	s[29] = byte(fe[9] >> 2)
 	s[30] = byte(fe[9] >> 10)
 	s[31] = byte(fe[9] >> 18)
-	return fe
+	return ret
 }
 
 // Sets fe to the little endian number encoded in buf modulo 2^255-19.
-- 
2.43.0


From 99b96f0d0721e7cfd598b74b215c3245b340b760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:21 +0000
Subject: [PATCH 2/6] fix: allow NielsPoint.Neg on its own operand

p.Neg(p) overwrote YMinusX before reading it.
---
 edwards25519/table.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edwards25519/table.go b/edwards25519/table.go
index 09e431a..5b88c61 100644
--- a/edwards25519/table.go
+++ b/edwards25519/table.go
@@ -33,8 +33,9 @@ func (p *NielsPoint) ConditionalSet(q *NielsPoint, b int32) *NielsPoint {
 
 // Set p to -q.  Returns p.
 func (p *NielsPoint) Neg(q *NielsPoint) *NielsPoint {
+	t := q.YMinusX // p and q might be the same point
 	p.YMinusX.Set(&q.YPlusX)
-	p.YPlusX.Set(&q.YMinusX)
+	p.YPlusX.Set(&t)
 	p.XY2D.Neg(&q.XY2D)
 	return p
 }
-- 
2.43.0


From b95e3e053799f3a65488aa88a3fffb7ff0bebccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:25 +0000
Subject: [PATCH 3/6] fix: return an error on overlong text in UnmarshalText

Point.UnmarshalText and Scalar.UnmarshalText decoded into a buffer of 32 bytes
and panicked on base64 text encoding more than that.
---
 ristretto.go | 5 ++++-
 scalar.go    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ristretto.go b/ristretto.go
index 7917d79..eabb140 100644
--- a/ristretto.go
+++ b/ristretto.go
@@ -373,13 +373,16 @@ func textToBuf(dst, src []byte) error {
 		}
 	}
 	enc := base64.RawURLEncoding
-	n, err = enc.Decode(dst, src)
+	// Decode panics if src does not fit, so dst itself might be too small.
+	buf := make([]byte, enc.DecodedLen(len(src)))
+	n, err = enc.Decode(buf, src)
 	if err != nil {
 		return err
 	}
 	if n != 32 {
 		return fmt.Errorf("ristretto.Point should be 32 bytes; not %d", n)
 	}
+	copy(dst, buf[:n])
 	return nil
 }
 
diff --git a/scalar.go b/scalar.go
index 10c0cfc..ee9dc11 100644
--- a/scalar.go
+++ b/scalar.go
@@ -1067,13 +1067,16 @@ func (s *Scalar) MarshalText() ([]byte, error) {
 func (s *Scalar) UnmarshalText(txt []byte) error {
 	enc := base64.RawURLEncoding
 	var buf [32]byte
-	n, err := enc.Decode(buf[:], txt)
+	// Decode panics if txt does not fit, so buf itself might be too small.
+	dec := make([]byte, enc.DecodedLen(len(txt)))
+	n, err := enc.Decode(dec, txt)
 	if err != nil {
 		return err
 	}
 	if n != 32 {
 		return fmt.Errorf("ristretto.Scalar should be 32 bytes; not %d", n)
 	}
+	copy(buf[:], dec[:n])
 	s.SetBytes(&buf)
 	return nil
 }
-- 
2.43.0


From 99faffb0783db28645ddf6cb17001b7e7acd65c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:56 +0000
Subject: [PATCH 4/6] fix: find all Elligator2 preimages of the identity

RistrettoElligator2Inverse promises all non-negative preimages, but missed
sqrt(i/d), which is mapped to the identity just as sqrt(i*d) and 0 are.
---
 edwards25519/elligator.go     | 5 +++++
 edwards25519/field_generic.go | 6 ++++++
 edwards25519/field_radix51.go | 6 ++++++
 3 files changed, 17 insertions(+)

diff --git a/edwards25519/elligator.go b/edwards25519/elligator.go
index b544cdf..f7f03b3 100644
--- a/edwards25519/elligator.go
+++ b/edwards25519/elligator.go
@@ -46,6 +46,11 @@ func (p *ExtendedPoint) RistrettoElligator2Inverse(fes *[8]FieldElement) uint8 {
 		setMask |= uint8(jc.elligator2Inverse(&fes[2*j+1]) << uint(2*j+1))
 	}
 
+	// Special case: X=0 or Y=0.  Then jcs[0] and jcs[1] are both (0,1), which
+	// has two preimages: sqrt(i*d), which is found above (twice), and sqrt(i/d).
+	XorYisZero := 1 - (p.X.IsNonZeroI() & p.Y.IsNonZeroI())
+	fes[2].ConditionalSet(&feSqrtIOverD, XorYisZero)
+
 	return setMask
 }
 
diff --git a/edwards25519/field_generic.go b/edwards25519/field_generic.go
index 0c34a27..f7ea00d 100644
--- a/edwards25519/field_generic.go
+++ b/edwards25519/field_generic.go
@@ -78,6 +78,12 @@ var (
 		-1348074, -30782278, -9245017, 26167231, 1494357,
 	}
 
+	// sqrt(i/d)
+	feSqrtIOverD = FieldElement{
+		23733568, 11663665, -8339769, -16610452, 17576933,
+		-11883678, 28147949, -5559112, 9046729, 201449,
+	}
+
 	// 1 / sqrt(1+d)
 	feInvSqrt1pD = FieldElement{
 		-29089260, 4791796, 20332186, -14900950, -20532188,
diff --git a/edwards25519/field_radix51.go b/edwards25519/field_radix51.go
index 0d3b40d..b5e9e35 100644
--- a/edwards25519/field_radix51.go
+++ b/edwards25519/field_radix51.go
@@ -79,6 +79,12 @@ var (
 		3883177008057528, 2352084440532925,
 	}
 
+	// sqrt(i/d)
+	feSqrtIOverD = FieldElement{
+		782735331960128, 1137091241098951, 1454299700540388,
+		1878734150664428, 13519022590664,
+	}
+
 	// 1/sqrt(d+1)
 	feInvSqrt1pD = FieldElement{
 		321571956990465, 1251814006996634, 2226845496292387,
-- 
2.43.0


From 484e005cd0d4bab776129b5aab6305a3e49f0613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:37 +0000
Subject: [PATCH 5/6] fix: allow fe25519_triple of cref in place

Every other operation of cref may overlap its result with an operand;
fe25519_triple(x, x) gave 4x.
---
 cref/cref.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cref/cref.c b/cref/cref.c
index 3e01673..11d1877 100644
--- a/cref/cref.c
+++ b/cref/cref.c
@@ -1018,8 +1018,9 @@ void fe25519_double(fe25519 *r, const fe25519 *x) {
 }
 
 void fe25519_triple(fe25519 *r, const fe25519 *x) {
-  fe25519_add(r, x, x);
-  fe25519_add(r, r, x);
+  fe25519 t;
+  fe25519_add(&t, x, x);
+  fe25519_add(r, &t, x);
 }
 
 /*
-- 
2.43.0


From cd853bded606f855b0d7294e39395f9e851f7e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:19 +0000
Subject: [PATCH 6/6] fix: fe25519_invsqrt no longer branches on its secret
 operand

group_ge_pack and group_ge_unpack are documented as constant time, but
they branched on which of the two candidate roots was the right one.
---
 cref/cref.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cref/cref.c b/cref/cref.c
index 11d1877..e90b952 100644
--- a/cref/cref.c
+++ b/cref/cref.c
@@ -1997,8 +1997,9 @@ void fe25519_invsqrt(fe25519 *r, const fe25519 *x)
   fe25519_square(&chk, &t);
   fe25519_mul(&chk, &chk, x);
   
-  if(!fe25519_isone(&chk)) //XXX: Make constant time
-    fe25519_mul(&t, &t, &fe25519_sqrtm1);
+  // if(chk != 1) t = t * sqrt(-1), in constant time
+  fe25519_mul(&den2, &t, &fe25519_sqrtm1);
+  fe25519_cmov(&t, &den2, 1 - fe25519_isone(&chk));
   
   *r = t;
 }
-- 
2.43.0

