From 7462d910230437ceb044365740bd66021fce12d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:15 +0000
Subject: [PATCH 01/35] fix: compare canonical values in Secp256k1Scalar.IsHigh

---
 curve/k256_scalar.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index d0942cc..8488c95 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -125,8 +125,8 @@ func (s Secp256k1Scalar) IsZero() int {
 }
 
 func (s Secp256k1Scalar) IsHigh() bool {
-	return s.scalar.Cmp(OrderHalf) > 0
-	return true
+	// native.Field.Cmp compares the Montgomery representations
+	return s.scalar.BigInt().Cmp(OrderHalf.BigInt()) > 0
 }
 func (s Secp256k1Scalar) MarshalCBOR() ([]byte, error) {
 	return cbor.Marshal(s.SerializeTagged())
-- 
2.43.0


From b2c311086111b6067fe977b8235023e3a384cf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:16 +0000
Subject: [PATCH 02/35] fix: reject scalar encodings of the wrong length or tag

---
 curve/k256_scalar.go |  7 +++++++
 curve/scalar.go      | 18 +++++++++++++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/curve/k256_scalar.go b/curve/k256_scalar.go
index 8488c95..93cdfb7 100644
--- a/curve/k256_scalar.go
+++ b/curve/k256_scalar.go
@@ -5,6 +5,7 @@ import (
 	"github.com/coinbase/kryptology/pkg/core/curves/native"
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fq"
 	"github.com/fxamacker/cbor/v2"
+	"github.com/pkg/errors"
 	"math/big"
 )
 
@@ -21,6 +22,9 @@ type Secp256k1Scalar struct {
 
 func (EccK256Scalar) Deserialize(bytes []byte) (*Secp256k1Scalar, error) {
 	var buf [32]byte
+	if len(bytes) != len(buf) {
+		return nil, errors.New("invalid scalar length")
+	}
 	copy(buf[:], common.ReverseBytes(bytes))
 	field, err := fq.K256FqNew().SetBytes(&buf)
 	if err != nil {
@@ -137,6 +141,9 @@ func (s *Secp256k1Scalar) UnmarshalCBOR(data []byte) error {
 	if err := cbor.Unmarshal(data, &bytes); err != nil {
 		return err
 	}
+	if len(bytes) == 0 || bytes[0] != K256.Tag() {
+		return errors.New("invalid scalar tag")
+	}
 	tmp, err := K256Scalar.Deserialize(bytes[1:])
 	if err != nil {
 		return err
diff --git a/curve/scalar.go b/curve/scalar.go
index de33348..66d6784 100644
--- a/curve/scalar.go
+++ b/curve/scalar.go
@@ -51,8 +51,9 @@ func (s scalar) DeserializeTagged(bytes []byte) (EccScalar, error) {
 	var err error
 	switch EccCurveType(bytes[0]) {
 	case K256:
-		scalar, err = K256Scalar.Deserialize(bytes[0:])
-
+		scalar, err = deserializeK256Scalar(bytes[1:])
+	default:
+		err = errors.New("invalid scalar tag")
 	}
 	return scalar, err
 }
@@ -65,11 +66,22 @@ func (s scalar) Deserialize(curve EccCurveType, bytes []byte) (EccScalar, error)
 	var err error
 	switch curve {
 	case K256:
-		scalar, err = K256Scalar.Deserialize(bytes)
+		scalar, err = deserializeK256Scalar(bytes)
+	default:
+		err = errors.New("unsupported curve")
 	}
 	return scalar, err
 }
 
+// deserializeK256Scalar returns a nil interface together with an error
+func deserializeK256Scalar(bytes []byte) (EccScalar, error) {
+	scalar, err := K256Scalar.Deserialize(bytes)
+	if err != nil {
+		return nil, err
+	}
+	return scalar, nil
+}
+
 func (s scalar) FromBytesWide(curve EccCurveType, bytes []byte) (EccScalar, error) {
 	var scalar EccScalar
 	switch curve {
-- 
2.43.0


From 1a8a83f4eceaf901f6d58849ddafb522e8cd6cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:17 +0000
Subject: [PATCH 03/35] fix: return an error for wide scalars longer than 64
 bytes

---
 curve/scalar.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/curve/scalar.go b/curve/scalar.go
index 66d6784..b1e25e8 100644
--- a/curve/scalar.go
+++ b/curve/scalar.go
@@ -83,11 +83,15 @@ func deserializeK256Scalar(bytes []byte) (EccScalar, error) {
 }
 
 func (s scalar) FromBytesWide(curve EccCurveType, bytes []byte) (EccScalar, error) {
+	if len(bytes) > 64 {
+		return nil, errors.New("invalid wide scalar length")
+	}
 	var scalar EccScalar
 	switch curve {
 	case K256:
 		scalar = K256Scalar.FromWideBytes(bytes)
-
+	default:
+		return nil, errors.New("unsupported curve")
 	}
 	return scalar, nil
 }
-- 
2.43.0


From 3bedc5f959ca5dfea02dee6458b04911bed275b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:18 +0000
Subject: [PATCH 04/35] fix: return the scalar bytes from ToScalarBytes

---
 curve/scalar.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curve/scalar.go b/curve/scalar.go
index b1e25e8..de6de9e 100644
--- a/curve/scalar.go
+++ b/curve/scalar.go
@@ -135,6 +135,7 @@ func (s scalar) ToScalarBytes(scalar EccScalar) EccScalarBytes {
 	case K256:
 		var k256 Secp256K1ScalarBytes
 		copy(k256[:], scalar.Serialize())
+		bytes = k256
 	}
 	return bytes
 }
-- 
2.43.0


From b4d9d4baa73fd1c813d2d6f12c7f274fa7ac7a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:19 +0000
Subject: [PATCH 05/35] fix: validate the tag and use the body in
 Point.DeserializeTagged

---
 curve/point.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/curve/point.go b/curve/point.go
index 7848ffa..fc3728e 100644
--- a/curve/point.go
+++ b/curve/point.go
@@ -101,7 +101,10 @@ func (p point) DeserializeTagged(curve EccCurveType, bytes []byte) (EccPoint, er
 	if len(bytes) == 0 {
 		return nil, errors.New("invalid point, bytes is empty")
 	}
-	return p.Deserialize(EccCurveType(bytes[0]), bytes[:])
+	if bytes[0] != curve.Tag() {
+		return nil, errors.New("invalid point tag")
+	}
+	return p.Deserialize(curve, bytes[1:])
 }
 func (p point) Deserialize(curve EccCurveType, bytes []byte) (EccPoint, error) {
 	if len(bytes) != curve.PointBytes() {
-- 
2.43.0


From 1e803d2038cece059131853a1c6c2308efe9140b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:20 +0000
Subject: [PATCH 06/35] fix: return all 65 bytes from SerializeUncompressed

---
 curve/k256_point.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index be85de5..986efa5 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -159,8 +159,13 @@ func (s Secp256k1Point) encodePoint(compress bool) []byte {
 		choice = 1
 	}
 	encode := Encode.ConditionalSelect(Encode.FromAffineCoordinates(x.AsBytes(), y.AsBytes(), compress), Encode.Identity(), choice)
-	result := make([]byte, 33, 33)
-	copy(result[0:encode.Len()], encode.AsBytes())
+	// the identity is padded with zero bytes to the fixed length
+	length := s.CurveType().PointBytes()
+	if !compress {
+		length += s.CurveType().FieldBytes()
+	}
+	result := make([]byte, length)
+	copy(result, encode.AsBytes())
 	return result
 }
 func (s Secp256k1Point) Serialize() []byte {
-- 
2.43.0


From 7f1d30b676260bbab0ff0031d4af104d597f6336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:21 +0000
Subject: [PATCH 07/35] fix: reject malformed point encodings

---
 curve/encode.go     |  6 +++++
 curve/k256_point.go | 53 ++++++++++++++++++++++++++++-----------------
 curve/point.go      |  8 +++++--
 3 files changed, 45 insertions(+), 22 deletions(-)

diff --git a/curve/encode.go b/curve/encode.go
index e675ab1..9e92367 100644
--- a/curve/encode.go
+++ b/curve/encode.go
@@ -120,7 +120,13 @@ func (e encode32) toSize() int {
 }
 
 func (e encode32) FromBytes(input []byte) (EncodePoint, error) {
+	if len(input) == 0 {
+		return nil, errors.New("point decode failed")
+	}
 	tag := Tag(input[0])
+	if !tag.IsIdentity() && !tag.IsCompressed() && !tag.IsCompact() && tag != Uncompressed {
+		return nil, errors.New("point decode failed")
+	}
 	expected := tag.MessageLen(e.toSize())
 	if len(input) != expected {
 		return nil, errors.New("point decode failed")
diff --git a/curve/k256_point.go b/curve/k256_point.go
index 986efa5..887973c 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -6,7 +6,7 @@ import (
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256"
 	"github.com/coinbase/kryptology/pkg/core/curves/native/k256/fp"
 	"github.com/fxamacker/cbor/v2"
-	"math/big"
+	"github.com/pkg/errors"
 	"math/bits"
 )
 
@@ -45,42 +45,55 @@ func (e EccK256Point) Deserialize(bytes []byte) (*Secp256k1Point, error) {
 }
 
 func (e EccK256Point) fromUncompressed(xb, yb []byte) (*Secp256k1Point, error) {
-	x := fp.K256FpNew().SetBigInt(new(big.Int).SetBytes(xb))
-
-	y := fp.K256FpNew().SetBigInt(new(big.Int).SetBytes(yb))
+	x, err := K256Field.FromBytes(xb)
+	if err != nil {
+		return nil, err
+	}
+	y, err := K256Field.FromBytes(yb)
+	if err != nil {
+		return nil, err
+	}
 
 	value := k256.K256PointNew()
-	value.X = x
-	value.Y = y
+	value.X = x.field
+	value.Y = y.field
 	value.Z.SetOne()
+	if !value.IsOnCurve() {
+		return nil, errors.New("point is not on the curve")
+	}
 	return &Secp256k1Point{point: value}, nil
 }
 func (e EccK256Point) decompress(bytes []byte, sign int) (*Secp256k1Point, error) {
-	x := fp.K256FpNew().SetBigInt(new(big.Int).SetBytes(bytes))
+	fe, err := K256Field.FromBytes(bytes)
+	if err != nil {
+		return nil, err
+	}
+	x := fe.field
 
 	value := k256.K256PointNew().Identity()
 	rhs := fp.K256FpNew()
 	p := k256.K256PointNew()
 	p.Arithmetic.RhsEq(rhs, x)
 	// test that rhs is quadratic residue
-	// if not, then this Point is at infinity
+	// if not, then there is no point with this x coordinate
 	y, wasQr := fp.K256FpNew().Sqrt(rhs)
-	if wasQr {
-		// fix the sign
-		sigY := int(y.Bytes()[0] & 1)
-		if sigY != sign {
-			y.Neg(y)
-		}
-		value.X = x
-		value.Y = y
-		value.Z.SetOne()
+	if !wasQr {
+		return nil, errors.New("point is not on the curve")
 	}
+	// fix the sign
+	sigY := int(y.Bytes()[0] & 1)
+	if sigY != sign {
+		y.Neg(y)
+	}
+	value.X = x
+	value.Y = y
+	value.Z.SetOne()
 	return &Secp256k1Point{point: value}, nil
 }
 func (e EccK256Point) fromEncodedPoint(encodePoint EncodePoint) (pt *Secp256k1Point, err error) {
 	cd := encodePoint.Coordinates()
 	switch c := cd.(type) {
-	case *IdentityCoordinates:
+	case IdentityCoordinates:
 		pt = e.Identity()
 	case *CompactCoordinates:
 		pt, err = e.decompress(c.x, 0)
@@ -213,10 +226,10 @@ func (s *Secp256k1Point) UnmarshalCBOR(data []byte) error {
 	if err := cbor.Unmarshal(data, &bytes); err != nil {
 		return err
 	}
-	tmp, err := K256Point.Deserialize(bytes[1:])
+	pt, err := Point.DeserializeTagged(K256, bytes)
 	if err != nil {
 		return err
 	}
-	s.point = tmp.point
+	s.point = pt.(*Secp256k1Point).point
 	return nil
 }
diff --git a/curve/point.go b/curve/point.go
index fc3728e..94e9522 100644
--- a/curve/point.go
+++ b/curve/point.go
@@ -129,7 +129,11 @@ func (p point) Deserialize(curve EccCurveType, bytes []byte) (EccPoint, error) {
 func (p point) DeserializeAnyFormat(curve EccCurveType, bytes []byte) (pt EccPoint, err error) {
 	switch curve {
 	case K256:
-		pt, err = K256Point.Deserialize(bytes)
+		k256, err := K256Point.Deserialize(bytes)
+		if err != nil {
+			return nil, err
+		}
+		return k256, nil
 	}
-	return pt, err
+	return nil, errors.New("unsupported curve")
 }
-- 
2.43.0


From bdda3cc41469949bc8e3776d4c05a28101d02d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:56 +0000
Subject: [PATCH 08/35] fix: allow the receiver of AddPoints and SubPoints to
 be the right operand

---
 curve/k256_point.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/curve/k256_point.go b/curve/k256_point.go
index 887973c..04a68d3 100644
--- a/curve/k256_point.go
+++ b/curve/k256_point.go
@@ -115,17 +115,25 @@ func (s Secp256k1Point) CurveType() EccCurveType {
 func (s *Secp256k1Point) AddPoints(lhs, rhs EccPoint) EccPoint {
 	l := lhs.(*Secp256k1Point)
 	r := rhs.(*Secp256k1Point)
-	s.point.Add(l.point, r.point)
+	s.point.Add(l.point, s.unaliased(r))
 	return s
 }
 
 func (s *Secp256k1Point) SubPoints(lhs, rhs EccPoint) EccPoint {
 	l := lhs.(*Secp256k1Point)
 	r := rhs.(*Secp256k1Point)
-	s.point.Sub(l.point, r.point)
+	s.point.Sub(l.point, s.unaliased(r))
 	return s
 }
 
+// unaliased copies the operand if it is the receiver, which is overwritten before the operand is read
+func (s *Secp256k1Point) unaliased(r *Secp256k1Point) *native.EllipticPoint {
+	if s.point == r.point {
+		return k256.K256PointNew().Set(r.point)
+	}
+	return r.point
+}
+
 func (s *Secp256k1Point) Double(other EccPoint) EccPoint {
 	o := other.(*Secp256k1Point)
 	s.point.Double(o.point)
-- 
2.43.0


From 7d562ff160178f32481a2b9da30bb9f50f011ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:11 +0000
Subject: [PATCH 09/35] fix: scale the given polynomial in Polynomial.MulScalar

---
 poly/poly.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poly/poly.go b/poly/poly.go
index 39f8c43..d36730d 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -124,7 +124,7 @@ func (p *Polynomial) Mul(lhs, rhs *Polynomial) *Polynomial {
 func (p *Polynomial) MulScalar(lhs *Polynomial, scalar curve.EccScalar) *Polynomial {
 	coeffs := make([]curve.EccScalar, len(lhs.coefficients), len(lhs.coefficients))
 	for i := range coeffs {
-		coeffs[i] = curve.Scalar.Zero(lhs.curve).Mul(p.coefficients[i], scalar)
+		coeffs[i] = curve.Scalar.Zero(lhs.curve).Mul(lhs.coefficients[i], scalar)
 	}
 	p.coefficients = coeffs
 	return p
-- 
2.43.0


From e58d8f8c64dc6a42da006dedb3786bc85dd4a0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:12 +0000
Subject: [PATCH 10/35] fix: keep the interpolation base unscaled so that
 samples on the partial interpolant are accepted

---
 poly/poly.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/poly/poly.go b/poly/poly.go
index d36730d..ec71106 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -181,8 +181,7 @@ func (p polynomial) Interpolate(curveType curve.EccCurveType, samples [][2]curve
 			return nil, errors.New("inv is zero")
 		}
 		diff = diff.Mul(diff, inv)
-		base = base.MulScalar(base, diff)
-		poly = poly.Add(poly, base)
+		poly = poly.Add(poly, Poly.Zero(curveType).MulScalar(base, diff))
 		base = base.Mul(base, Poly.New(curveType, []curve.EccScalar{x.Negate(x), one}))
 	}
 	return poly, nil
-- 
2.43.0


From 4f66cbcc5c51b98dd0e4732dd304c81e70f4cb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:13 +0000
Subject: [PATCH 11/35] fix: count coefficients up to the last non-zero one so
 that commitments never drop any

---
 poly/poly.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/poly/poly.go b/poly/poly.go
index ec71106..aa54a8f 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -72,15 +72,13 @@ func (p Polynomial) Coeff(idx int) curve.EccScalar {
 	return curve.Scalar.Zero(p.curve)
 }
 
-/// Return the count of non-zero coefficients
+/// Return the count of coefficients up to the last non-zero one
 func (p Polynomial) NonZeroCoefficients() int {
-	zeros := 0
-	for _, c := range p.coefficients {
-		if c.IsZero() == 1 {
-			zeros++
-		}
+	count := len(p.coefficients)
+	for count > 0 && p.coefficients[count-1].IsZero() == 1 {
+		count--
 	}
-	return len(p.coefficients) - zeros
+	return count
 }
 func (p Polynomial) IsZero() int {
 	flag := 0
-- 
2.43.0


From 655be0b39085405f973a45de210b7ec0ccae819c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:14 +0000
Subject: [PATCH 12/35] fix: commitments of different kinds are not equal

---
 poly/commitment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 97398d7..a652416 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -205,7 +205,7 @@ func (s *SimpleCommitment) Len() int {
 	return len(s.points)
 }
 func (s *SimpleCommitment) Equal(other PolynomialCommitment) int {
-	if s.Len() != other.Len() {
+	if s.Type() != other.Type() || s.Len() != other.Len() {
 		return 0
 	}
 	for i := range s.points {
@@ -328,7 +328,7 @@ func (p *PedersenCommitment) Len() int {
 	return len(p.points)
 }
 func (p *PedersenCommitment) Equal(other PolynomialCommitment) int {
-	if p.Len() != other.Len() {
+	if p.Type() != other.Type() || p.Len() != other.Len() {
 		return 0
 	}
 	for i := range p.points {
-- 
2.43.0


From 994fc7c8c888ef407e57ce066095d9a1eef5f2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:14 +0000
Subject: [PATCH 13/35] fix: check openings of either representation and reject
 openings of the wrong kind

---
 poly/commitment.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index a652416..a5f4d4d 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -114,6 +114,21 @@ func (p PedersenCommitmentOpening) ToCommitmentOpeningBytes() CommitmentOpeningB
 	return &PedersenCommitmentOpeningBytes{curve.Scalar.ToScalarBytes(p[0]), curve.Scalar.ToScalarBytes(p[1])}
 }
 
+// valueOpening gives the value form of an opening; decoded openings are pointers
+func valueOpening(opening CommitmentOpening) CommitmentOpening {
+	switch o := opening.(type) {
+	case *SimpleCommitmentOpening:
+		if o != nil {
+			return *o
+		}
+	case *PedersenCommitmentOpening:
+		if o != nil {
+			return *o
+		}
+	}
+	return opening
+}
+
 type SimpleCommitment struct {
 	points []curve.EccPoint
 }
@@ -220,7 +235,7 @@ func (s *SimpleCommitment) CurveType() curve.EccCurveType {
 }
 func (s *SimpleCommitment) ReturnOpeningIfConsistent(index common.NodeIndex, opening CommitmentOpening) (CommitmentOpening, error) {
 	if s.CheckOpening(index, opening) {
-		return opening, nil
+		return valueOpening(opening), nil
 	}
 	return nil, errors.New("invalid commitment")
 }
@@ -242,8 +257,8 @@ func (s *SimpleCommitment) EvaluateAt(evalPoint common.NodeIndex) curve.EccPoint
 }
 
 func (s *SimpleCommitment) CheckOpening(evalPoint common.NodeIndex, opening CommitmentOpening) bool {
-	o := opening.(SimpleCommitmentOpening)
-	return s.checkOpening(evalPoint, o[0])
+	o, ok := valueOpening(opening).(SimpleCommitmentOpening)
+	return ok && s.checkOpening(evalPoint, o[0])
 }
 func (s *SimpleCommitment) checkOpening(evalPoint common.NodeIndex, value curve.EccScalar) bool {
 	eval := s.EvaluateAt(evalPoint)
@@ -343,7 +358,7 @@ func (p *PedersenCommitment) CurveType() curve.EccCurveType {
 }
 func (p *PedersenCommitment) ReturnOpeningIfConsistent(index common.NodeIndex, opening CommitmentOpening) (CommitmentOpening, error) {
 	if p.CheckOpening(index, opening) {
-		return opening, nil
+		return valueOpening(opening), nil
 	}
 	return nil, errors.New("invalid commitment")
 }
@@ -364,8 +379,8 @@ func (p *PedersenCommitment) EvaluateAt(evalPoint common.NodeIndex) curve.EccPoi
 	return evaluateAt(p.points, evalPoint)
 }
 func (p *PedersenCommitment) CheckOpening(evalPoint common.NodeIndex, opening CommitmentOpening) bool {
-	o := opening.(PedersenCommitmentOpening)
-	return p.checkOpening(evalPoint, o[0], o[1])
+	o, ok := valueOpening(opening).(PedersenCommitmentOpening)
+	return ok && p.checkOpening(evalPoint, o[0], o[1])
 }
 
 func (p *PedersenCommitment) checkOpening(evalPoint common.NodeIndex, value curve.EccScalar, mask curve.EccScalar) bool {
-- 
2.43.0


From 564527fc27f355ab16a14335d1946ac6e670fadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:15 +0000
Subject: [PATCH 14/35] fix: record the kind of serialised Pedersen openings

---
 poly/commitment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index a5f4d4d..636c73c 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -102,7 +102,7 @@ func (p PedersenCommitmentOpening) Serialize() ([]byte, error) {
 	}
 	c := &commitmentOpeningCbor{
 		CurveType:  p[0].CurveType(),
-		CommitType: Simple,
+		CommitType: Pedersen,
 		Message:    data,
 	}
 	return cbor.Marshal(c)
-- 
2.43.0


From 6978840da4deffd4187fd076cdde1cb57bd1eb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:16 +0000
Subject: [PATCH 15/35] fix: reject malformed serialised openings

---
 poly/commitment.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 636c73c..4e7c41f 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -58,21 +58,42 @@ func (commitmentOpening) Deserialize(data []byte) (CommitmentOpening, error) {
 	case Simple:
 		switch c.CurveType {
 		case curve.K256:
-			o := &SimpleCommitmentOpening{curve.Scalar.Zero(c.CurveType)}
-			cbor.Unmarshal(c.Message, &o)
-			return o, nil
+			s, err := decodeK256Scalars(c.Message, 1)
+			if err != nil {
+				return nil, err
+			}
+			return &SimpleCommitmentOpening{s[0]}, nil
 		}
 
 	case Pedersen:
 		switch c.CurveType {
 		case curve.K256:
-			o := &PedersenCommitmentOpening{curve.Scalar.Zero(c.CurveType), curve.Scalar.Zero(c.CurveType)}
-			cbor.Unmarshal(c.Message, &o)
-			return o, nil
+			s, err := decodeK256Scalars(c.Message, 2)
+			if err != nil {
+				return nil, err
+			}
+			return &PedersenCommitmentOpening{s[0], s[1]}, nil
 		}
 	}
 	return nil, errors.New("unknown commitment type")
 }
+
+// decodeK256Scalars decodes an array of exactly n scalars
+func decodeK256Scalars(data []byte, n int) ([]*curve.Secp256k1Scalar, error) {
+	var s []*curve.Secp256k1Scalar
+	if err := cbor.Unmarshal(data, &s); err != nil {
+		return nil, err
+	}
+	if len(s) != n {
+		return nil, errors.New("invalid opening")
+	}
+	for i := range s {
+		if s[i] == nil {
+			return nil, errors.New("invalid opening")
+		}
+	}
+	return s, nil
+}
 func (commitmentOpening) FromBytes(bytes []byte) (CommitmentOpening, error) {
 	return nil, nil
 }
-- 
2.43.0


From 561c5681aeb0fa942dcbd45a3431e46bd6e2e8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:17 +0000
Subject: [PATCH 16/35] fix: decode Pedersen commitments and reject empty
 commitments

---
 poly/commitment.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/poly/commitment.go b/poly/commitment.go
index 4e7c41f..353f126 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -439,21 +439,28 @@ func (polynomialCommitment) Deserialize(bytes []byte) (PolynomialCommitment, err
 	if err := cbor.Unmarshal(bytes, &c); err != nil {
 		return nil, err
 	}
+	if c.CurveType != curve.K256 {
+		return nil, errors.New("invalid commitment")
+	}
+	var ps []*curve.Secp256k1Point
+	if err := cbor.Unmarshal(c.Message, &ps); err != nil {
+		return nil, err
+	}
+	if len(ps) == 0 {
+		return nil, errors.New("invalid commitment")
+	}
+	points := make([]curve.EccPoint, len(ps), len(ps))
+	for i, _ := range points {
+		if ps[i] == nil {
+			return nil, errors.New("invalid commitment")
+		}
+		points[i] = ps[i]
+	}
 	switch c.CommitmentType {
 	case Simple:
-		switch c.CurveType {
-		case curve.K256:
-			var ps []*curve.Secp256k1Point
-			if err := cbor.Unmarshal(c.Message, &ps); err != nil {
-				return nil, err
-			}
-			points := make([]curve.EccPoint, len(ps), len(ps))
-			for i, _ := range points {
-				points[i] = ps[i]
-			}
-			return &SimpleCommitment{points: points}, nil
-		}
+		return &SimpleCommitment{points: points}, nil
 	case Pedersen:
+		return &PedersenCommitment{points: points}, nil
 	}
 	return nil, errors.New("invalid commitment")
 
-- 
2.43.0


From 8981105348ee8f6f7a0636a9ffd0823349ea50c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:06 +0000
Subject: [PATCH 17/35] fix: absorb random oracle inputs longer than 255 bytes

---
 ro/ro.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ro/ro.go b/ro/ro.go
index 78ee0b3..0b83761 100644
--- a/ro/ro.go
+++ b/ro/ro.go
@@ -42,7 +42,7 @@ func (r *RandomOracle) AddInput(name string, input []byte, ty RandomOracleInputT
 		return errors.New("invalid name length")
 	}
 
-	if len(input) > math.MaxUint8 {
+	if uint64(len(input)) > math.MaxUint32 {
 		return errors.New("invalid input length")
 	}
 	var encodedInput []byte
-- 
2.43.0


From 7235b647b23eba522a5d59c8d860d8490e3b21ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:06 +0000
Subject: [PATCH 18/35] fix: continue derivation with the successor index when
 a child is invalid

---
 key/key_derivation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/key/key_derivation.go b/key/key_derivation.go
index 9c45197..d4fabd5 100644
--- a/key/key_derivation.go
+++ b/key/key_derivation.go
@@ -84,7 +84,7 @@ func ckdpub(pk curve.EccPoint, chainKey []byte, index DerivationIndex) (curve.Ec
 	newChainKey := output[32:]
 	newKey := pk.Clone().AddPoints(pk, curve.Point.MulByG(keyOffset))
 	if !bytes.Equal(keyOffset.Serialize(), output[:32]) || newKey.IsInfinity() {
-		ckdpub(pk, chainKey, index.Next())
+		return ckdpub(pk, chainKey, index.Next())
 	}
 	return newKey, newChainKey, keyOffset, nil
 }
-- 
2.43.0


From 60177fcd9a965e8edb3c095583320fa277dbf9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:08 +0000
Subject: [PATCH 19/35] fix: fill buffers with stream bytes whatever they
 contained

---
 rand/chacha20.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rand/chacha20.go b/rand/chacha20.go
index 7791a4c..e395142 100644
--- a/rand/chacha20.go
+++ b/rand/chacha20.go
@@ -33,6 +33,9 @@ func (c ChaCha20) Uint64() uint64 {
 }
 
 func (c *ChaCha20) FillUint8(res []uint8) {
+	for i := range res {
+		res[i] = 0
+	}
 	c.cipher.XORKeyStream(res, res)
 }
 
-- 
2.43.0


From 68c9ee13a3226d4609198d43f2ff3ece4ac84b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:09 +0000
Subject: [PATCH 20/35] fix: reject negative lengths in message expansion

---
 seed/xmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seed/xmd.go b/seed/xmd.go
index 293b8ba..6579fbf 100644
--- a/seed/xmd.go
+++ b/seed/xmd.go
@@ -10,7 +10,7 @@ const (
 )
 
 func ExpandMessageXmd(msg []byte, domainSeparator []byte, length int) ([]byte, error) {
-	if length > maxLen {
+	if length < 0 || length > maxLen {
 		return nil, errors.Errorf("Requested XMD output length %d too large (max: %d)", length, maxLen)
 	}
 	ell := (length-1)/32 + 1
-- 
2.43.0


From 2190053cfe3c51d9aa2b0b109a4e347025e9ed36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:10 +0000
Subject: [PATCH 21/35] fix: make resharing shares usable and reject missing
 openings in Secret.From

---
 dealings/secret_shares.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dealings/secret_shares.go b/dealings/secret_shares.go
index 255558d..00bc6f3 100644
--- a/dealings/secret_shares.go
+++ b/dealings/secret_shares.go
@@ -41,7 +41,7 @@ func (secretShares) From(cob1 poly.CommitmentOpeningBytes, cob2 poly.CommitmentO
 	switch cm1 := cob1.(type) {
 	case *poly.SimpleCommitmentOpeningBytes:
 		if cob2 == nil {
-			share = ReshareOfUnmaskedSecret{S1: cm1[0].ToScalar()}
+			share = &ReshareOfUnmaskedSecret{S1: cm1[0].ToScalar()}
 		} else {
 			if p, ok := cob2.(*poly.PedersenCommitmentOpeningBytes); ok {
 				s1 := cm1[0].ToScalar()
@@ -60,6 +60,8 @@ func (secretShares) From(cob1 poly.CommitmentOpeningBytes, cob2 poly.CommitmentO
 			return nil, errors.New("inconsistent combination of commitment types")
 		}
 		share = &ReshareOfMaskedSecret{S1: cm1[0].ToScalar(), S2: cm1[1].ToScalar()}
+	default:
+		return nil, errors.New("unexpected commitment type")
 	}
 	return share, nil
 }
-- 
2.43.0


From 57efb4aa6c8434b6f24b65f2d2cd7ad1c2591a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:11 +0000
Subject: [PATCH 22/35] fix: reject invalid thresholds and unknown secret kinds
 when creating dealings

---
 dealings/dealings.go | 4 +++-
 poly/poly.go         | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index 0f24024..016035a 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -58,7 +58,7 @@ type IDkgDealingInternal struct {
 }
 
 func NewIDkgDealingInternal(shares SecretShares, curveType curve.EccCurveType, seed *seed.Seed, threshold int, recipients []*mega.MEGaPublicKey, dealerIndex common.NodeIndex, ad []byte) (*IDkgDealingInternal, error) {
-	if threshold == 0 || threshold > len(recipients) {
+	if threshold <= 0 || threshold > len(recipients) {
 		return nil, errors.New("invalid threshold")
 	}
 
@@ -113,6 +113,8 @@ func NewIDkgDealingInternal(shares SecretShares, curveType curve.EccCurveType, s
 		}
 		pf, err := zk.ProofOfProductIns.Create(seed.Derive(zk.ProofOfProductDst), s.Left, s.Right[0], s.Right[1], product, productMasking, ad)
 		proof = &ProductProof{pf}
+	default:
+		return nil, errors.New("unexpected secret shares")
 	}
 
 	return &IDkgDealingInternal{ciphertext, commitment, proof}, nil
diff --git a/poly/poly.go b/poly/poly.go
index aa54a8f..c1c311f 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -44,7 +44,7 @@ func (polynomial) Random(curveType curve.EccCurveType, num int, rng rand.Rand) *
 }
 
 func (polynomial) RandomWithConstant(constant curve.EccScalar, num int, rng rand.Rand) (*Polynomial, error) {
-	if num == 0 {
+	if num <= 0 {
 		return nil, errors.New("Cannot have degree=0 polynomial with given constant")
 	}
 	curveType := constant.CurveType()
-- 
2.43.0


From 17c704e71a3ebf9d16093648ec465a3342100bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:11 +0000
Subject: [PATCH 23/35] fix: reject product dealings without a proof instead of
 crashing

---
 dealings/dealings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index 016035a..08db274 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -166,7 +166,7 @@ func (dealing IDkgDealingInternal) PubliclyVerify(curveType curve.EccCurveType,
 				return errors.New("invalid commitment")
 			}
 		}
-	} else if t, ok := transcriptType.(*UnmaskedTimesMaskedTranscript); ok && dealing.Proof.Type() == ProofOfProduct {
+	} else if t, ok := transcriptType.(*UnmaskedTimesMaskedTranscript); ok && dealing.Proof != nil && dealing.Proof.Type() == ProofOfProduct {
 		if err := dealing.Commitment.VerifyIs(poly2.Pedersen, curveType); err != nil {
 			return err
 		}
-- 
2.43.0


From 15c2fcb00009504a608f46c85144d43d093c6e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:12 +0000
Subject: [PATCH 24/35] fix: compare a transcript with the other one

---
 dealings/transcript_operation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dealings/transcript_operation.go b/dealings/transcript_operation.go
index e2eeb5a..b85efe2 100644
--- a/dealings/transcript_operation.go
+++ b/dealings/transcript_operation.go
@@ -18,6 +18,6 @@ func (t IDkgTranscriptInternal) EvaluateAt(evalPoint common.NodeIndex) curve.Ecc
 }
 func (t IDkgTranscriptInternal) Compare(other IDkgTranscriptInternal) int {
 	lhs := t.CombinedCommitment.StableRepresentation()
-	rhs := t.CombinedCommitment.StableRepresentation()
+	rhs := other.CombinedCommitment.StableRepresentation()
 	return bytes.Compare(lhs, rhs)
 }
-- 
2.43.0


From a2363a8ecd17a41efd622aa5d3e2ba9e70ef89ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:13 +0000
Subject: [PATCH 25/35] fix: reject transcripts of unknown operations and of
 dealings of the wrong kind

---
 dealings/transcript.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dealings/transcript.go b/dealings/transcript.go
index d0f517e..1a8609f 100644
--- a/dealings/transcript.go
+++ b/dealings/transcript.go
@@ -25,11 +25,19 @@ type UnmaskedTimesMaskedTranscript struct {
 func CombineCommitmentsViaInterpolation(commitmentType poly.PolynomialCommitmentType, curveType curve.EccCurveType, reconstructionThreshold int, verifiedDealings *btree.Map[common.NodeIndex, *IDkgDealingInternal]) (CombinedCommitment, error) {
 	commitments := make([]poly.PolynomialCommitment, 0, verifiedDealings.Len())
 	indexes := make([]common.NodeIndex, 0, verifiedDealings.Len())
+	var kindErr error
 	verifiedDealings.Scan(func(index common.NodeIndex, dealing *IDkgDealingInternal) bool {
+		if dealing.Commitment.Type() != commitmentType {
+			kindErr = errors.New("unexpected commitment type")
+			return false
+		}
 		indexes = append(indexes, index)
 		commitments = append(commitments, dealing.Commitment.Clone())
 		return true
 	})
+	if kindErr != nil {
+		return nil, kindErr
+	}
 	coefficients, err := poly.Lagrange.AtZero(curveType, indexes)
 	if err != nil {
 		return nil, err
@@ -118,6 +126,8 @@ func NewTranscriptInternal(curveType curve.EccCurveType, reconstructionThreshold
 		if err != nil {
 			return nil, err
 		}
+	default:
+		return nil, errors.New("unexpected transcript operation")
 	}
 	return &IDkgTranscriptInternal{CombinedCommitment: combinedCommitment}, nil
 }
-- 
2.43.0


From 1c15f912dfbe432c2a3f1e0a8a346824627d0257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:38 +0000
Subject: [PATCH 26/35] fix: use decoded openings when combining and
 reconstructing shares

---
 dealings/commitment.go |  6 +++---
 dealings/transcript.go |  4 ++--
 poly/commitment.go     | 12 ++++++------
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/dealings/commitment.go b/dealings/commitment.go
index e7bfb86..af5e6d5 100644
--- a/dealings/commitment.go
+++ b/dealings/commitment.go
@@ -74,7 +74,7 @@ func (commitmentOpening) CombineOpenings(nodeIndexOpenings []common.NodeIndex, c
 		combinedValue := curve.Scalar.Zero(curveType)
 		combinedMask := curve.Scalar.Zero(curveType)
 		for _, opening := range commitmentOpenings {
-			switch o := opening.(type) {
+			switch o := poly.ValueOpening(opening).(type) {
 			case poly.PedersenCommitmentOpening:
 				combinedValue = combinedValue.Add(combinedValue, o[0])
 				combinedMask = combinedMask.Add(combinedMask, o[1])
@@ -90,7 +90,7 @@ func (commitmentOpening) CombineOpenings(nodeIndexOpenings []common.NodeIndex, c
 			values := make([]curve.EccScalar, 0, len(commitmentOpenings))
 			for i := 0; i < len(commitmentOpenings); i++ {
 				dealerIndex, opening := nodeIndexOpenings[i], commitmentOpenings[i]
-				switch o := opening.(type) {
+				switch o := poly.ValueOpening(opening).(type) {
 				case poly.SimpleCommitmentOpening:
 					xValues = append(xValues, dealerIndex)
 					values = append(values, o[0])
@@ -115,7 +115,7 @@ func (commitmentOpening) CombineOpenings(nodeIndexOpenings []common.NodeIndex, c
 			masks := make([]curve.EccScalar, 0, len(commitmentOpenings))
 			for i := 0; i < len(commitmentOpenings); i++ {
 				dealerIndex, opening := nodeIndexOpenings[i], commitmentOpenings[i]
-				switch o := opening.(type) {
+				switch o := poly.ValueOpening(opening).(type) {
 				case poly.PedersenCommitmentOpening:
 					xValues = append(xValues, dealerIndex)
 					values = append(values, o[0])
diff --git a/dealings/transcript.go b/dealings/transcript.go
index 1a8609f..4e7bc13 100644
--- a/dealings/transcript.go
+++ b/dealings/transcript.go
@@ -159,7 +159,7 @@ func ReconstructShareFromOpenings(dealing *IDkgDealingInternal, openings *btree.
 		xValues := make([]common.NodeIndex, 0, openings.Len())
 		values := make([]curve.EccScalar, 0, openings.Len())
 		openings.Scan(func(receiverIndex common.NodeIndex, opening poly.CommitmentOpening) bool {
-			switch o := opening.(type) {
+			switch o := poly.ValueOpening(opening).(type) {
 			case poly.SimpleCommitmentOpening:
 				xValues = append(xValues, receiverIndex)
 				values = append(values, o[0])
@@ -186,7 +186,7 @@ func ReconstructShareFromOpenings(dealing *IDkgDealingInternal, openings *btree.
 		values := make([]curve.EccScalar, 0, openings.Len())
 		masks := make([]curve.EccScalar, 0, openings.Len())
 		openings.Scan(func(receiverIndex common.NodeIndex, opening poly.CommitmentOpening) bool {
-			switch o := opening.(type) {
+			switch o := poly.ValueOpening(opening).(type) {
 			case poly.PedersenCommitmentOpening:
 				xValues = append(xValues, receiverIndex)
 				values = append(values, o[0])
diff --git a/poly/commitment.go b/poly/commitment.go
index 353f126..da08c87 100644
--- a/poly/commitment.go
+++ b/poly/commitment.go
@@ -135,8 +135,8 @@ func (p PedersenCommitmentOpening) ToCommitmentOpeningBytes() CommitmentOpeningB
 	return &PedersenCommitmentOpeningBytes{curve.Scalar.ToScalarBytes(p[0]), curve.Scalar.ToScalarBytes(p[1])}
 }
 
-// valueOpening gives the value form of an opening; decoded openings are pointers
-func valueOpening(opening CommitmentOpening) CommitmentOpening {
+// ValueOpening gives the value form of an opening; decoded openings are pointers
+func ValueOpening(opening CommitmentOpening) CommitmentOpening {
 	switch o := opening.(type) {
 	case *SimpleCommitmentOpening:
 		if o != nil {
@@ -256,7 +256,7 @@ func (s *SimpleCommitment) CurveType() curve.EccCurveType {
 }
 func (s *SimpleCommitment) ReturnOpeningIfConsistent(index common.NodeIndex, opening CommitmentOpening) (CommitmentOpening, error) {
 	if s.CheckOpening(index, opening) {
-		return valueOpening(opening), nil
+		return ValueOpening(opening), nil
 	}
 	return nil, errors.New("invalid commitment")
 }
@@ -278,7 +278,7 @@ func (s *SimpleCommitment) EvaluateAt(evalPoint common.NodeIndex) curve.EccPoint
 }
 
 func (s *SimpleCommitment) CheckOpening(evalPoint common.NodeIndex, opening CommitmentOpening) bool {
-	o, ok := valueOpening(opening).(SimpleCommitmentOpening)
+	o, ok := ValueOpening(opening).(SimpleCommitmentOpening)
 	return ok && s.checkOpening(evalPoint, o[0])
 }
 func (s *SimpleCommitment) checkOpening(evalPoint common.NodeIndex, value curve.EccScalar) bool {
@@ -379,7 +379,7 @@ func (p *PedersenCommitment) CurveType() curve.EccCurveType {
 }
 func (p *PedersenCommitment) ReturnOpeningIfConsistent(index common.NodeIndex, opening CommitmentOpening) (CommitmentOpening, error) {
 	if p.CheckOpening(index, opening) {
-		return valueOpening(opening), nil
+		return ValueOpening(opening), nil
 	}
 	return nil, errors.New("invalid commitment")
 }
@@ -400,7 +400,7 @@ func (p *PedersenCommitment) EvaluateAt(evalPoint common.NodeIndex) curve.EccPoi
 	return evaluateAt(p.points, evalPoint)
 }
 func (p *PedersenCommitment) CheckOpening(evalPoint common.NodeIndex, opening CommitmentOpening) bool {
-	o, ok := valueOpening(opening).(PedersenCommitmentOpening)
+	o, ok := ValueOpening(opening).(PedersenCommitmentOpening)
 	return ok && p.checkOpening(evalPoint, o[0], o[1])
 }
 
-- 
2.43.0


From f8929a8404183a36e98fbc1e2eae8fb0f36f4c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:39 +0000
Subject: [PATCH 27/35] fix: reject random transcripts without dealings

---
 dealings/transcript.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dealings/transcript.go b/dealings/transcript.go
index 4e7bc13..21f3abe 100644
--- a/dealings/transcript.go
+++ b/dealings/transcript.go
@@ -76,6 +76,9 @@ func NewTranscriptInternal(curveType curve.EccCurveType, reconstructionThreshold
 
 	switch o := operationMode.(type) {
 	case *RandomTranscript:
+		if verifiedDealings.Len() == 0 {
+			return nil, errors.New("insufficient dealings")
+		}
 		combined := make([]curve.EccPoint, reconstructionThreshold, reconstructionThreshold)
 		for i := range combined {
 			combined[i] = curve.Point.Identity(curveType)
-- 
2.43.0


From 90eeb284c10c03550457892876cf87a23d643a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:40 +0000
Subject: [PATCH 28/35] fix: reject negative recipient indices when decrypting

---
 mega/ciphertext.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mega/ciphertext.go b/mega/ciphertext.go
index 19e115c..30d4cd4 100644
--- a/mega/ciphertext.go
+++ b/mega/ciphertext.go
@@ -198,7 +198,7 @@ func (m MEGaCiphertextSingle) VerifyPop(ad []byte, dealerIndex common.NodeIndex)
 }
 
 func (m MEGaCiphertextSingle) DecryptFromSharedSecret(ad []byte, dealerIndex common.NodeIndex, recipientIndex common.NodeIndex, recipientPublicKey *MEGaPublicKey, sharedSecret curve.EccPoint) (curve.EccScalar, error) {
-	if len(m.CTexts) <= int(recipientIndex) {
+	if recipientIndex < 0 || len(m.CTexts) <= int(recipientIndex) {
 		return nil, errors.New("invalid index")
 	}
 	hm, err := megaHashToScalars(CiphertextSingle, dealerIndex, recipientIndex, ad, recipientPublicKey.point, m.EphemeralKey, sharedSecret)
@@ -286,7 +286,7 @@ func (m MEGaCiphertextPair) VerifyPop(ad []byte, dealerIndex common.NodeIndex) e
 }
 
 func (m MEGaCiphertextPair) DecryptFromSharedSecret(ad []byte, dealerIndex common.NodeIndex, recipientIndex common.NodeIndex, recipientPublicKey *MEGaPublicKey, sharedSecret curve.EccPoint) ([2]curve.EccScalar, error) {
-	if len(m.CTexts) <= int(recipientIndex) {
+	if recipientIndex < 0 || len(m.CTexts) <= int(recipientIndex) {
 		return [2]curve.EccScalar{}, errors.New("invalid index")
 	}
 	hm, err := megaHashToScalars(CiphertextPairs, dealerIndex, recipientIndex, ad, recipientPublicKey.point, m.EphemeralKey, sharedSecret)
-- 
2.43.0


From ae72c4a2d4039f9df767504e5a97bb51d58c2439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:41 +0000
Subject: [PATCH 29/35] fix: check both openings of signature shares against
 their own commitments

---
 sign/share.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sign/share.go b/sign/share.go
index d527dc1..2d7de53 100644
--- a/sign/share.go
+++ b/sign/share.go
@@ -69,18 +69,18 @@ func (t ThresholdEcdsaSigShareInternal) Verify(derivationPath *key.DerivationPat
 	kappaTimesLambdaJ := kappaTimesLambda.EvaluateAt(signerIndex)
 	keyTimesLambdaJ := keyTimesLambda.EvaluateAt(signerIndex)
 	sigmaNum := lambdaj.Clone().ScalarMul(lambdaj, theta)
-	sigmaNum = sigmaNum.AddPoints(sigmaNum, keyTimesLambdaJ.Clone().ScalarMul(kappaTimesLambdaJ, rho))
+	sigmaNum = sigmaNum.AddPoints(sigmaNum, keyTimesLambdaJ.Clone().ScalarMul(keyTimesLambdaJ, rho))
 	sigmaDen := lambdaj.Clone().ScalarMul(lambdaj, randomizer)
 	sigmaDen = sigmaDen.AddPoints(sigmaDen, kappaTimesLambdaJ)
-	if k, ok := t.sigmaNumerator.(*poly2.PedersenCommitmentOpening); ok {
-		if sigmaNum.Equal(curve.Point.Pedersen(k[0], k[1])) != 1 {
-			return errors.New("invalid commitment")
-		}
+	if k, ok := t.sigmaNumerator.(poly2.PedersenCommitmentOpening); !ok {
+		return errors.New("unexpected commitment type")
+	} else if sigmaNum.Equal(curve.Point.Pedersen(k[0], k[1])) != 1 {
+		return errors.New("invalid commitment")
 	}
-	if k, ok := t.sigmaDenominator.(*poly2.PedersenCommitmentOpening); ok {
-		if sigmaNum.Equal(curve.Point.Pedersen(k[0], k[1])) != 1 {
-			return errors.New("invalid commitment")
-		}
+	if k, ok := t.sigmaDenominator.(poly2.PedersenCommitmentOpening); !ok {
+		return errors.New("unexpected commitment type")
+	} else if sigmaDen.Equal(curve.Point.Pedersen(k[0], k[1])) != 1 {
+		return errors.New("invalid commitment")
 	}
 	return nil
 }
-- 
2.43.0


From e38393740740d304caaa162f76465234c4e8f378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:41 +0000
Subject: [PATCH 30/35] fix: accept decoded openings and reject openings of the
 wrong kind when signing

---
 sign/share.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sign/share.go b/sign/share.go
index 2d7de53..7b2b637 100644
--- a/sign/share.go
+++ b/sign/share.go
@@ -26,26 +26,32 @@ func NewThresholdEcdsaSigShareInternal(derivationPath *key.DerivationPath, hashe
 	theta := e.Add(e, rho.Clone().Mul(rho, keyTweak))
 	var lambdaValue curve.EccScalar
 	var lambdaMask curve.EccScalar
-	if l, ok := lambda.(poly2.PedersenCommitmentOpening); ok {
+	if l, ok := poly2.ValueOpening(lambda).(poly2.PedersenCommitmentOpening); ok {
 		lambdaValue = l[0]
 		lambdaMask = l[1]
+	} else {
+		return nil, errors.New("unexpected commitment type")
 	}
 	var nu poly2.CommitmentOpening
-	if k, ok := keyTimesLambda.(poly2.PedersenCommitmentOpening); ok {
+	if k, ok := poly2.ValueOpening(keyTimesLambda).(poly2.PedersenCommitmentOpening); ok {
 		nuValue := theta.Clone().Mul(theta, lambdaValue)
 		nuValue = nuValue.Add(nuValue, rho.Clone().Mul(rho, k[0]))
 		nuMask := theta.Clone().Mul(theta, lambdaMask)
 		nuMask = nuMask.Add(nuMask, rho.Clone().Mul(rho, k[1]))
 		nu = poly2.PedersenCommitmentOpening{nuValue, nuMask}
+	} else {
+		return nil, errors.New("unexpected commitment type")
 	}
 
 	var mu poly2.CommitmentOpening
-	if k, ok := kappaTimesLambda.(poly2.PedersenCommitmentOpening); ok {
+	if k, ok := poly2.ValueOpening(kappaTimesLambda).(poly2.PedersenCommitmentOpening); ok {
 		muValue := randomizer.Clone().Mul(randomizer, lambdaValue)
 		muValue = muValue.Add(muValue, k[0])
 		muMask := randomizer.Clone().Mul(randomizer, lambdaMask)
 		muMask = muMask.Add(muMask, k[1])
 		mu = poly2.PedersenCommitmentOpening{muValue, muMask}
+	} else {
+		return nil, errors.New("unexpected commitment type")
 	}
 	return &ThresholdEcdsaSigShareInternal{
 		sigmaNumerator:   nu,
-- 
2.43.0


From d47d90b2dc56b5e7a879da8d87e6a1763e23d1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:14 +0000
Subject: [PATCH 31/35] fix: check unmasked resharings against wrapped
 transcript commitments too

---
 dealings/dealings.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index 08db274..21024b6 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -158,13 +158,8 @@ func (dealing IDkgDealingInternal) PubliclyVerify(curveType curve.EccCurveType,
 		if err := dealing.Ciphertext.VerifyIs(mega.CiphertextSingle, curveType); err != nil {
 			return err
 		}
-		switch c := t.P1.(type) {
-		case *poly2.PedersenCommitment:
-			return errors.New("unexpected commitment type")
-		case *poly2.SimpleCommitment:
-			if c.EvaluateAt(dealerIndex).Equal(dealing.Commitment.ConstantTerm()) != 1 {
-				return errors.New("invalid commitment")
-			}
+		if t.P1.EvaluateAt(dealerIndex).Equal(dealing.Commitment.ConstantTerm()) != 1 {
+			return errors.New("invalid commitment")
 		}
 	} else if t, ok := transcriptType.(*UnmaskedTimesMaskedTranscript); ok && dealing.Proof != nil && dealing.Proof.Type() == ProofOfProduct {
 		if err := dealing.Commitment.VerifyIs(poly2.Pedersen, curveType); err != nil {
-- 
2.43.0


From 928efffec80a36a3a2c88d590ffcc32380df5a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:15 +0000
Subject: [PATCH 32/35] fix: reject dealings with malformed proofs or empty
 commitments instead of crashing

---
 dealings/dealings.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/dealings/dealings.go b/dealings/dealings.go
index 21024b6..b9e3ca7 100644
--- a/dealings/dealings.go
+++ b/dealings/dealings.go
@@ -121,7 +121,7 @@ func NewIDkgDealingInternal(shares SecretShares, curveType curve.EccCurveType, s
 
 }
 func (dealing IDkgDealingInternal) PubliclyVerify(curveType curve.EccCurveType, transcriptType IDkgTranscriptOperationInternal, reconstructionThreshold int, dealerIndex common.NodeIndex, numberOfReceivers int, ad []byte) error {
-	if dealing.Commitment.Len() != reconstructionThreshold {
+	if dealing.Commitment.Len() == 0 || dealing.Commitment.Len() != reconstructionThreshold {
 		return errors.New("invalid commitment")
 	}
 	if dealing.Commitment.CurveType() != curveType {
@@ -145,7 +145,11 @@ func (dealing IDkgDealingInternal) PubliclyVerify(curveType curve.EccCurveType,
 		if err := dealing.Ciphertext.VerifyIs(mega.CiphertextSingle, curveType); err != nil {
 			return err
 		}
-		if err := dealing.Proof.(*MaskedResharingProof).Verify(t.P1.EvaluateAt(dealerIndex), dealing.Commitment.ConstantTerm(), ad); err != nil {
+		proof, ok := dealing.Proof.(*MaskedResharingProof)
+		if !ok || proof.ProofOfEqualOpenings == nil {
+			return errors.New("invalid proof")
+		}
+		if err := proof.Verify(t.P1.EvaluateAt(dealerIndex), dealing.Commitment.ConstantTerm(), ad); err != nil {
 			return err
 		}
 	} else if t, ok := transcriptType.(*ReshareOfUnmaskedTranscript); ok && dealing.Proof == nil {
@@ -174,7 +178,11 @@ func (dealing IDkgDealingInternal) PubliclyVerify(curveType curve.EccCurveType,
 		if err := t.Right.VerifyIs(poly2.Pedersen, curveType); err != nil {
 			return err
 		}
-		if err := dealing.Proof.(*ProductProof).Verify(t.Left.EvaluateAt(dealerIndex), t.Right.EvaluateAt(dealerIndex), dealing.Commitment.ConstantTerm(), ad); err != nil {
+		proof, ok := dealing.Proof.(*ProductProof)
+		if !ok || proof.ProofOfProduct == nil {
+			return errors.New("invalid proof")
+		}
+		if err := proof.Verify(t.Left.EvaluateAt(dealerIndex), t.Right.EvaluateAt(dealerIndex), dealing.Commitment.ConstantTerm(), ad); err != nil {
 			return err
 		}
 	} else {
@@ -184,6 +192,9 @@ func (dealing IDkgDealingInternal) PubliclyVerify(curveType curve.EccCurveType,
 }
 
 func (dealing IDkgDealingInternal) PrivateVerify(curveType curve.EccCurveType, privateKey *mega.MEGaPrivateKey, publicKey *mega.MEGaPublicKey, ad []byte, dealerIndex common.NodeIndex, recipientIndex common.NodeIndex) error {
+	if dealing.Commitment.Len() == 0 {
+		return errors.New("invalid commitment")
+	}
 	if privateKey.CurveType() != curveType || publicKey.CurveType() != curveType || dealing.Commitment.ConstantTerm().CurveType() != curveType {
 		return errors.New("curve mismatch")
 	}
-- 
2.43.0


From ace6a93060a1e98d15042a9f2991b4502f033207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:25 +0000
Subject: [PATCH 33/35] fix: reject lists of dealers and openings of different
 lengths instead of crashing

---
 dealings/commitment.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dealings/commitment.go b/dealings/commitment.go
index af5e6d5..a2851fb 100644
--- a/dealings/commitment.go
+++ b/dealings/commitment.go
@@ -68,6 +68,9 @@ func (c commitmentOpening) FromDealings(verifiedDealings *btree.Map[common.NodeI
 
 func (commitmentOpening) CombineOpenings(nodeIndexOpenings []common.NodeIndex, commitmentOpenings []poly.CommitmentOpening, transcriptCommitment CombinedCommitment, receiverIndex common.NodeIndex, curveType curve.EccCurveType) (poly.CommitmentOpening, error) {
 	var opening poly.CommitmentOpening
+	if len(nodeIndexOpenings) != len(commitmentOpenings) {
+		return nil, errors.New("each opening must have a dealer index")
+	}
 
 	switch t := transcriptCommitment.(type) {
 	case *SummationCommitment:
-- 
2.43.0


From 64be89a5c518294d075143bbda40d49e7eb1c34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:20 +0000
Subject: [PATCH 34/35] fix: product proof copies own their scalars

---
 zk/product.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zk/product.go b/zk/product.go
index 62d5979..0ca413a 100644
--- a/zk/product.go
+++ b/zk/product.go
@@ -115,8 +115,8 @@ func (p *ProofOfProduct) Verify(lhsCom curve.EccPoint, rhsCom curve.EccPoint, pr
 }
 func (p *ProofOfProduct) Clone() *ProofOfProduct {
 	return &ProofOfProduct{
-		challenge: p.challenge,
-		response1: p.response1,
-		response2: p.response2,
+		challenge: p.challenge.Clone(),
+		response1: p.response1.Clone(),
+		response2: p.response2.Clone(),
 	}
 }
-- 
2.43.0


From 512bc97fc18642308bf99343da9443b3a74f3263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:21 +0000
Subject: [PATCH 35/35] fix: random polynomials own their constant term

---
 poly/poly.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poly/poly.go b/poly/poly.go
index c1c311f..c10c36e 100644
--- a/poly/poly.go
+++ b/poly/poly.go
@@ -49,7 +49,7 @@ func (polynomial) RandomWithConstant(constant curve.EccScalar, num int, rng rand
 	}
 	curveType := constant.CurveType()
 	coefficients := make([]curve.EccScalar, num, num)
-	coefficients[0] = constant
+	coefficients[0] = constant.Clone()
 	for i := range coefficients {
 		if i != 0 {
 			coefficients[i] = curve.Scalar.Random(curveType, rng)
-- 
2.43.0

