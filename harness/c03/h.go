// Package c03: point encodings round trip and decoding accepts only curve points.
package c03

import (
	"github.com/PlatONnetwork/tecdsa/curve"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
)

func eqBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = And(r, a[i] == b[i])
	}
	return r
}

func allZero(b []byte) bool {
	r := true
	for i := range b {
		r = And(r, b[i] == 0)
	}
	return r
}

var prime = []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
	0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xff, 0xff, 0xfc, 0x2f}

func belowPrime(b []byte) bool {
	lt, eq := false, true
	for i := range b {
		lt = Or(lt, And(eq, b[i] < prime[i]))
		eq = And(eq, b[i] == prime[i])
	}
	return lt
}

// all points including the identity
func H_encode() {
	a := NewP("a")
	p := MkPoint(a)
	b := p.Serialize()
	t := p.SerializeTagged()
	u := p.SerializeUncompressed()
	inf := p.IsInfinity()
	Reach("encode")
	Assert(Iff(inf, a.IsInf()), "identity test")
	Assert(len(b) == 33, "33 bytes")
	Assert(eqBytes(b, a.Compressed()), "SEC1 compressed form")
	Assert(len(t) == 34, "34 tagged bytes")
	Assert(t[0] == 1, "curve tag first")
	Assert(eqBytes(t[1:], b), "tagged body is the compressed form")
	Assert(len(u) == 65, "65 uncompressed bytes")
	if inf {
		Assert(allZero(b), "identity is all zero")
		Assert(allZero(u), "identity is all zero")
	} else {
		Assert(u[0] == 4, "uncompressed tag")
		Assert(eqBytes(u[1:33], a.X().Bytes()), "uncompressed x")
		Assert(eqBytes(u[33:], a.Y().Bytes()), "uncompressed y")
		Assert(FVal(p.AffineX()).Eq(a.X()), "affine x")
		Assert(FVal(p.AffineY()).Eq(a.Y()), "affine y")
	}
	Assert(PVal(p).Eq(a), "encoding leaves the point unchanged")
	Assert(p.CurveType() == curve.K256, "curve type")
	Observe("b", b)
	Observe("u", u)
}

// all points including the identity, every decoder
func H_roundtrip() {
	a := NewP("a")
	p := MkPoint(a)
	b := p.Serialize()
	x, err := curve.Point.Deserialize(curve.K256, b)
	Assert(err == nil, "compressed form decodes")
	Assert(PVal(x).Eq(a), "compressed form decodes to the point")
	y, err := curve.Point.DeserializeTagged(curve.K256, p.SerializeTagged())
	Assert(err == nil, "tagged form decodes")
	Assert(PVal(y).Eq(a), "tagged form decodes to the point")
	k := p.(*curve.Secp256k1Point)
	enc, err := k.MarshalCBOR()
	Assert(err == nil, "encodes to CBOR")
	r := &curve.Secp256k1Point{}
	Assert(r.UnmarshalCBOR(enc) == nil, "CBOR decodes")
	Assert(PVal(r).Eq(a), "CBOR round trip")
	Reach("rt")
	if !a.IsInf() {
		z, err := curve.Point.DeserializeAnyFormat(curve.K256, p.SerializeUncompressed())
		Assert(err == nil, "uncompressed form decodes")
		Assert(PVal(z).Eq(a), "uncompressed form decodes to the point")
		w, err := curve.Point.DeserializeAnyFormat(curve.K256, b)
		Assert(err == nil, "compressed form decodes")
		Assert(PVal(w).Eq(a), "compressed form decodes to the point")
		f, err := curve.Point.FromFieldElems(p.AffineX(), p.AffineY())
		Assert(err == nil, "coordinates decode")
		Assert(PVal(f).Eq(a), "coordinates decode to the point")
	} else {
		w, err := curve.Point.DeserializeAnyFormat(curve.K256, []byte{0})
		Assert(err == nil, "SEC1 identity decodes")
		Assert(w != nil && w.IsInfinity(), "SEC1 identity decodes to the identity")
	}
}

// checks an accepted compressed encoding
func named(pt curve.EccPoint, b []byte) {
	x, y, inf := PCoords(pt)
	Assert(!inf, "finite point")
	Assert(OnCurve(x, y), "satisfies the curve equation")
	Assert(x.Eq(FBytes(b[1:33])), "has the encoded x")
	Assert(eqBytes(x.Bytes(), b[1:33]), "x encoding is canonical")
	Assert((b[0]&1) == (y.Bytes()[31]&1), "has the encoded parity")
}

// all byte strings of each length 0..36 (thorough 0..70), compressed decoder
func H_decode() {
	n := Choose("len", Tier(37, 71))
	b := Bytes("b", n)
	pt, err := curve.Point.Deserialize(curve.K256, b)
	Reach("decode")
	if n != 33 {
		Assert(err != nil, "wrong length is rejected")
		Assert(pt == nil, "no value with an error")
		return
	}
	if err != nil {
		Assert(pt == nil, "no value with an error")
		x := FBytes(b[1:])
		rhs := x.Mul(x).Mul(x).Add(FInt(7))
		Assert(Not(And(Or(b[0] == 2, b[0] == 3), belowPrime(b[1:]), rhs.IsSquare())), "every encoding of a point is accepted")
		Assert(Not(allZero(b)), "the identity is accepted")
		Reach("reject")
		return
	}
	Assert(pt != nil, "a value without an error")
	if pt.IsInfinity() {
		Reach("identity")
		Assert(allZero(b), "identity only from zero bytes")
		return
	}
	Reach("accept")
	Assert(Or(b[0] == 2, b[0] == 3), "compressed tag")
	named(pt, b)
}

// all byte strings of each length 0..37 (thorough 0..70), tagged decoder
func H_decodeTagged() {
	n := Choose("len", Tier(38, 71))
	b := Bytes("b", n)
	pt, err := curve.Point.DeserializeTagged(curve.K256, b)
	Reach("decode")
	if err != nil {
		if n == 34 {
			x := FBytes(b[2:])
			rhs := x.Mul(x).Mul(x).Add(FInt(7))
			Assert(Not(And(b[0] == 1, Or(b[1] == 2, b[1] == 3), belowPrime(b[2:]), rhs.IsSquare())), "every encoding of a point is accepted")
			Assert(Not(And(b[0] == 1, allZero(b[1:]))), "the identity is accepted")
		}
		return
	}
	Assert(n == 34, "wrong length is rejected")
	Assert(b[0] == 1, "wrong curve tag is rejected")
	Assert(pt != nil, "a value without an error")
	if pt.IsInfinity() {
		Assert(allZero(b[1:]), "identity only from zero bytes")
		return
	}
	Reach("accept")
	Assert(Or(b[1] == 2, b[1] == 3), "compressed tag")
	named(pt, b[1:])
}

// all byte strings of each length 0..66 (thorough 0..70), SEC1 decoder
func H_decodeAny() {
	n := Choose("len", Tier(67, 71))
	b := Bytes("b", n)
	pt, err := curve.Point.DeserializeAnyFormat(curve.K256, b)
	Reach("decode")
	if err != nil {
		Assert(pt == nil, "no value with an error")
		if n == 65 {
			x, y := FBytes(b[1:33]), FBytes(b[33:])
			Assert(Not(And(b[0] == 4, belowPrime(b[1:33]), belowPrime(b[33:]), OnCurve(x, y))), "every uncompressed point is accepted")
		}
		if n == 33 {
			x := FBytes(b[1:])
			rhs := x.Mul(x).Mul(x).Add(FInt(7))
			Assert(Not(And(Or(b[0] == 2, b[0] == 3), belowPrime(b[1:]), rhs.IsSquare())), "every compressed point is accepted")
		}
		return
	}
	Assert(pt != nil, "a value without an error")
	Assert(n == 1 || n == 33 || n == 65, "wrong length is rejected")
	if n == 1 {
		Assert(And(b[0] == 0, pt.IsInfinity()), "one byte is the identity")
		return
	}
	x, y, inf := PCoords(pt)
	Assert(!inf, "finite point")
	Assert(OnCurve(x, y), "satisfies the curve equation")
	Assert(x.Eq(FBytes(b[1:33])), "has the encoded x")
	Assert(eqBytes(x.Bytes(), b[1:33]), "x encoding is canonical")
	if n == 65 {
		Reach("uncompressed")
		Assert(b[0] == 4, "uncompressed tag")
		Assert(eqBytes(y.Bytes(), b[33:]), "has the encoded y")
	} else {
		Assert(Or(b[0] == 2, b[0] == 3, b[0] == 5), "compressed or compact tag")
		if b[0] != 5 {
			Reach("compressed")
			Assert((b[0]&1) == (y.Bytes()[31]&1), "has the encoded parity")
		}
	}
}

// all byte strings of length 0..40 inside a CBOR byte string
func H_cbor() {
	n := Choose("len", Tier(41, 60))
	b := Bytes("b", n)
	var wire []byte
	if n < 24 {
		wire = append([]byte{0x40 + byte(n)}, b...)
	} else {
		wire = append([]byte{0x58, byte(n)}, b...)
	}
	r := &curve.Secp256k1Point{}
	err := r.UnmarshalCBOR(wire)
	Reach("cbor")
	if err != nil {
		return
	}
	Assert(n == 34, "wrong length is rejected")
	Assert(b[0] == 1, "wrong curve tag is rejected")
	if r.IsInfinity() {
		Assert(allZero(b[1:]), "identity only from zero bytes")
		return
	}
	Reach("accept")
	named(r, b[1:])
}

// all byte strings of each length 0..66: the encoding container
func H_container() {
	n := Choose("len", 67)
	b := Bytes("b", n)
	e, err := curve.Encode.FromBytes(b)
	Reach("container")
	if err != nil {
		if n == 33 {
			Assert(And(b[0] != 2, b[0] != 3, b[0] != 5), "compressed container accepted")
		}
		if n == 65 {
			Assert(b[0] != 4, "uncompressed container accepted")
		}
		return
	}
	Assert(n == 1 || n == 33 || n == 65, "length")
	Assert(eqBytes(e.AsBytes(), b), "bytes are kept")
	Assert(e.Len() == n, "length is kept")
	if n == 65 {
		Assert(eqBytes(e.X(), b[1:33]), "x part")
		Assert(eqBytes(e.Y(), b[33:]), "y part")
		c := e.Compress().AsBytes()
		Assert(len(c) == 33, "compressed length")
		Assert(eqBytes(c[1:], b[1:33]), "compressed x")
		Assert(c[0] == 2+b[64]&1, "compressed tag holds the parity")
	}
	if n == 33 {
		Assert(eqBytes(e.X(), b[1:33]), "x part")
		Assert(e.Y() == nil, "no y part")
	}
	if n > 0 {
		b[0] ^= 1
		Assert(e.AsBytes()[0] != b[0], "container does not share its input")
	}
}
