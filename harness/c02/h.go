// Package c02: scalar encodings are canonical and round trip.
package c02

import (
	"github.com/PlatONnetwork/tecdsa/curve"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
)

const order = "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141"

func eqBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = And(r, a[i] == b[i])
	}
	return r
}

// big-endian comparison with the group order, without forking
func belowOrder(b []byte) bool {
	o := SHexBytes(order)
	lt, eq := false, true
	for i := range b {
		lt = Or(lt, And(eq, b[i] < o[i]))
		eq = And(eq, b[i] == o[i])
	}
	return lt
}

func SHexBytes(h string) []byte {
	out := make([]byte, 0, len(h)/2)
	v := func(c byte) byte {
		if c >= 'A' {
			return c - 'A' + 10
		}
		return c - '0'
	}
	for i := 0; i < len(h); i += 2 {
		out = append(out, v(h[i])<<4|v(h[i+1]))
	}
	return out
}

// all scalars
func H_roundtrip() {
	a := NewS("a")
	x := MkScalar(a)
	b := x.Serialize()
	t := x.SerializeTagged()
	Reach("rt")
	Assert(len(b) == 32, "32 bytes")
	Assert(eqBytes(b, a.Bytes()), "big-endian value")
	Assert(len(t) == 33, "33 tagged bytes")
	Assert(t[0] == 1, "curve tag first")
	Assert(eqBytes(t[1:], b), "tagged body is the plain form")
	y, err := curve.Scalar.Deserialize(curve.K256, b)
	Assert(err == nil, "plain form decodes")
	Assert(SVal(y).Eq(a), "plain form decodes to the value")
	z, err := curve.Scalar.DeserializeTagged(t)
	Assert(err == nil, "tagged form decodes")
	Assert(SVal(z).Eq(a), "tagged form decodes to the value")
	sb := curve.Scalar.ToScalarBytes(x)
	Assert(sb != nil, "byte form exists")
	Assert(eqBytes(sb.ScalarBytes(), b), "byte form holds the value")
	Assert(SVal(sb.ToScalar()).Eq(a), "byte form converts back")
	Assert(SVal(x).Eq(a), "encoding leaves the scalar unchanged")
	Observe("b", b)
}

// all byte strings of each length 0..36 (quick) or 0..70 (thorough)
func H_decode() {
	n := Choose("len", Tier(37, 71))
	b := Bytes("b", n)
	y, err := curve.Scalar.Deserialize(curve.K256, b)
	Reach("decode")
	if n != 32 {
		Assert(err != nil, "wrong length is rejected")
		Assert(y == nil, "no value with an error")
		return
	}
	Assert(Iff(err == nil, belowOrder(b)), "accepted exactly when below the order")
	if err == nil {
		Assert(SVal(y).Eq(SBytes(b)), "decoded value")
	} else {
		Assert(y == nil, "no value with an error")
	}
}

// all byte strings of each length 0..37 (quick) or 0..70 (thorough)
func H_decodeTagged() {
	n := Choose("len", Tier(38, 71))
	b := Bytes("b", n)
	y, err := curve.Scalar.DeserializeTagged(b)
	Reach("decode")
	if n != 33 {
		Assert(err != nil, "wrong length is rejected")
		return
	}
	Assert(Iff(err == nil, And(b[0] == 1, belowOrder(b[1:]))), "accepted exactly for tag 1 and a value below the order")
	if err == nil {
		Assert(SVal(y).Eq(SBytes(b[1:])), "decoded value")
	}
}

// all byte strings of each length 0..66 (quick) or 0..80 (thorough)
func H_wide() {
	n := Choose("len", Tier(67, 81))
	b := Bytes("b", n)
	y, err := curve.Scalar.FromBytesWide(curve.K256, b)
	Reach("wide")
	if n > 64 {
		Assert(err != nil, "more than 64 bytes are rejected")
		return
	}
	Assert(err == nil, "up to 64 bytes are accepted")
	Assert(SVal(y).Eq(SBytes(b)), "value reduced modulo the order")
	Observe("y", y.Serialize())
}

// all scalars, and all byte strings of length 0..40 inside a CBOR byte string
func H_cbor() {
	a := NewS("a")
	x := MkScalar(a).(*curve.Secp256k1Scalar)
	enc, err := x.MarshalCBOR()
	Assert(err == nil, "encodes")
	r := &curve.Secp256k1Scalar{}
	Assert(r.UnmarshalCBOR(enc) == nil, "decodes")
	Assert(SVal(r).Eq(a), "CBOR round trip")
	n := Choose("len", Tier(41, 60))
	b := Bytes("b", n)
	var wire []byte
	if n < 24 {
		wire = append([]byte{0x40 + byte(n)}, b...)
	} else {
		wire = append([]byte{0x58, byte(n)}, b...)
	}
	s := &curve.Secp256k1Scalar{}
	e := s.UnmarshalCBOR(wire)
	Reach("cbor")
	if n != 33 {
		Assert(e != nil, "wrong length is rejected")
		return
	}
	Assert(Iff(e == nil, And(b[0] == 1, belowOrder(b[1:]))), "accepted exactly for tag 1 and a value below the order")
	if e == nil {
		Assert(SVal(s).Eq(SBytes(b[1:])), "decoded value")
	}
}

// CBOR messages of other kinds or with missing content
func H_cborGarbage() {
	msgs := [][]byte{{}, {0x00}, {0x18}, {0x20}, {0x40}, {0x41}, {0x58}, {0x58, 0x21}, {0x58, 0x21, 1}, {0x60}, {0x61, 0x41}, {0x80}, {0x81, 0x01}, {0xa0}, {0xc0}, {0xf4}, {0xf6}, {0xf7}, {0xff}}
	b := msgs[Choose("msg", len(msgs))]
	s := &curve.Secp256k1Scalar{}
	e := s.UnmarshalCBOR(b)
	Reach("garbage")
	Assert(e != nil, "not a scalar")
}
