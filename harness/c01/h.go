// Package c01: scalar arithmetic is exact arithmetic modulo the group order.
package c01

import (
	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
)

// all scalars; every receiver/operand aliasing
func H_ring() {
	a, b := NewS("a"), NewS("b")
	recv := []curve.EccScalar{MkScalar(NewS("r")), nil, nil}
	op := Choose("op", 3)
	al := Choose("alias", 3)
	x, y := MkScalar(a), MkScalar(b)
	recv[1], recv[2] = x, y
	r := recv[al]
	var out curve.EccScalar
	var want S
	switch op {
	case 0:
		out, want = r.Add(x, y), a.Add(b)
	case 1:
		out, want = r.Sub(x, y), a.Sub(b)
	case 2:
		out, want = r.Mul(x, y), a.Mul(b)
	}
	Reach("ring")
	Assert(SVal(out).Eq(want), "result is the exact residue")
	Assert(SVal(r).Eq(want), "receiver holds the result")
	if al != 1 {
		Assert(SVal(x).Eq(a), "left operand unchanged")
	}
	if al != 2 {
		Assert(SVal(y).Eq(b), "right operand unchanged")
	}
	Observe("out", out.Serialize())
}

// all scalars
func H_high() {
	a := NewS("a")
	x := MkScalar(a)
	hi := x.IsHigh()
	half := SHex("7FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF5D576E7357A4501DDFE92F46681B20A0")
	Reach("high")
	Assert(Iff(hi, x.BigInt().Cmp(MkScalar(half).BigInt()) > 0), "high iff above half the order")
}

// all nonzero scalars; receiver distinct from or equal to the operand
func H_invert() {
	a := NewS("a")
	Assume(!a.IsZero())
	x := MkScalar(a)
	r := MkScalar(NewS("r"))
	if Choose("alias", 2) == 1 {
		r = x
	}
	out := r.Invert(x)
	Reach("invert")
	Assert(SVal(out).Mul(a).Eq(SInt(1)), "inverse times value is one")
	Assert(SVal(r).Eq(SVal(out)), "receiver holds the result")
	if r != x {
		Assert(SVal(x).Eq(a), "operand unchanged")
	}
	Observe("out", out.Serialize())
}

// all scalars; receiver distinct from or equal to the operand
func H_unary() {
	a := NewS("a")
	x := MkScalar(a)
	r := MkScalar(NewS("r"))
	if Choose("alias", 2) == 1 {
		r = x
	}
	var out curve.EccScalar
	want := a
	switch Choose("op", 3) {
	case 0:
		out, want = r.Negate(x), a.Neg()
	case 1:
		out = r.Assign(x)
	case 2:
		out = x.Clone()
		r = out
	}
	Reach("unary")
	Assert(SVal(out).Eq(want), "result is exact")
	Assert(SVal(r).Eq(want), "receiver holds the result")
	if r != x {
		Assert(SVal(x).Eq(a), "operand unchanged")
		// the copy is independent of the source
		out.Add(out, curve.Scalar.One(curve.K256))
		Assert(SVal(x).Eq(a), "changing the result leaves the operand unchanged")
		Assert(SVal(out).Eq(want.Add(SInt(1))), "result can be changed")
	}
	Observe("out", out.Serialize())
}

// all pairs of scalars
func H_compare() {
	a, b := NewS("a"), NewS("b")
	x, y := MkScalar(a), MkScalar(b)
	e, z := x.Equal(y), x.IsZero()
	Reach("compare")
	Assert(e == 0 || e == 1, "Equal returns 0 or 1")
	Assert(Iff(e == 1, a.Eq(b)), "Equal agrees with the values")
	Assert(Iff(z == 1, a.IsZero()), "IsZero agrees with the value")
	Assert(z == 0 || z == 1, "IsZero returns 0 or 1")
	n := x.BigInt()
	Assert(n.Sign() >= 0 && n.Cmp(curve.GroupOrder) < 0, "integer is canonical")
	buf := make([]byte, 32)
	Assert(SBytes(n.FillBytes(buf)).Eq(a), "integer equals the value")
	Assert(SVal(x).Eq(a) && SVal(y).Eq(b), "operands unchanged")
	Assert(x.CurveType() == curve.K256, "curve type")
}

// all 64-bit integers, all node indices below 2^32
func H_integers() {
	n := U64("n")
	s := curve.Scalar.FromUint64(curve.K256, n)
	Assert(SVal(s).Eq(SInt(n)), "scalar of an integer")
	i := U32("i")
	t := curve.Scalar.FromNodeIndex(curve.K256, common.NodeIndex(i))
	Assert(SVal(t).Eq(SInt(uint64(i)).Add(SInt(1))), "scalar of a node index is the index plus one")
	Assert(SVal(curve.Scalar.Zero(curve.K256)).IsZero(), "zero")
	Assert(SVal(curve.Scalar.One(curve.K256)).Eq(SInt(1)), "one")
	Reach("ints")
}

// all triples of scalars: a short program of operations reusing one receiver
func H_program() {
	a, b, c := NewS("a"), NewS("b"), NewS("c")
	x, y, z := MkScalar(a), MkScalar(b), MkScalar(c)
	x.Mul(x, y)
	x.Add(x, z)
	x.Mul(x, x)
	x.Sub(y, x)
	x.Negate(x)
	Reach("program")
	t := a.Mul(b).Add(c)
	Assert(SVal(x).Eq(t.Mul(t).Sub(b)), "sequence of in-place operations is exact")
	Assert(SVal(y).Eq(b) && SVal(z).Eq(c), "other operands unchanged")
}
