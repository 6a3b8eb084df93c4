// Package c04: point operations implement the group law.
package c04

import (
	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
)

// all pairs of points (identity, equal and opposite included); every receiver/operand aliasing
func H_addsub() {
	a, b := NewP("a"), NewP("b")
	x, y := MkPoint(a), MkPoint(b)
	recv := []curve.EccPoint{MkPoint(NewP("r")), x, y}
	al := Choose("alias", 3)
	r := recv[al]
	var out curve.EccPoint
	var want P
	if Choose("op", 2) == 0 {
		out, want = r.AddPoints(x, y), a.Add(b)
	} else {
		out, want = r.SubPoints(x, y), a.Sub(b)
	}
	Reach("addsub")
	Assert(PVal(out).Eq(want), "result is the group operation")
	Assert(PVal(r).Eq(want), "receiver holds the result")
	if al != 1 {
		Assert(PVal(x).Eq(a), "left operand unchanged")
	}
	if al != 2 {
		Assert(PVal(y).Eq(b), "right operand unchanged")
	}
	Observe("out", out.Serialize())
}

// all points: x+x and x-x with operands that are the same object
func H_same() {
	a := NewP("a")
	x := MkPoint(a)
	r := MkPoint(NewP("r"))
	if Choose("alias", 2) == 1 {
		r = x
	}
	var out curve.EccPoint
	var want P
	switch Choose("op", 3) {
	case 0:
		out, want = r.AddPoints(x, x), a.Add(a)
	case 1:
		out, want = r.SubPoints(x, x), Inf()
	case 2:
		out, want = r.Double(x), a.Add(a)
	}
	Reach("same")
	Assert(PVal(out).Eq(want), "result is the group operation")
	Assert(PVal(r).Eq(want), "receiver holds the result")
	if r != x {
		Assert(PVal(x).Eq(a), "operand unchanged")
	}
	Observe("out", out.Serialize())
}

// all points and scalars; receiver distinct from or equal to the operand
func H_mul() {
	a, k := NewP("a"), NewS("k")
	x, s := MkPoint(a), MkScalar(k)
	r := MkPoint(NewP("r"))
	if Choose("alias", 2) == 1 {
		r = x
	}
	out := r.ScalarMul(x, s)
	Reach("mul")
	Assert(PVal(out).Eq(a.Mul(k)), "scalar multiple")
	Assert(PVal(r).Eq(a.Mul(k)), "receiver holds the result")
	if r != x {
		Assert(PVal(x).Eq(a), "point unchanged")
	}
	Assert(SVal(s).Eq(k), "scalar unchanged")
	Observe("out", out.Serialize())
}

// all points and scalars; receiver distinct from or equal to an operand
func H_lincomb() {
	a, b, k, l := NewP("a"), NewP("b"), NewS("k"), NewS("l")
	x, y, s, t := MkPoint(a), MkPoint(b), MkScalar(k), MkScalar(l)
	want := a.Mul(k).Add(b.Mul(l))
	al := Choose("form", 5)
	var out curve.EccPoint
	switch al {
	case 0:
		out = curve.Point.MulPoints(x, s, y, t)
	case 1:
		out = curve.K256Point.NewK256().LinComb(x, s, y, t)
	case 2:
		out = MkPoint(NewP("r")).(*curve.Secp256k1Point).LinComb(x, s, y, t)
	case 3:
		out = x.(*curve.Secp256k1Point).LinComb(x, s, y, t)
	case 4:
		out = y.(*curve.Secp256k1Point).LinComb(x, s, y, t)
	}
	Reach("lincomb")
	Assert(PVal(out).Eq(want), "linear combination")
	if al != 3 {
		Assert(PVal(x).Eq(a), "first point unchanged")
	}
	if al != 4 {
		Assert(PVal(y).Eq(b), "second point unchanged")
	}
	Assert(SVal(s).Eq(k) && SVal(t).Eq(l), "scalars unchanged")
	Observe("out", out.Serialize())
}

// all scalars
func H_generators() {
	k, l := NewS("k"), NewS("l")
	s, t := MkScalar(k), MkScalar(l)
	g := curve.Point.GeneratorG(curve.K256)
	Assert(PVal(g).Eq(G()), "standard generator")
	h := curve.Point.GeneratorH(curve.K256)
	hv := PVal(h)
	Assert(eqHex(hv.Compressed()), "second generator")
	Assert(PVal(curve.Point.Identity(curve.K256)).IsInf(), "identity")
	Assert(PVal(curve.Point.MulByG(s)).Eq(G().Mul(k)), "multiple of the generator")
	pd := curve.Point.Pedersen(s, t)
	Assert(PVal(pd).Eq(G().Mul(k).Add(hv.Mul(l))), "Pedersen map")
	Assert(SVal(s).Eq(k) && SVal(t).Eq(l), "scalars unchanged")
	// generators are fresh values each time
	g.AddPoints(g, h)
	h.AddPoints(h, h)
	Assert(PVal(curve.Point.GeneratorG(curve.K256)).Eq(G()), "generator is not shared state")
	Assert(PVal(curve.Point.GeneratorH(curve.K256)).Eq(hv), "second generator is not shared state")
	Reach("gen")
	Observe("pd", pd.Serialize())
}

func eqHex(b []byte) bool {
	want := "037bdcfc024cf697a41fd3cda2436c843af5669e50042be3314a532d5b70572f59"
	const d = "0123456789abcdef"
	r := len(b) == 33
	for i, c := range b {
		r = r && want[2*i] == d[c>>4] && want[2*i+1] == d[c&15]
	}
	return r
}

// all points; node indices below 2^6 (thorough 2^9)
//
//verif:paths=3000
func H_nodeindex() {
	a := NewP("a")
	i := Int("i", 0, Tier(1<<6, 1<<9)-1)
	x := MkPoint(a)
	out := x.MulByNodeIndex(common.NodeIndex(i))
	Reach("node")
	Assert(PVal(out).Eq(a.Mul(SInt(uint64(i)+1))), "multiple by the index plus one")
	Assert(PVal(x).Eq(a), "operand unchanged")
}

// all points; node indices 2^k-1, 2^k, 2^k+1 for k up to 31
func H_nodeindexLarge() {
	a := NewP("a")
	k := Choose("k", 32)
	i := uint64(1)<<uint(k) + uint64(Choose("d", 3)) - 1
	x := MkPoint(a)
	out := x.MulByNodeIndex(common.NodeIndex(i))
	Reach("node")
	Assert(PVal(out).Eq(a.Mul(SInt(i+1))), "multiple by the index plus one")
}

// all points: equality, assignment and clones
func H_values() {
	a, b := NewP("a"), NewP("b")
	x, y := MkPoint(a), MkPoint(b)
	e := x.Equal(y)
	Assert(Iff(e == 1, a.Eq(b)), "Equal agrees with the group elements")
	Assert(e == 0 || e == 1, "Equal returns 0 or 1")
	Assert(Iff(x.IsInfinity(), a.IsInf()), "identity test")
	c := x.Clone()
	Assert(PVal(c).Eq(a), "clone has the value")
	d := curve.K256Point.NewK256()
	d.Assign(x)
	Assert(PVal(d).Eq(a), "assignment copies the value")
	c.AddPoints(c, y)
	d.Double(d)
	Assert(PVal(x).Eq(a), "changing a copy leaves the source unchanged")
	x.AddPoints(x, y)
	Assert(PVal(c).Eq(a.Add(b)), "clone computed on its own")
	Assert(PVal(d).Eq(a.Add(a)), "assigned value computed on its own")
	x.Double(x)
	Assert(PVal(c).Eq(a.Add(b)), "changing the source leaves the clone unchanged")
	Assert(PVal(y).Eq(b), "operand unchanged")
	Reach("values")
	Observe("c", c.Serialize())
}

// all points and scalars: a short program of in-place operations
func H_program() {
	a, b, k := NewP("a"), NewP("b"), NewS("k")
	x, y, s := MkPoint(a), MkPoint(b), MkScalar(k)
	x.AddPoints(x, y)
	x.ScalarMul(x, s)
	x.Double(x)
	x.SubPoints(y, x)
	x.SubPoints(x, y)
	Reach("program")
	t := a.Add(b).Mul(k)
	Assert(PVal(x).Eq(t.Add(t).Neg()), "sequence of in-place operations")
	Assert(PVal(y).Eq(b), "operand unchanged")
	Observe("x", x.Serialize())
}
