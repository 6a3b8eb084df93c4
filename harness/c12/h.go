// Package c12: commitments bind polynomials and accept exactly the right openings.
package c12

import (
	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/poly"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/oracle"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
)

func at(c []S, i int) S {
	if i < len(c) {
		return c[i]
	}
	return SInt(0)
}

// fits: no nonzero coefficient at or beyond position n
func fits(c []S, n int) bool {
	r := true
	for i := n; i < len(c); i++ {
		r = And(r, c[i].IsZero())
	}
	return r
}

func valsP(p []curve.EccPoint) []P {
	r := make([]P, len(p))
	for i := range r {
		r[i] = PVal(p[i])
	}
	return r
}

// all coefficients; polynomial lengths 0..4, commitment sizes 1..4 (thorough 6)
func H_createSimple() {
	c := Ss("c", Choose("len", Tier(5, 7)))
	n := 1 + Choose("num", Tier(4, 6))
	p := Poly(c)
	m, err := poly.SimpleCM.Create(p, n)
	Reach("create")
	Assert(Iff(err == nil, fits(c, n)), "error exactly when a coefficient does not fit")
	if err != nil {
		return
	}
	Assert(m.Len() == n && len(m.Points()) == n, "one point per coefficient")
	for i := 0; i < n; i++ {
		Assert(PVal(m.Points()[i]).Eq(G().Mul(at(c, i))), "point commits to the coefficient")
	}
	Assert(m.Type() == poly.Simple && m.CurveType() == curve.K256, "kind and curve")
	Assert(PVal(m.ConstantTerm()).Eq(G().Mul(at(c, 0))), "constant term")
	Assert(EqS(Coeffs(p, len(c)), c), "polynomial unchanged")
}

// all coefficients; polynomial lengths 0..3, commitment sizes 1..3 (thorough 4)
func H_createPedersen() {
	c := Ss("c", Choose("len", Tier(4, 5)))
	d := Ss("d", Choose("lenm", Tier(4, 5)))
	n := 1 + Choose("num", Tier(3, 4))
	p, q := Poly(c), Poly(d)
	m, err := poly.PedersenCM.Create(p, q, n)
	Reach("create")
	Assert(Iff(err == nil, And(fits(c, n), fits(d, n))), "error exactly when a coefficient does not fit")
	if err != nil {
		return
	}
	Assert(m.Len() == n && len(m.Points()) == n, "one point per coefficient")
	for i := 0; i < n; i++ {
		Assert(PVal(m.Points()[i]).Eq(G().Mul(at(c, i)).Add(H().Mul(at(d, i)))), "point commits to both coefficients")
	}
	Assert(m.Type() == poly.Pedersen && m.CurveType() == curve.K256, "kind and curve")
	Assert(PVal(m.ConstantTerm()).Eq(G().Mul(at(c, 0)).Add(H().Mul(at(d, 0)))), "constant term")
	Assert(EqS(Coeffs(p, len(c)), c) && EqS(Coeffs(q, len(d)), d), "polynomials unchanged")
}

func commitment(kind int, pts []P) poly.PolynomialCommitment {
	if kind == 0 {
		return poly.SimpleCM.New(Points(pts))
	}
	return poly.PedersenCM.New(Points(pts))
}

// opening of the kind, as a value or as a pointer (the form decoding gives)
func opening(kind int, v, m S, ptr bool) poly.CommitmentOpening {
	if kind == 0 {
		o := poly.SimpleCommitmentOpening{MkScalar(v)}
		if ptr {
			return &o
		}
		return o
	}
	o := poly.PedersenCommitmentOpening{MkScalar(v), MkScalar(m)}
	if ptr {
		return &o
	}
	return o
}

func openingVals(o poly.CommitmentOpening) (k int, v, m S) {
	switch x := o.(type) {
	case poly.SimpleCommitmentOpening:
		return 0, SVal(x[0]), SInt(0)
	case *poly.SimpleCommitmentOpening:
		return 0, SVal(x[0]), SInt(0)
	case poly.PedersenCommitmentOpening:
		return 1, SVal(x[0]), SVal(x[1])
	case *poly.PedersenCommitmentOpening:
		return 1, SVal(x[0]), SVal(x[1])
	}
	return 2, SInt(0), SInt(0)
}

func opened(kind int, v, m S) P {
	if kind == 0 {
		return G().Mul(v)
	}
	return G().Mul(v).Add(H().Mul(m))
}

// all points and openings; 1..3 points; node indices 0..7 (thorough 0..31); both kinds; openings of either kind
//
//verif:paths=6000
func H_open() {
	Generic()
	kind, ok := Choose("kind", 2), Choose("openingKind", 2)
	pts := Ps("p", 1+Choose("n", 3))
	i := Int("i", 0, Tier(8, 32)-1)
	v, m := NewS("v"), NewS("m")
	c := commitment(kind, pts)
	o := opening(ok, v, m, Choose("ptr", 2) == 1)
	ev := EvalP(pts, Node(i))
	good := And(kind == ok, ev.Eq(opened(ok, v, m)))
	r := c.CheckOpening(common.NodeIndex(i), o)
	Reach("open")
	Assert(Iff(r, good), "accepted exactly when it opens the commitment")
	x, err := c.ReturnOpeningIfConsistent(common.NodeIndex(i), o)
	Assert(Iff(err == nil, good), "returned exactly when it opens the commitment")
	if err == nil {
		Reach("good")
		k2, v2, m2 := openingVals(x)
		Assert(And(k2 == ok, v2.Eq(v), Or(ok == 0, m2.Eq(m))), "the opening itself is returned")
	}
	Assert(EqP(valsP(c.Points()), pts), "commitment unchanged")
}

// all points; 1..4 points; node indices 0..15 (thorough 0..63); both kinds
//
//verif:paths=3000
func H_evaluate() {
	Generic()
	pts := Ps("p", 1+Choose("n", 4))
	i := Int("i", 0, Tier(16, 64)-1)
	c := commitment(Choose("kind", 2), pts)
	e := c.EvaluateAt(common.NodeIndex(i))
	Reach("eval")
	Assert(PVal(e).Eq(EvalP(pts, Node(i))), "evaluation in the exponent")
	Assert(EqP(valsP(c.Points()), pts), "commitment unchanged")
	e.AddPoints(e, e)
	t := c.ConstantTerm()
	t.AddPoints(t, e)
	Assert(EqP(valsP(c.Points()), pts), "results do not share state with the commitment")
}

// all polynomials; the values at a node open the commitment; lengths 1..3; node indices 0..7 and some large ones
//
//verif:paths=3000
func H_honest() {
	Generic()
	kind := Choose("kind", 2)
	n := 1 + Choose("n", 3)
	c, d := Ss("c", n), Ss("d", n)
	idx := []int{0, 1, 2, 3, 4, 5, 6, 7, 100, 65535, 4294967294}
	i := idx[Choose("i", len(idx))]
	var cm poly.PolynomialCommitment
	var err error
	if kind == 0 {
		cm, err = poly.SimpleCM.Create(Poly(c), n)
	} else {
		cm, err = poly.PedersenCM.Create(Poly(c), Poly(d), n)
	}
	Assert(err == nil, "created")
	v := Poly(c).EvaluateAt(curve.Scalar.FromNodeIndex(curve.K256, common.NodeIndex(i)))
	m := Poly(d).EvaluateAt(curve.Scalar.FromNodeIndex(curve.K256, common.NodeIndex(i)))
	Reach("honest")
	Assert(cm.CheckOpening(common.NodeIndex(i), opening(kind, SVal(v), SVal(m), false)), "values of the polynomials are accepted")
	w := NewS("w")
	if kind == 0 {
		Assert(Iff(cm.CheckOpening(common.NodeIndex(i), opening(0, w, w, false)), w.Eq(SVal(v))), "any other value is rejected")
	}
}

// all points; 1..3 points each, both kinds each
func H_equal() {
	a, b := Ps("a", 1+Choose("la", 3)), Ps("b", 1+Choose("lb", 3))
	ka, kb := Choose("ka", 2), Choose("kb", 2)
	x, y := commitment(ka, a), commitment(kb, b)
	e := x.Equal(y)
	Reach("equal")
	Assert(Iff(e == 1, And(ka == kb, EqP(a, b))), "equal exactly when kind and points agree")
	Assert(e == 0 || e == 1, "0 or 1")
	for k := 0; k < 2; k++ {
		t := []poly.PolynomialCommitmentType{poly.Simple, poly.Pedersen}[k]
		Assert((x.VerifyIs(t, curve.K256) == nil) == (k == ka), "kind check")
		Assert(x.VerifyIs(t, curve.EccCurveType(2)) != nil, "curve check")
	}
}

// all points; representations of different commitments differ; 1..3 points each
func H_stable() {
	Generic()
	a, b := Ps("a", 1+Choose("la", 3)), Ps("b", 1+Choose("lb", 3))
	ka, kb := Choose("ka", 2), Choose("kb", 2)
	x, y := commitment(ka, a), commitment(kb, b)
	r, s := x.StableRepresentation(), y.StableRepresentation()
	Reach("stable")
	Assert(Iff(EqBytes(r, s), And(ka == kb, EqP(a, b))), "representations are equal exactly for equal commitments")
	Assert(len(r) == 2+33*len(a), "length")
	c := x.Clone()
	Assert(c.Equal(x) == 1, "clone is equal")
	c.Points()[0].AddPoints(c.Points()[0], MkPoint(G()))
	Assert(EqP(valsP(x.Points()), a), "clone shares no state")
}
