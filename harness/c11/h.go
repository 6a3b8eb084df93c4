// Package c11: Lagrange interpolation recovers the polynomial value at any position.
package c11

import (
	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/poly"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/oracle"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
)

// nodes makes n symbolic node indices below 2^31
func nodes(n int) ([]common.NodeIndex, []S, bool) {
	ix := make([]common.NodeIndex, n)
	xs := make([]S, n)
	distinct := true
	for i := range ix {
		v := Int("i", 0, 1<<31-1)
		ix[i] = common.NodeIndex(v)
		xs[i] = Node(v)
		for j := 0; j < i; j++ {
			distinct = And(distinct, ix[j] != ix[i])
		}
	}
	return ix, xs, distinct
}

func copyIx(ix []common.NodeIndex) []common.NodeIndex {
	return append([]common.NodeIndex{}, ix...)
}

func sameIx(a, b []common.NodeIndex) bool {
	r := len(a) == len(b)
	for i := range a {
		r = And(r, a[i] == b[i])
	}
	return r
}

// all polynomials of degree below the node count, all values, 1..4 (thorough 1..5) symbolic nodes, scalars
func H_scalar() {
	n := 1 + Choose("n", Tier(4, 5))
	ix, xs, distinct := nodes(n)
	c, v := Ss("c", n), NewS("v")
	vs := MkScalar(v)
	before := copyIx(ix)
	l, err := poly.Lagrange.AtValue(vs, ix)
	Reach("at")
	Assert(Iff(err == nil, distinct), "error exactly for repeated nodes")
	Assert(SVal(vs).Eq(v), "position unchanged")
	Assert(sameIx(before, ix), "nodes unchanged")
	if err != nil {
		return
	}
	ys := make([]curve.EccScalar, n)
	for i := range ys {
		ys[i] = MkScalar(Eval(c, xs[i]))
	}
	r, err := l.InterpolateScalar(ys)
	Assert(err == nil, "interpolation succeeds")
	Reach("ok")
	Assert(SVal(r).Eq(Eval(c, v)), "value at the position")
	for i := range ys {
		Assert(SVal(ys[i]).Eq(Eval(c, xs[i])), "samples unchanged")
	}
	r2, err := l.InterpolateScalar(ys)
	Assert(err == nil && SVal(r2).Eq(Eval(c, v)), "coefficients can be used again")
	_, err = l.InterpolateScalar(ys[1:])
	Assert(err != nil, "too few samples are rejected")
	_, err = l.InterpolateScalar(append(ys, ys[0]))
	Assert(err != nil, "too many samples are rejected")
}

// all points, 1..4 (thorough 1..5) symbolic nodes, value zero
func H_pointAtZero() {
	n := 1 + Choose("n", Tier(4, 5))
	ix, xs, distinct := nodes(n)
	c := Ps("c", n)
	l, err := poly.Lagrange.AtZero(curve.K256, ix)
	Reach("at")
	Assert(Iff(err == nil, distinct), "error exactly for repeated nodes")
	if err != nil {
		return
	}
	ys := make([]curve.EccPoint, n)
	for i := range ys {
		ys[i] = MkPoint(EvalP(c, xs[i]))
	}
	r, err := l.InterpolatePoint(ys)
	Assert(err == nil, "interpolation succeeds")
	Reach("ok")
	Assert(PVal(r).Eq(c[0]), "constant of the polynomial")
	for i := range ys {
		Assert(PVal(ys[i]).Eq(EvalP(c, xs[i])), "samples unchanged")
	}
	_, err = l.InterpolatePoint(ys[1:])
	Assert(err != nil, "too few samples are rejected")
	_, err = l.InterpolatePoint(append(ys, ys[0]))
	Assert(err != nil, "too many samples are rejected")
}

// every order of 4 fixed nodes, with gaps, at a symbolic position
func H_fixed() {
	sets := [][]common.NodeIndex{{0, 1, 2, 3}, {3, 2, 1, 0}, {7, 0, 4294967294, 12}, {1, 100, 3, 2}, {5, 0, 9, 2}}
	ix := sets[Choose("set", len(sets))][:1+Choose("n", 4)]
	c, v := Ss("c", len(ix)), NewS("v")
	l, err := poly.Lagrange.AtValue(MkScalar(v), ix)
	Assert(err == nil, "distinct nodes are accepted")
	Reach("ok")
	cs := l.Coefficients()
	Assert(len(cs) == len(ix), "one coefficient per node")
	sum := SInt(0)
	for i := range cs {
		sum = sum.Add(SVal(cs[i]).Mul(Eval(c, Node(int(ix[i])))))
	}
	Assert(sum.Eq(Eval(c, v)), "coefficients reproduce the value at the position")
	m, err := poly.Lagrange.New(cs)
	Assert(err == nil && m.Equal(l) == 1, "same coefficients are equal")
}

// all values: the position may be one of the nodes
func H_atNode() {
	n := 1 + Choose("n", Tier(4, 5))
	ix, xs, distinct := nodes(n)
	Assume(distinct)
	k := Choose("k", n)
	c := Ss("c", n)
	l, err := poly.Lagrange.AtValue(MkScalar(xs[k]), ix)
	Assert(err == nil, "accepted")
	ys := make([]curve.EccScalar, n)
	for i := range ys {
		ys[i] = MkScalar(c[i])
	}
	r, err := l.InterpolateScalar(ys)
	Assert(err == nil, "interpolation succeeds")
	Reach("ok")
	Assert(SVal(r).Eq(c[k]), "the sample at the node itself")
}

// empty inputs
func H_empty() {
	_, err := poly.Lagrange.AtValue(MkScalar(NewS("v")), nil)
	Assert(err != nil, "no nodes")
	_, err = poly.Lagrange.AtZero(curve.K256, []common.NodeIndex{})
	Assert(err != nil, "no nodes")
	_, err = poly.Lagrange.New(nil)
	Assert(err != nil, "no coefficients")
	a, b := Ss("a", 1+Choose("na", 3)), Ss("b", 1+Choose("nb", 3))
	x, _ := poly.Lagrange.New(Scalars(a))
	y, _ := poly.Lagrange.New(Scalars(b))
	Assert(Iff(x.Equal(y) == 1, EqS(a, b)), "equality of coefficient lists")
	Reach("empty")
}
