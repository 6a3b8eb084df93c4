// Package oracle holds reference computations shared by the harnesses.
package oracle

import (
	"bytes"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/poly"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
)

// Ss makes n symbolic scalars
func Ss(name string, n int) []S {
	r := make([]S, n)
	for i := range r {
		r[i] = NewS(name)
	}
	return r
}

// Ps makes n symbolic points
func Ps(name string, n int) []P {
	r := make([]P, n)
	for i := range r {
		r[i] = NewP(name)
	}
	return r
}

func Scalars(s []S) []curve.EccScalar {
	r := make([]curve.EccScalar, len(s))
	for i := range r {
		r[i] = MkScalar(s[i])
	}
	return r
}

func Points(s []P) []curve.EccPoint {
	r := make([]curve.EccPoint, len(s))
	for i := range r {
		r[i] = MkPoint(s[i])
	}
	return r
}

func Poly(s []S) *poly.Polynomial { return poly.Poly.New(curve.K256, Scalars(s)) }

// Coeffs reads n coefficients of a polynomial
func Coeffs(p *poly.Polynomial, n int) []S {
	r := make([]S, n)
	for i := range r {
		r[i] = SVal(p.Coeff(i))
	}
	return r
}

func Eval(c []S, x S) S {
	r := SInt(0)
	for i := len(c) - 1; i >= 0; i-- {
		r = r.Mul(x).Add(c[i])
	}
	return r
}

func EvalP(c []P, x S) P {
	r := Inf()
	for i := len(c) - 1; i >= 0; i-- {
		r = r.Mul(x).Add(c[i])
	}
	return r
}

func EqS(a, b []S) bool {
	r := len(a) == len(b)
	for i := range a {
		if i < len(b) {
			r = And(r, a[i].Eq(b[i]))
		}
	}
	return r
}

func EqP(a, b []P) bool {
	r := len(a) == len(b)
	for i := range a {
		if i < len(b) {
			r = And(r, a[i].Eq(b[i]))
		}
	}
	return r
}

func EqBytes(a, b []byte) bool { return bytes.Equal(a, b) }

// H is the second generator
func H() P { return PVal(curve.Point.GeneratorH(curve.K256)) }

// Node is the evaluation position of a node index
func Node(i int) S { return SInt(uint64(i) + 1) }

// LagrangeCoeff is the textbook coefficient of position i at value v
func LagrangeCoeff(xs []S, i int, v S) S {
	num, den := SInt(1), SInt(1)
	for j := range xs {
		if j != i {
			num = num.Mul(v.Sub(xs[j]))
			den = den.Mul(xs[i].Sub(xs[j]))
		}
	}
	return num.Mul(den.Inv())
}

// P0 is an arbitrary point, the identity included also where symbolic points are assumed to be others
func P0(name string) P {
	if Choose(name+"=identity", 2) == 1 {
		return Inf()
	}
	return NewP(name)
}
