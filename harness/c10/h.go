// Package c10: polynomial operations agree with polynomial algebra.
package c10

import (
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/poly"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/oracle"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
)

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func at(c []S, i int) S {
	if i < len(c) {
		return c[i]
	}
	return SInt(0)
}

// receivers: a fresh polynomial, one with old content, the left or the right operand
func receiver(l, r *poly.Polynomial) *poly.Polynomial {
	switch Choose("recv", 4) {
	case 0:
		return poly.Poly.Zero(curve.K256)
	case 1:
		return Poly(Ss("old", 1))
	case 2:
		return l
	}
	return r
}

// all coefficients; lengths 0..6 (thorough 0..10) each; every receiver
func H_add() {
	a, b := Ss("a", Choose("la", Tier(7, 11))), Ss("b", Choose("lb", Tier(7, 11)))
	l, r := Poly(a), Poly(b)
	out := receiver(l, r).Add(l, r)
	Reach("add")
	for i := 0; i < max(len(a), len(b))+1; i++ {
		Assert(SVal(out.Coeff(i)).Eq(at(a, i).Add(at(b, i))), "coefficient of the sum")
	}
	unchanged(out, l, r, a, b)
}

func unchanged(out, l, r *poly.Polynomial, a, b []S) {
	if out != l {
		Assert(EqS(Coeffs(l, len(a)), a), "left operand unchanged")
		Assert(SVal(l.Coeff(len(a))).IsZero(), "left operand unchanged")
	}
	if out != r {
		Assert(EqS(Coeffs(r, len(b)), b), "right operand unchanged")
		Assert(SVal(r.Coeff(len(b))).IsZero(), "right operand unchanged")
	}
}

// all coefficients; lengths 0..6 (thorough 0..10) each; every receiver
func H_mul() {
	a, b := Ss("a", Choose("la", Tier(7, 11))), Ss("b", Choose("lb", Tier(7, 11)))
	l, r := Poly(a), Poly(b)
	out := receiver(l, r).Mul(l, r)
	Reach("mul")
	for k := 0; k < len(a)+len(b)+1; k++ {
		want := SInt(0)
		for i := 0; i <= k; i++ {
			want = want.Add(at(a, i).Mul(at(b, k-i)))
		}
		Assert(SVal(out.Coeff(k)).Eq(want), "coefficient of the product")
	}
	unchanged(out, l, r, a, b)
}

// all coefficients; lengths 0..9 (thorough 0..16); every receiver
func H_mulScalar() {
	a, k := Ss("a", Choose("la", Tier(10, 17))), NewS("k")
	l, s := Poly(a), MkScalar(k)
	out := receiver(l, Poly(Ss("other", 1))).MulScalar(l, s)
	Reach("scale")
	for i := 0; i < len(a)+1; i++ {
		Assert(SVal(out.Coeff(i)).Eq(at(a, i).Mul(k)), "coefficient of the multiple")
	}
	if out != l {
		Assert(EqS(Coeffs(l, len(a)), a), "operand unchanged")
	}
	Assert(SVal(s).Eq(k), "scalar unchanged")
}

// all coefficients and positions; lengths 0..12 (thorough 0..25)
func H_eval() {
	a, x := Ss("a", Choose("la", Tier(13, 26))), NewS("x")
	p, xs := Poly(a), MkScalar(x)
	v := p.EvaluateAt(xs)
	Reach("eval")
	Assert(SVal(v).Eq(Eval(a, x)), "value of the polynomial")
	Assert(EqS(Coeffs(p, len(a)), a), "polynomial unchanged")
	Assert(SVal(xs).Eq(x), "position unchanged")
	v.Add(v, xs)
	Assert(EqS(Coeffs(p, len(a)), a), "changing the value leaves the polynomial unchanged")
	c := p.Coeff(0)
	c.Add(c, xs)
	Assert(EqS(Coeffs(p, len(a)), a), "changing a coefficient copy leaves the polynomial unchanged")
	Observe("v", v.Serialize())
}

// all coefficients; lengths 0..6 (thorough 0..10) each
func H_equal() {
	a, b := Ss("a", Choose("la", Tier(7, 11))), Ss("b", Choose("lb", Tier(7, 11)))
	l, r := Poly(a), Poly(b)
	same := true
	for i := 0; i < max(len(a), len(b)); i++ {
		same = And(same, at(a, i).Eq(at(b, i)))
	}
	e := l.Equal(r)
	Reach("equal")
	Assert(Iff(e == 1, same), "equal up to trailing zeros")
	Assert(e == 0 || e == 1, "0 or 1")
}

// all coefficients; lengths 0..8 (thorough 0..13)
func H_degree() {
	a := Ss("a", Choose("la", Tier(9, 14)))
	p := Poly(a)
	n := p.NonZeroCoefficients()
	z := p.IsZero()
	Reach("degree")
	zero := true
	for i := range a {
		zero = And(zero, a[i].IsZero())
		if i >= n {
			Assert(a[i].IsZero(), "no coefficient lies beyond the count")
		}
	}
	Assert(Iff(z == 1, zero), "zero test")
	Assert(n >= 0 && n <= len(a), "count within the length")
	if n > 0 {
		Assert(Not(a[n-1].IsZero()), "the last counted coefficient is not zero")
	}
}

// all sample positions and values; 0..4 samples (thorough 0..5)
//
//verif:obl=40
func H_interpolate() {
	n := Choose("n", Tier(5, 6))
	xs, ys := Ss("x", n), Ss("y", n)
	samples := make([][2]curve.EccScalar, n)
	distinct := true
	for i := range samples {
		samples[i] = [2]curve.EccScalar{MkScalar(xs[i]), MkScalar(ys[i])}
		for j := 0; j < i; j++ {
			distinct = And(distinct, Not(xs[i].Eq(xs[j])))
		}
	}
	p, err := poly.Poly.Interpolate(curve.K256, samples)
	Reach("interpolate")
	Assert(Iff(err == nil, distinct), "error exactly for repeated positions")
	if err == nil {
		Reach("ok")
		c := Coeffs(p, n)
		for i := range xs {
			Assert(Eval(c, xs[i]).Eq(ys[i]), "passes through the sample")
		}
		for k := n; k < n+3; k++ {
			Assert(SVal(p.Coeff(k)).IsZero(), "degree below the number of samples")
		}
	}
	for i := range samples {
		Assert(And(SVal(samples[i][0]).Eq(xs[i]), SVal(samples[i][1]).Eq(ys[i])), "samples unchanged")
	}
}

// all values at the fixed distinct positions 5, 2, 9, 1 (0..4 samples)
func H_interpolateFixed() {
	n := Choose("n", 5)
	pos := []uint64{5, 2, 9, 1}
	ys := Ss("y", n)
	samples := make([][2]curve.EccScalar, n)
	for i := range samples {
		samples[i] = [2]curve.EccScalar{MkScalar(SInt(pos[i])), MkScalar(ys[i])}
	}
	p, err := poly.Poly.Interpolate(curve.K256, samples)
	Reach("interpolate")
	Assert(err == nil, "distinct positions are accepted")
	c := Coeffs(p, n)
	for i := range samples {
		Assert(Eval(c, SInt(pos[i])).Eq(ys[i]), "passes through the sample")
	}
	for k := n; k < n+3; k++ {
		Assert(SVal(p.Coeff(k)).IsZero(), "degree below the number of samples")
	}
}

// all polynomials of the given length: samples of a polynomial at fixed positions give it back, extra samples included
func H_interpolateRecover() {
	n := Choose("n", 4)
	c := Ss("c", n)
	m := n + Choose("extra", 3)
	pos := []uint64{3, 1, 4, 15, 9, 2}
	samples := make([][2]curve.EccScalar, m)
	for i := range samples {
		samples[i] = [2]curve.EccScalar{MkScalar(SInt(pos[i])), MkScalar(Eval(c, SInt(pos[i])))}
	}
	p, err := poly.Poly.Interpolate(curve.K256, samples)
	Reach("recover")
	Assert(err == nil, "distinct positions are accepted")
	Assert(EqS(Coeffs(p, n), c), "the polynomial is recovered")
	Assert(p.Equal(Poly(c)) == 1, "equal to the polynomial")
	for k := n; k < m+2; k++ {
		Assert(SVal(p.Coeff(k)).IsZero(), "no further coefficients")
	}
}

type wordRand struct {
	words []S
	i     int
}

func (w *wordRand) FillUint8(b []byte)           { copy(b, w.words[w.i].Bytes()); w.i++ }
func (w *wordRand) Uint32() uint32               { return 0 }
func (w *wordRand) Uint64() uint64               { return 0 }
func (w *wordRand) XORKeyStream(dst, src []byte) {}

// all constants and streams; requested lengths 0..4
func H_randomWithConstant() {
	n := Choose("n", 5)
	k := NewS("k")
	w := &wordRand{words: Ss("w", 4)}
	ks := MkScalar(k)
	p, err := poly.Poly.RandomWithConstant(ks, n, w)
	Reach("random")
	Assert((err == nil) == (n > 0), "error exactly for length zero")
	if err == nil {
		Assert(SVal(p.Coeff(0)).Eq(k), "constant coefficient")
		for i := 1; i < n; i++ {
			Assert(SVal(p.Coeff(i)).Eq(w.words[i-1]), "other coefficients are the next random scalars")
		}
		Assert(SVal(p.Coeff(n)).IsZero(), "no further coefficients")
		Assert(w.i == n-1, "one scalar drawn per random coefficient")
	}
	Assert(SVal(ks).Eq(k), "constant unchanged")
	w.i = 0
	if n < 4 {
		q := poly.Poly.Random(curve.K256, n, w)
		for i := 0; i < n; i++ {
			Assert(SVal(q.Coeff(i)).Eq(w.words[i]), "coefficients are the random scalars")
		}
		Assert(SVal(q.Coeff(n)).IsZero(), "no further coefficients")
	}
}
