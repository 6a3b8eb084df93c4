// Package c24: combined signatures are valid low-s ECDSA signatures.
package c24

import (
	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/sign"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/oracle"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/sigctx"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
	"github.com/tidwall/btree"
)

type shares = btree.Map[common.NodeIndex, *sign.ThresholdEcdsaSigShareInternal]

func mkshare(nu, mu [2]S) *sign.ThresholdEcdsaSigShareInternal {
	s := &sign.ThresholdEcdsaSigShareInternal{}
	SetF(s, "sigmaNumerator", 0, poly.PedersenCommitmentOpening{MkScalar(nu[0]), MkScalar(nu[1])})
	SetF(s, "sigmaDenominator", 1, poly.PedersenCommitmentOpening{MkScalar(mu[0]), MkScalar(mu[1])})
	return s
}

// high holds for scalars above half of the group order
func high(s S) bool { return MkScalar(s).IsHigh() }

// signature components as they should be
func lowS(s S) S {
	if high(s) {
		return s.Neg()
	}
	return s
}

var signers = []common.NodeIndex{4, 0, 1 << 20, 7}

func combine(c *Context, t int, m *shares) (*sign.ThresholdEcdsaCombinedSigInternal, error) {
	return sign.NewThresholdEcdsaCombinedSigInternal(DPath(c.Path), c.Msg, c.Rand, c.KeyT, c.PreT, t, m, curve.K256)
}

func verify(c *Context, s *sign.ThresholdEcdsaCombinedSigInternal) error {
	return s.Verify(DPath(c.Path), c.Msg, c.Rand, c.KeyT, c.PreT, curve.K256)
}

// valid says whether (r, s) satisfies the ECDSA equation for a point of which x is the discrete logarithm
func valid(v Values, pk P, r, s S) bool {
	w := s.Inv()
	p := G().Mul(v.E.Mul(w)).Add(pk.Mul(r.Mul(w)))
	return Or(p.Eq(v.R), p.Eq(v.R.Neg()))
}

// every context (key, presignature, 32-byte message, path of 0..1 indices, randomness of 0 or 2 bytes), thresholds 1..3 and
// shares of 0..4 signers (fixed indices) on arbitrary polynomials of degree below the threshold: fewer shares than the
// threshold give an error; otherwise r is the x coordinate of the rerandomised presignature and s is the quotient of the
// secrets, negated if in the upper half
func H_combine() {
	Generic()
	c := NewContext("", 1)
	v := c.Values()
	t := 1 + Choose("t", 3)
	n := Choose("n", Tier(4, 5))
	f, g := Ss("nu", t), Ss("mu", t)
	var m shares
	for i := 0; i < n; i++ {
		x := Node(int(signers[i]))
		m.Set(signers[i], mkshare([2]S{Eval(f, x), NewS("mask")}, [2]S{Eval(g, x), NewS("mask")}))
	}
	s, err := combine(c, t, &m)
	Reach("combine")
	if n < t {
		Assert(err != nil, "fewer shares than the threshold")
		return
	}
	Assert(err == nil, "a signature")
	if err != nil {
		return
	}
	Reach("combined")
	Assert(SVal(s.R).Eq(v.Rho), "r")
	Assert(SVal(s.S).Eq(lowS(f[0].Mul(g[0].Inv()))), "s")
	Assert(Not(high(SVal(s.S))), "low")
}

// 1..2 shares of arbitrary different signers (below 2^31), threshold 1..2
//
//verif:contract
func H_signers() {
	Generic()
	c := NewContext("", 1)
	v := c.Values()
	t := 1 + Choose("t", 2)
	n := t + Choose("more", 2)
	if n > 2 {
		return
	}
	f, g := Ss("nu", t), Ss("mu", t)
	var m shares
	ix := make([]int, n)
	for i := range ix {
		ix[i] = Int("signer", 0, 1<<31-1)
		for j := 0; j < i; j++ {
			Assume(ix[i] != ix[j])
		}
		x := Node(ix[i])
		m.Set(common.NodeIndex(ix[i]), mkshare([2]S{Eval(f, x), NewS("mask")}, [2]S{Eval(g, x), NewS("mask")}))
	}
	s, err := combine(c, t, &m)
	Assert(err == nil, "a signature")
	if err != nil {
		return
	}
	Reach("signers")
	Assert(SVal(s.R).Eq(v.Rho), "r")
	Assert(SVal(s.S).Eq(lowS(f[0].Mul(g[0].Inv()))), "s")
}

// every context with key and presignature of arbitrary discrete logarithms x and k and every lambda: the signature from the
// shares of the combination (theta*lambda + rho*x*lambda, randomizer*lambda + k*lambda) verifies, unless r or s is zero or
// the presignature is lost (thresholds 1..2)
func H_valid() {
	Generic()
	x, k, l := NewS("x"), NewS("k"), NewS("l")
	c := NewContext("", 1)
	c.Key, c.Pre = G().Mul(x), G().Mul(k)
	Assume(Not(x.IsZero()))
	Assume(Not(k.IsZero()))
	Assume(Not(l.IsZero()))
	c.Wrap(1)
	v := c.Values()
	Assume(Not(v.R.IsInf()))
	t := 1 + Choose("t", 2)
	f, g := Ss("nu", t), Ss("mu", t)
	f[0] = v.Theta.Add(v.Rho.Mul(x)).Mul(l)
	g[0] = v.Randomizer.Add(k).Mul(l)
	Assume(Not(v.Rho.IsZero()))
	Assume(Not(f[0].IsZero()))
	Assume(Not(g[0].IsZero()))
	var m shares
	for i := 0; i < t; i++ {
		y := Node(int(signers[i]))
		m.Set(signers[i], mkshare([2]S{Eval(f, y), NewS("mask")}, [2]S{Eval(g, y), NewS("mask")}))
	}
	s, err := combine(c, t, &m)
	Assert(err == nil, "a signature")
	if err != nil {
		return
	}
	Reach("valid")
	Assert(verify(c, s) == nil, "the signature verifies")
	r, q := SVal(s.R), SVal(s.S)
	Assert(valid(v, G().Mul(x.Add(v.Tweak)), r, q), "it satisfies the ECDSA equation")
}

// every context and every pair (r, s), arbitrary or made from the signing equation with arbitrary alterations: accepted
// exactly when r is the x coordinate of the presignature, both are nonzero, s is low, and the ECDSA equation holds for the
// derived key
func H_verify() {
	Generic()
	x, k := NewS("x"), NewS("k")
	c := NewContext("", 1)
	c.Key, c.Pre = G().Mul(x), G().Mul(k)
	Assume(Not(x.IsZero()))
	Assume(Not(k.IsZero()))
	c.Wrap(1 + Choose("n", 2))
	v := c.Values()
	Assume(Not(v.R.IsInf()))
	pk := x.Add(v.Tweak)
	r, s := NewS("r"), NewS("s")
	what := Choose("what", 6)
	if what != 0 {
		r = v.Rho
		d := v.Randomizer.Add(k)
		s = v.E.Add(v.Rho.Mul(pk)).Mul(d.Inv())
		switch what {
		case 2:
			s = s.Neg()
		case 3:
			r = r.Add(NewS("e"))
		case 4:
			s = s.Add(NewS("e"))
		case 5:
			s = SInt(0)
		}
		Reach("made")
	}
	sig := &sign.ThresholdEcdsaCombinedSigInternal{R: MkScalar(r), S: MkScalar(s)}
	err := verify(c, sig)
	Reach("verify")
	ok := And(Not(r.IsZero()), Not(s.IsZero()), r.Eq(v.Rho), Not(high(s)), valid(v, G().Mul(pk), r, s))
	Assert(Iff(err == nil, ok), "accepted exactly for a valid signature")
	Assert(And(SVal(sig.R).Eq(r), SVal(sig.S).Eq(s)), "signature unchanged")
}
