// Package c23: signature shares verify exactly when they match the signer's openings.
package c23

import (
	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/sign"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/oracle"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/sigctx"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
)

type share = sign.ThresholdEcdsaSigShareInternal

// opening makes a Pedersen opening (kind 0), a pointer to one (1), a plain opening (2), a pointer to one (3) or nil (4)
func opening(kind int, v [2]S) poly.CommitmentOpening {
	switch kind {
	case 0:
		return poly.PedersenCommitmentOpening{MkScalar(v[0]), MkScalar(v[1])}
	case 1:
		return &poly.PedersenCommitmentOpening{MkScalar(v[0]), MkScalar(v[1])}
	case 2:
		return poly.SimpleCommitmentOpening{MkScalar(v[0])}
	case 3:
		return &poly.SimpleCommitmentOpening{MkScalar(v[0])}
	}
	return nil
}

func pair(name string) [2]S { return [2]S{NewS(name), NewS(name + "m")} }

func commit(v [2]S) P { return G().Mul(v[0]).Add(H().Mul(v[1])) }

// openedAt makes a transcript (sum or interpolation) of n points with the value p at signer i
func openedAt(name string, n int, i int, p P, sum bool) *dealings.IDkgTranscriptInternal {
	q := Ps(name, n)
	rest := Inf()
	for k := n - 1; k > 0; k-- {
		rest = rest.Add(q[k]).Mul(Node(i))
	}
	q[0] = p.Sub(rest)
	return Transcript(true, sum, q)
}

func combo(v Values, l, kl, xl [2]S) (nu, mu [2]S) {
	for i := range nu {
		nu[i] = v.Theta.Mul(l[i]).Add(v.Rho.Mul(xl[i]))
		mu[i] = v.Randomizer.Mul(l[i]).Add(kl[i])
	}
	return
}

func is(o poly.CommitmentOpening, v [2]S) bool {
	p, ok := o.(poly.PedersenCommitmentOpening)
	return ok && And(SVal(p[0]).Eq(v[0]), SVal(p[1]).Eq(v[1]))
}

// every context (any key, presignature, 32-byte message, path of 0..1 indices, randomness of 0 or 2 bytes): the values the
// shares are computed from are the tweak of the path, a randomizer, the rerandomised presignature and its x coordinate
func H_rho() {
	c := NewContext("", 1+Choose("n", 2))
	if c.Key.Compressed()[0] == 2 {
		Reach("even")
	}
	v := c.Values()
	rho, tweak, r, pre, err := sign.DeriveRho(curve.K256, c.Msg, c.Rand, DPath(c.Path), c.KeyT, c.PreT)
	Reach("rho")
	Assert(err == nil, "no error")
	Assert(SVal(tweak).Eq(v.Tweak), "tweak")
	Assert(SVal(r).Eq(v.Randomizer), "randomizer")
	Assert(PVal(pre).Eq(v.R), "rerandomised presignature")
	Assert(SVal(rho).Eq(v.Rho), "its x coordinate")
	Assert(And(PVal(c.KeyT.ConstantTerm()).Eq(c.Key), PVal(c.PreT.ConstantTerm()).Eq(c.Pre)), "transcripts unchanged")
}

// two contexts: the randomizers are equal exactly when randomness, message, presignature and tweak are
func H_randomizer() {
	Generic()
	a, b := NewContext("", 1), NewContext("'", 1)
	va, vb := a.Values(), b.Values()
	_, _, ra, _, err := sign.DeriveRho(curve.K256, a.Msg, a.Rand, DPath(a.Path), a.KeyT, a.PreT)
	Assert(err == nil, "no error")
	_, _, rb, _, err := sign.DeriveRho(curve.K256, b.Msg, b.Rand, DPath(b.Path), b.KeyT, b.PreT)
	Assert(err == nil, "no error")
	Reach("randomizer")
	same := len(a.Rand) == len(b.Rand)
	if same {
		same = And(EqBytes(a.Rand, b.Rand), EqBytes(a.Msg, b.Msg), a.Pre.Eq(b.Pre), va.Tweak.Eq(vb.Tweak))
	}
	Assert(Iff(SVal(ra).Eq(SVal(rb)), same), "randomizers equal exactly for equal inputs")
}

// every context, arbitrary openings (values or pointers), signers 0, 6 and 2^31-1 and transcripts of 1..2 points (sums or
// interpolations) that the openings open, or that are shifted by arbitrary points: the share has the right numerator and
// denominator and verifies exactly when the shifts cancel in both combinations
func H_share() {
	Generic()
	c := NewContext("", 1)
	i := []int{0, 6, 1<<31 - 1}[Choose("signer", 3)]
	n, sum := 1+Choose("n", 2), Choose("sum", 2) == 1
	l, kl, xl := pair("l"), pair("kl"), pair("xl")
	v := c.Values()
	k := Choose("ptr", 2)
	s, err := sign.NewThresholdEcdsaSigShareInternal(DPath(c.Path), c.Msg, c.Rand, c.KeyT, c.PreT, opening(k, l), opening(k, kl), opening(k, xl), curve.K256)
	Assert(err == nil, "a share")
	if err != nil {
		return
	}
	Reach("share")
	nu, mu := combo(v, l, kl, xl)
	Assert(is(GetF(s, "sigmaNumerator", 0).(poly.CommitmentOpening), nu), "numerator")
	Assert(is(GetF(s, "sigmaDenominator", 1).(poly.CommitmentOpening), mu), "denominator")
	d := []P{Inf(), Inf(), Inf()}
	if Choose("shift", 2) == 1 {
		d = Ps("d", 3)
	}
	lt, klt, xlt := openedAt("lt", n, i, commit(l).Add(d[0]), sum), openedAt("klt", n, i, commit(kl).Add(d[1]), !sum), openedAt("xlt", n, i, commit(xl).Add(d[2]), sum)
	err = s.Verify(DPath(c.Path), c.Msg, c.Rand, common.NodeIndex(i), c.KeyT, c.PreT, lt, klt, xlt, curve.K256)
	Assert(Iff(err == nil, And(d[0].Mul(v.Theta).Add(d[2].Mul(v.Rho)).IsInf(), d[0].Mul(v.Randomizer).Add(d[1]).IsInf())), "verifies exactly when it opens both combinations")
}

// arbitrary shares (Pedersen openings, plain ones or pointers to them, or none) against transcripts of 1..2 arbitrary points
// at signers 0 and 9: verification succeeds exactly when numerator and denominator are Pedersen openings of the
// combinations, whose values may be shifted
func H_arbitrary() {
	Generic()
	c := NewContext("", 1)
	i := 9 * Choose("signer", 2)
	n, sum := 1+Choose("n", 2), Choose("sum", 2) == 1
	v := c.Values()
	kinds := []int{0, 2, 3, 4}
	kn, kd := kinds[Choose("numerator", 4)], kinds[Choose("denominator", 4)]
	a, b := pair("a"), pair("b")
	l, kl, xl := NewP("l"), NewP("kl"), NewP("xl")
	if kn == 0 && kd == 0 {
		l, kl, xl = P0("l'"), P0("kl'"), P0("xl'")
	}
	s := &share{}
	SetF(s, "sigmaNumerator", 0, opening(kn, a))
	SetF(s, "sigmaDenominator", 1, opening(kd, b))
	if Choose("fit", 2) == 1 && kn == 0 && kd == 0 {
		// transcripts the share fits, apart from a shift of one of its scalars
		Reach("fitted")
		kl = commit(b).Sub(l.Mul(v.Randomizer))
		xl = NewP("xl'")
		Assume(v.Rho.Mul(v.Rho.Inv()).Eq(SInt(1)))
		xl = commit(a).Sub(l.Mul(v.Theta)).Mul(v.Rho.Inv())
		e := NewS("e")
		switch Choose("part", 4) {
		case 0:
			a[0] = a[0].Add(e)
		case 1:
			a[1] = a[1].Add(e)
		case 2:
			b[0] = b[0].Add(e)
		case 3:
			b[1] = b[1].Add(e)
		}
		SetF(s, "sigmaNumerator", 0, opening(kn, a))
		SetF(s, "sigmaDenominator", 1, opening(kd, b))
	}
	err := s.Verify(DPath(c.Path), c.Msg, c.Rand, common.NodeIndex(i), c.KeyT, c.PreT, openedAt("lt", n, i, l, sum), openedAt("klt", n, i, kl, sum), openedAt("xlt", n, i, xl, !sum), curve.K256)
	Reach("arbitrary")
	ok := false
	if kn == 0 && kd == 0 {
		ok = And(commit(a).Eq(l.Mul(v.Theta).Add(xl.Mul(v.Rho))), commit(b).Eq(l.Mul(v.Randomizer).Add(kl)))
	}
	Assert(Iff(err == nil, ok), "verifies exactly when it opens both combinations")
}

// openings of the wrong kind or missing, and presignature transcripts of the wrong kind: an error, never a panic
func H_kinds() {
	Generic()
	c := NewContext("", 1)
	c.Values()
	k := []int{Choose("l", 5), Choose("kl", 5), Choose("xl", 5)}
	v := pair("v")
	pre := Choose("pre", 4)
	if pre > 0 {
		c.PreT = Transcript(pre != 1, pre != 2, []P{c.Pre})
	}
	Reach("kinds")
	_, err := sign.NewThresholdEcdsaSigShareInternal(DPath(c.Path), c.Msg, c.Rand, c.KeyT, c.PreT, opening(k[0], v), opening(k[1], v), opening(k[2], v), curve.K256)
	Assert(Iff(err == nil, k[0] < 2 && k[1] < 2 && k[2] < 2 && pre == 0), "an error exactly for wrong kinds")
	s := &share{}
	SetF(s, "sigmaNumerator", 0, opening(0, v))
	SetF(s, "sigmaDenominator", 1, opening(0, v))
	if pre > 0 {
		t := Transcript(true, true, []P{c.Pre})
		Assert(s.Verify(DPath(c.Path), c.Msg, c.Rand, 1, c.KeyT, c.PreT, t, t, t, curve.K256) != nil, "rejected")
	}
}
