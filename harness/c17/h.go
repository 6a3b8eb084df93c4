// Package c17: honest dealings of every kind are created and pass verification.
package c17

import (
	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/seed"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/oracle"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
)

const (
	random = iota
	unmasked
	masked
	product
)

type setup struct {
	sk   []S
	keys []*mega.MEGaPublicKey
	d    common.NodeIndex
	ad   []byte
}

func mk(n int) setup {
	s := setup{sk: Ss("sk", n)}
	for i := range s.sk {
		s.keys = append(s.keys, mega.NewMEGaPrivateKey(MkScalar(s.sk[i])).PublicKey())
	}
	s.d = common.NodeIndex(U32("dealer"))
	s.ad = Bytes("ad", Choose("adlen", 2)*2)
	return s
}

func simple(f []S) *poly.SimpleCommitment {
	p := make([]P, len(f))
	for i := range f {
		p[i] = G().Mul(f[i])
	}
	return poly.SimpleCM.New(Points(p))
}

func pedersen(f, g []S) *poly.PedersenCommitment {
	p := make([]P, len(f))
	for i := range f {
		p[i] = G().Mul(f[i]).Add(H().Mul(g[i]))
	}
	return poly.PedersenCM.New(Points(p))
}

// wrap gives the commitment as it is or inside the transcript commitment it comes from
func wrap(c poly.PolynomialCommitment, how int) poly.PolynomialCommitment {
	switch how {
	case 1:
		return &dealings.InterpolationCommitment{PolynomialCommitment: c}
	case 2:
		return &dealings.SummationCommitment{PolynomialCommitment: c}
	}
	return c
}

// open decrypts the shares of all recipients
func open(dl *dealings.IDkgDealingInternal, s setup) [][2]S {
	var r [][2]S
	for i := range s.sk {
		sk := mega.NewMEGaPrivateKey(MkScalar(s.sk[i]))
		o, err := dealings.CommitmentOpening.OpenDealing(dl, s.ad, s.d, common.NodeIndex(i), sk, s.keys[i])
		Assert(err == nil, "share opens")
		if err != nil {
			return nil
		}
		switch x := o.(type) {
		case poly.SimpleCommitmentOpening:
			r = append(r, [2]S{SVal(x[0]), SInt(0)})
		case poly.PedersenCommitmentOpening:
			r = append(r, [2]S{SVal(x[0]), SVal(x[1])})
		default:
			Assert(false, "kind of opening")
			return nil
		}
	}
	return r
}

// verify checks everything common to the kinds and returns the constants of the shared polynomials, interpolated from
// the first t shares
func verify(dl *dealings.IDkgDealingInternal, s setup, t int, op dealings.IDkgTranscriptOperationInternal, pedersen bool) (c [2]S, ok bool) {
	n := len(s.sk)
	Assert(dl.Commitment.Len() == t, "as many coefficients as the threshold")
	Assert((dl.Commitment.Type() == poly.Pedersen) == pedersen, "kind of commitment")
	Assert(dl.Ciphertext.Recipients() == n, "as many shares as recipients")
	Assert(dl.PubliclyVerify(curve.K256, op, t, s.d, n, s.ad) == nil, "publicly verifiable")
	for i := range s.sk {
		sk := mega.NewMEGaPrivateKey(MkScalar(s.sk[i]))
		Assert(dl.PrivateVerify(curve.K256, sk, s.keys[i], s.ad, s.d, common.NodeIndex(i)) == nil, "privately verifiable")
	}
	o := open(dl, s)
	if len(o) != n {
		return c, false
	}
	xs := make([]S, t)
	for i := range xs {
		xs[i] = Node(i)
	}
	at := func(k int, v S) S {
		r := SInt(0)
		for i := 0; i < t; i++ {
			r = r.Add(LagrangeCoeff(xs, i, v).Mul(o[i][k]))
		}
		return r
	}
	for k := 0; k < 2; k++ {
		for i := t; i < n; i++ {
			Assert(at(k, Node(i)).Eq(o[i][k]), "the shares are on a polynomial of degree below the threshold")
		}
		c[k] = at(k, SInt(0))
	}
	p := G().Mul(c[0])
	if pedersen {
		p = p.Add(H().Mul(c[1]))
	}
	Assert(PVal(dl.Commitment.ConstantTerm()).Eq(p), "the constant term commits to the shared value")
	return c, true
}

// thresholds 1..3 with up to 3 recipients (arbitrary keys), any seed, any dealer below 2^32, associated data of 0 or 2
// bytes; random secrets
//
//verif:contract
func H_random() {
	Generic()
	t := 1 + Choose("t", 3)
	n := t + Choose("n", 4-t)
	s := mk(n)
	dl, err := dealings.NewIDkgDealingInternal(&dealings.RandomSecret{}, curve.K256, seed.FromBytes(Bytes("seed", 32)), t, s.keys, s.d, s.ad)
	Reach("random")
	Assert(err == nil, "dealing is created")
	if err != nil {
		return
	}
	Assert(dl.Proof == nil, "no proof")
	verify(dl, s, t, &dealings.RandomTranscript{}, true)
}

// as H_random; resharing of a secret with a simple commitment: the previous commitment has 1..2 arbitrary coefficients
// (as it is or inside a transcript's commitment), the secret is its value for the dealer
//
//verif:contract
func H_unmasked() {
	Generic()
	t := 1 + Choose("t", 3)
	n := t + Choose("n", 4-t)
	s := mk(n)
	f := Ss("f", 1+Choose("prev", 2))
	prev := simple(f)
	x := Eval(f, Node(int(s.d)))
	dl, err := dealings.NewIDkgDealingInternal(&dealings.ReshareOfUnmaskedSecret{S1: MkScalar(x)}, curve.K256, seed.FromBytes(Bytes("seed", 32)), t, s.keys, s.d, s.ad)
	Reach("unmasked")
	Assert(err == nil, "dealing is created")
	if err != nil {
		return
	}
	Assert(dl.Proof == nil, "no proof")
	c, ok := verify(dl, s, t, &dealings.ReshareOfUnmaskedTranscript{P1: wrap(prev, Choose("wrap", 2))}, false)
	if ok {
		Assert(c[0].Eq(x), "the shared value is the secret")
	}
}

// as H_unmasked for a Pedersen commitment: the dealing carries a proof
//
//verif:contract
func H_masked() {
	Generic()
	t := 1 + Choose("t", 3)
	n := t + Choose("n", 4-t)
	s := mk(n)
	k := 1 + Choose("prev", 2)
	f, g := Ss("f", k), Ss("g", k)
	prev := pedersen(f, g)
	x, m := Eval(f, Node(int(s.d))), Eval(g, Node(int(s.d)))
	dl, err := dealings.NewIDkgDealingInternal(&dealings.ReshareOfMaskedSecret{S1: MkScalar(x), S2: MkScalar(m)}, curve.K256, seed.FromBytes(Bytes("seed", 32)), t, s.keys, s.d, s.ad)
	Reach("masked")
	Assert(err == nil, "dealing is created")
	if err != nil {
		return
	}
	Assert(dl.Proof != nil && dl.Proof.Type() == dealings.ProofOfMaskedResharing, "resharing proof")
	c, ok := verify(dl, s, t, &dealings.ReshareOfMaskedTranscript{P1: wrap(prev, 2*Choose("wrap", 2))}, false)
	if ok {
		Assert(c[0].Eq(x), "the shared value is the secret")
	}
}

// products of values shared with a simple and a Pedersen commitment (1..2 coefficients each)
//
//verif:contract
func H_product() {
	Generic()
	t := 1 + Choose("t", Tier(2, 3))
	n := t + Choose("n", 4-t)
	s := mk(n)
	k, l := 1+Choose("left", 2), 1+Choose("right", 2)
	a, f, g := Ss("a", k), Ss("f", l), Ss("g", l)
	left, right := simple(a), pedersen(f, g)
	at := Node(int(s.d))
	x, y, m := Eval(a, at), Eval(f, at), Eval(g, at)
	dl, err := dealings.NewIDkgDealingInternal(&dealings.UnmaskedTimesMaskedSecret{Left: MkScalar(x), Right: [2]curve.EccScalar{MkScalar(y), MkScalar(m)}}, curve.K256, seed.FromBytes(Bytes("seed", 32)), t, s.keys, s.d, s.ad)
	Reach("product")
	Assert(err == nil, "dealing is created")
	if err != nil {
		return
	}
	Assert(dl.Proof != nil && dl.Proof.Type() == dealings.ProofOfProduct, "product proof")
	w := Choose("wrap", 2)
	c, ok := verify(dl, s, t, &dealings.UnmaskedTimesMaskedTranscript{Left: wrap(left, w), Right: wrap(right, 2*w)}, true)
	if ok {
		Assert(c[0].Eq(x.Mul(y)), "the shared value is the product")
	}
}

func scalarsOf(dl *dealings.IDkgDealingInternal, s setup, t int) [2][]S {
	o := open(dl, s)
	var r [2][]S
	xs := make([]S, t)
	for i := range xs {
		xs[i] = Node(i)
	}
	for k := range r {
		c := SInt(0)
		for i := 0; i < t; i++ {
			c = c.Add(LagrangeCoeff(xs, i, SInt(0)).Mul(o[i][k]))
			r[k] = append(r[k], o[i][k])
		}
		r[k] = append(r[k], c)
	}
	return r
}

// two fixed seeds, arbitrary keys and secrets: equal seeds give equal dealings; values and masks, and the two dealings,
// share no share and no constant (beyond the secret itself)
func H_seeds() {
	Generic()
	kind, t := Choose("kind", 4), 2
	s := mk(2)
	x, y, m := NewS("x"), NewS("y"), NewS("m")
	var sh dealings.SecretShares
	switch kind {
	case random:
		sh = &dealings.RandomSecret{}
	case unmasked:
		sh = &dealings.ReshareOfUnmaskedSecret{S1: MkScalar(x)}
	case masked:
		sh = &dealings.ReshareOfMaskedSecret{S1: MkScalar(x), S2: MkScalar(m)}
	case product:
		sh = &dealings.UnmaskedTimesMaskedSecret{Left: MkScalar(x), Right: [2]curve.EccScalar{MkScalar(y), MkScalar(m)}}
	}
	var r [3][2][]S
	var e [3]P
	for i, b := range []byte{7, 7, 8} {
		dl, err := dealings.NewIDkgDealingInternal(sh, curve.K256, seed.FromBytes([]byte{b, 1, 2}), t, s.keys, s.d, s.ad)
		Assert(err == nil, "dealing is created")
		if err != nil {
			return
		}
		r[i] = scalarsOf(dl, s, t)
		e[i] = PVal(dl.Ciphertext.Ephemeral())
	}
	Reach("seeds")
	Assert(And(EqS(r[0][0], r[1][0]), EqS(r[0][1], r[1][1]), e[0].Eq(e[1])), "equal seeds give equal dealings")
	Assert(Not(e[0].Eq(e[2])), "ephemeral keys of different seeds differ")
	slope := func(v []S) S { return v[1].Sub(v[0]) }
	Assert(Not(slope(r[0][0]).Eq(slope(r[2][0]))), "values of different seeds differ")
	if kind == random {
		Assert(Not(r[0][0][2].Eq(r[2][0][2])), "secrets of different seeds differ")
		Assert(Not(r[0][0][2].Eq(r[0][1][2])), "value and mask differ")
	}
	if kind == product || kind == random {
		Assert(Not(slope(r[0][1]).Eq(slope(r[2][1]))), "masks of different seeds differ")
		Assert(Not(slope(r[0][0]).Eq(slope(r[0][1]))), "value and mask differ")
		Assert(Not(r[0][1][2].Eq(r[2][1][2])), "masks of different seeds differ")
		Assert(Not(r[0][1][2].Eq(slope(r[0][1]))), "mask coefficients differ")
		Assert(Not(r[0][1][2].Eq(slope(r[0][0]))), "mask and value coefficients differ")
	}
}

// thresholds -1..3 for 0..2 recipients, every kind of secret and things that are none: created exactly for thresholds
// between 1 and the number of recipients
func H_invalid() {
	Generic()
	n, t := Choose("n", 3), Choose("t", 5)-1
	s := mk(n)
	var sh dealings.SecretShares
	k := Choose("kind", 6)
	switch k {
	case random:
		sh = &dealings.RandomSecret{}
	case unmasked:
		sh = &dealings.ReshareOfUnmaskedSecret{S1: MkScalar(NewS("x"))}
	case masked:
		sh = &dealings.ReshareOfMaskedSecret{S1: MkScalar(NewS("x")), S2: MkScalar(NewS("m"))}
	case product:
		sh = &dealings.UnmaskedTimesMaskedSecret{Left: MkScalar(NewS("x")), Right: [2]curve.EccScalar{MkScalar(NewS("y")), MkScalar(NewS("m"))}}
	case 4:
		sh = "no secret"
	}
	dl, err := dealings.NewIDkgDealingInternal(sh, curve.K256, seed.FromBytes(Bytes("seed", 2)), t, s.keys, s.d, s.ad)
	Reach("invalid")
	Assert(Iff(err == nil, t >= 1 && t <= n && k < 4), "created exactly for valid thresholds and secrets")
	Assert(Iff(err == nil, dl != nil), "a dealing exactly without error")
}

// openings of either kind or none in either position: the secret for the matching kind, with exactly these scalars, or an error
func H_from() {
	x, a, b := NewS("x"), NewS("a"), NewS("b")
	mkb := func(k int) poly.CommitmentOpeningBytes {
		switch k {
		case 1:
			return poly.SimpleCommitmentOpening{MkScalar(x)}.ToCommitmentOpeningBytes()
		case 2:
			return poly.PedersenCommitmentOpening{MkScalar(a), MkScalar(b)}.ToCommitmentOpeningBytes()
		}
		return nil
	}
	i, j := Choose("first", 3), Choose("second", 3)
	sh, err := dealings.Secret.From(mkb(i), mkb(j))
	Reach("from")
	switch v := sh.(type) {
	case *dealings.ReshareOfUnmaskedSecret:
		Assert(And(err == nil, i == 1, j == 0, SVal(v.S1).Eq(x)), "resharing of an unmasked value")
	case *dealings.ReshareOfMaskedSecret:
		Assert(And(err == nil, i == 2, j == 0, SVal(v.S1).Eq(a), SVal(v.S2).Eq(b)), "resharing of a masked value")
	case *dealings.UnmaskedTimesMaskedSecret:
		Assert(And(err == nil, i == 1, j == 2, SVal(v.Left).Eq(x), SVal(v.Right[0]).Eq(a), SVal(v.Right[1]).Eq(b)), "product")
	default:
		Assert(err != nil, "no secret without an error")
		Assert(!(i == 1 && j == 0) && !(i == 2 && j == 0) && !(i == 1 && j == 2), "valid combinations are accepted")
	}
}
