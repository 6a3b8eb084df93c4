// Package c25: the whole protocol yields signatures valid under the derived public key.
package c25

import (
	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/sign"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/oracle"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/sigctx"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
	"github.com/tidwall/btree"
)

// net is a set of nodes with arbitrary keys
type net struct {
	n, t int
	sk   []S
	keys []*mega.MEGaPublicKey
	ad   []byte
	next int
}

func newNet(n, t int) *net {
	s := &net{n: n, t: t, sk: Ss("sk", n), ad: Bytes("ad", 2)}
	for i := range s.sk {
		Assume(Not(s.sk[i].IsZero()))
		s.keys = append(s.keys, s.key(i).PublicKey())
	}
	return s
}

func (s *net) key(i int) *mega.MEGaPrivateKey { return mega.NewMEGaPrivateKey(MkScalar(s.sk[i])) }

// round is a finished round: the transcript and every node's opening of it
type round struct {
	tr *dealings.IDkgTranscriptInternal
	o  []poly.CommitmentOpening
}

func good(err error, what string) {
	Assert(err == nil, what)
	Assume(err == nil)
}

// run makes the dealings of the dealers, verifies them everywhere, and combines them
func (s *net) run(what string, dealers []int, secret func(i int) dealings.SecretShares, op dealings.IDkgTranscriptOperationInternal) *round {
	var m btree.Map[common.NodeIndex, *dealings.IDkgDealingInternal]
	for _, i := range dealers {
		d, err := dealings.NewIDkgDealingInternal(secret(i), curve.K256, seed.FromBytes(Bytes("seed-"+what, 4)), s.t, s.keys, common.NodeIndex(i), s.ad)
		good(err, what+": dealing made")
		good(d.PubliclyVerify(curve.K256, op, s.t, common.NodeIndex(i), s.n, s.ad), what+": dealing verifies")
		for j := 0; j < s.n; j++ {
			good(d.PrivateVerify(curve.K256, s.key(j), s.keys[j], s.ad, common.NodeIndex(i), common.NodeIndex(j)), what+": dealing verifies privately")
		}
		m.Set(common.NodeIndex(i), d)
	}
	tr, err := dealings.NewTranscriptInternal(curve.K256, s.t, &m, op)
	good(err, what+": transcript made")
	r := &round{tr: tr}
	for j := 0; j < s.n; j++ {
		o, err := dealings.CommitmentOpening.FromDealings(&m, tr.CombinedCommitment, s.ad, common.NodeIndex(j), s.key(j), s.keys[j])
		good(err, what+": share computed")
		r.o = append(r.o, o)
	}
	return r
}

func (s *net) random(what string, dealers []int) *round {
	return s.run(what, dealers, func(int) dealings.SecretShares { return &dealings.RandomSecret{} }, &dealings.RandomTranscript{})
}

// secret is what a node deals from its own openings
func secret(a, b poly.CommitmentOpening) dealings.SecretShares {
	var y poly.CommitmentOpeningBytes
	if b != nil {
		y = b.ToCommitmentOpeningBytes()
	}
	r, err := dealings.Secret.From(a.ToCommitmentOpeningBytes(), y)
	good(err, "secret made from openings")
	return r
}

func (s *net) unmask(what string, dealers []int, r *round) *round {
	return s.run(what, dealers, func(i int) dealings.SecretShares {
		return secret(r.o[i], nil)
	}, &dealings.ReshareOfMaskedTranscript{P1: r.tr.CombinedCommitment})
}

func (s *net) reshare(what string, dealers []int, r *round) *round {
	return s.run(what, dealers, func(i int) dealings.SecretShares {
		return secret(r.o[i], nil)
	}, &dealings.ReshareOfUnmaskedTranscript{P1: r.tr.CombinedCommitment})
}

func (s *net) multiply(what string, dealers []int, l, r *round) *round {
	return s.run(what, dealers, func(i int) dealings.SecretShares {
		return secret(l.o[i], r.o[i])
	}, &dealings.UnmaskedTimesMaskedTranscript{Left: l.tr.CombinedCommitment, Right: r.tr.CombinedCommitment})
}

// constant interpolates the secret from the first t openings there are
func (s *net) constant(r *round, k int) S {
	xs := make([]S, s.t)
	var at []int
	for i, o := range r.o {
		if o != nil && len(at) < s.t {
			xs[len(at)] = Node(i)
			at = append(at, i)
		}
	}
	v := SInt(0)
	for i := 0; i < s.t; i++ {
		c := LagrangeCoeff(xs, i, SInt(0))
		switch o := r.o[at[i]].(type) {
		case poly.SimpleCommitmentOpening:
			v = v.Add(c.Mul(SVal(o[k])))
		case poly.PedersenCommitmentOpening:
			v = v.Add(c.Mul(SVal(o[k])))
		}
	}
	return v
}

func upto(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

// without leaves out node k
func without(n, k int) []int {
	var r []int
	for i := 0; i < n; i++ {
		if i != k {
			r = append(r, i)
		}
	}
	return r
}

// one node with an arbitrary key and seeds runs all rounds and signs an arbitrary 32-byte message under a path of 0..1
// arbitrary four-byte indices
//
//verif:budget=150 nozero nofeas
func H_one() { protocol(1, 1, -1, Choose("steps", 2)) }

// two nodes, threshold 1, with arbitrary keys and seeds, one of which is absent from the rounds that allow it; the key is
// reshared once more; path of one arbitrary index
//
//verif:budget=200 nozero nofeas
func H_two() { protocol(2, 1, Choose("absent", 2), 1) }

// three nodes, threshold 2, with arbitrary keys and seeds, one of which is absent from the rounds that allow it; empty path
//
//verif:budget=240 nozero nofeas
func H_three() { protocol(3, 2, Tier(1, Choose("absent", 3)), 0) }

// protocol runs the rounds among n nodes with threshold t
func protocol(n, t, absent, steps int) {
	Generic()
	s := newNet(n, t)
	some := without(n, absent)
	all := upto(n)
	km := s.random("key", some)
	kx := s.unmask("key unmasked", some, km)
	if n == 2 {
		kx = s.reshare("key reshared", some, kx)
	}
	x := s.constant(km, 0)
	Assert(PVal(kx.tr.ConstantTerm()).Eq(G().Mul(x)), "the public key is the key")
	ka := s.unmask("kappa", some, s.random("kappa masked", all))
	la := s.random("lambda", some)
	kl := s.multiply("kappa times lambda", all, ka, la)
	xl := s.multiply("key times lambda", all, kx, la)
	k, l := s.constant(ka, 0), s.constant(la, 0)
	Assert(s.constant(kl, 0).Eq(k.Mul(l)), "product of kappa and lambda")
	Assert(s.constant(xl, 0).Eq(x.Mul(l)), "product of the key and lambda")
	Assume(Not(x.IsZero()))
	Assume(Not(k.IsZero()))

	c := &Context{Key: G().Mul(x), Pre: G().Mul(k), Msg: Bytes("msg", 32), Rand: Bytes("rand", 2), KeyT: kx.tr, PreT: ka.tr}
	c.Path = make([][]byte, steps)
	for i := range c.Path {
		c.Path[i] = Bytes("idx", 4)
	}
	v := c.Values()
	Assume(Not(v.R.IsInf()))
	num := v.Theta.Add(v.Rho.Mul(x)).Mul(l)
	Assume(Not(v.Rho.IsZero()))
	Assume(Not(num.IsZero()))
	Assume(Not(v.Randomizer.Add(k).Mul(l).IsZero()))
	nums, dens := make([]poly.CommitmentOpening, n), make([]poly.CommitmentOpening, n)
	var shares btree.Map[common.NodeIndex, *sign.ThresholdEcdsaSigShareInternal]
	for _, i := range some {
		sh, err := sign.NewThresholdEcdsaSigShareInternal(DPath(c.Path), c.Msg, c.Rand, c.KeyT, c.PreT, la.o[i], kl.o[i], xl.o[i], curve.K256)
		good(err, "signature share made")
		good(sh.Verify(DPath(c.Path), c.Msg, c.Rand, common.NodeIndex(i), c.KeyT, c.PreT, la.tr, kl.tr, xl.tr, curve.K256), "signature share verifies")
		nums[i] = GetF(sh, "sigmaNumerator", 0).(poly.CommitmentOpening)
		dens[i] = GetF(sh, "sigmaDenominator", 1).(poly.CommitmentOpening)
		shares.Set(common.NodeIndex(i), sh)
	}
	sig, err := sign.NewThresholdEcdsaCombinedSigInternal(DPath(c.Path), c.Msg, c.Rand, c.KeyT, c.PreT, t, &shares, curve.K256)
	good(err, "signature made")
	Reach("signed")
	Assert(SVal(sig.R).Eq(v.R.XS()), "r is the x coordinate")
	// the shares lie on polynomials whose constant terms have (e + r*q)*lambda and nonce*lambda: by C24, the combination of such
	// shares is the low s of the valid signature with secret key q = x + tweak and nonce = kappa + randomizer
	Assert(s.constant(&round{o: nums}, 0).Eq(num), "numerators")
	Assert(s.constant(&round{o: dens}, 0).Eq(v.Randomizer.Add(k).Mul(l)), "denominators")
}
