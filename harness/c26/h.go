// Package c26: operations never alter their inputs or share mutable state with their results.
package c26

import (
	"crypto"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/complaints"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/key"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/rand"
	"github.com/PlatONnetwork/tecdsa/ro"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/sign"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/oracle"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/sigctx"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
	"github.com/PlatONnetwork/tecdsa/zk"
	"github.com/tidwall/btree"
)

// parts are the mutable pieces a value consists of
type parts struct {
	s []curve.EccScalar
	p []curve.EccPoint
	f []curve.EccFieldElement
	b [][]byte
	n []common.NodeIndex
}

// contents are the values of the pieces at one moment
type contents struct {
	s []S
	p []P
	f []F
	b [][]byte
	n []common.NodeIndex
}

func (r *parts) fields(v interface{}, names ...string) {
	for i, n := range names {
		r.add(GetF(v, n, i))
	}
}

// add collects the pieces of a value
func (r *parts) add(v interface{}) {
	switch x := v.(type) {
	case nil:
	case error, bool, int, string, poly.PolynomialCommitmentType:
	case []interface{}:
		for _, y := range x {
			r.add(y)
		}
	case curve.EccScalar:
		r.s = append(r.s, x)
	case curve.EccPoint:
		r.p = append(r.p, x)
	case curve.EccFieldElement:
		r.f = append(r.f, x)
	case []byte:
		if len(x) > 0 {
			r.b = append(r.b, x)
		}
	case []curve.EccScalar:
		r.s = append(r.s, x...)
	case []curve.EccPoint:
		r.p = append(r.p, x...)
	case [2]curve.EccScalar:
		r.s = append(r.s, x[0], x[1])
	case [][2]curve.EccScalar:
		for _, y := range x {
			r.s = append(r.s, y[0], y[1])
		}
	case []common.NodeIndex:
		r.n = append(r.n, x...)
	case *poly.Polynomial:
		r.add(GetF(x, "coefficients", 1))
	case *poly.LagrangeCoefficients:
		r.add(x.Coefficients())
	case poly.PolynomialCommitment:
		r.add(x.Points())
	case *dealings.IDkgTranscriptInternal:
		r.add(x.CombinedCommitment)
	case poly.SimpleCommitmentOpening:
		r.s = append(r.s, x[0])
	case poly.PedersenCommitmentOpening:
		r.s = append(r.s, x[0], x[1])
	case *poly.SimpleCommitmentOpening:
		r.s = append(r.s, x[0])
	case *poly.PedersenCommitmentOpening:
		r.s = append(r.s, x[0], x[1])
	case poly.CommitmentOpeningBytes:
		r.add(x.ToCommitmentOpening())
	case *zk.ProofOfDLogEquivalence:
		r.fields(x, "challenge", "response")
	case *zk.ProofOfEqualOpenings:
		r.fields(x, "challenge", "response")
	case *zk.ProofOfProduct:
		r.fields(x, "challenge", "response1", "response2")
	case *dealings.MaskedResharingProof:
		r.add(x.ProofOfEqualOpenings)
	case *dealings.ProductProof:
		r.add(x.ProofOfProduct)
	case *mega.MEGaPublicKey:
		r.add(x.PublicPoint())
	case []*mega.MEGaPublicKey:
		for _, y := range x {
			r.add(y)
		}
	case *mega.MEGaPrivateKey:
		r.add(x.SecretScalar())
	case *mega.MEGaCiphertextSingle:
		r.add(x.EphemeralKey)
		r.add(x.PopPublicKey)
		r.add(x.PopProof)
		r.add(x.CTexts)
	case *mega.MEGaCiphertextPair:
		r.add(x.EphemeralKey)
		r.add(x.PopPublicKey)
		r.add(x.PopProof)
		r.add(x.CTexts)
	case *dealings.IDkgDealingInternal:
		r.add(x.Ciphertext)
		r.add(x.Commitment)
		r.add(x.Proof)
	case *dealings.RandomSecret:
	case *dealings.ReshareOfUnmaskedSecret:
		r.add(x.S1)
	case *dealings.ReshareOfMaskedSecret:
		r.add(x.S1)
		r.add(x.S2)
	case *dealings.UnmaskedTimesMaskedSecret:
		r.add(x.Left)
		r.add(x.Right)
	case *dealings.RandomTranscript:
	case *dealings.ReshareOfMaskedTranscript:
		r.add(x.P1)
	case *dealings.ReshareOfUnmaskedTranscript:
		r.add(x.P1)
	case *dealings.UnmaskedTimesMaskedTranscript:
		r.add(x.Left)
		r.add(x.Right)
	case *btree.Map[common.NodeIndex, *dealings.IDkgDealingInternal]:
		r.n = append(r.n, x.Keys()...)
		for _, y := range x.Values() {
			r.add(y)
		}
	case *btree.Map[common.NodeIndex, poly.CommitmentOpening]:
		r.n = append(r.n, x.Keys()...)
		for _, y := range x.Values() {
			r.add(y)
		}
	case *btree.Map[common.NodeIndex, *sign.ThresholdEcdsaSigShareInternal]:
		r.n = append(r.n, x.Keys()...)
		for _, y := range x.Values() {
			r.add(y)
		}
	case *btree.Map[common.NodeIndex, *complaints.IDkgComplaintInternal]:
		r.n = append(r.n, x.Keys()...)
		for _, y := range x.Values() {
			r.add(y)
		}
	case []poly.CommitmentOpening:
		for _, y := range x {
			r.add(y)
		}
	case *complaints.IDkgComplaintInternal:
		r.fields(x, "proof", "sharedSecret")
	case *sign.ThresholdEcdsaSigShareInternal:
		r.fields(x, "sigmaNumerator", "sigmaDenominator")
	case *sign.ThresholdEcdsaCombinedSigInternal:
		r.add(x.R)
		r.add(x.S)
	case key.DerivationIndex:
		r.add([]byte(x))
	case *key.DerivationPath:
		for _, i := range GetF(x, "path", 0).([]key.DerivationIndex) {
			r.add([]byte(i))
		}
	case *key.MasterEcdsaPublicKey:
		r.add(x.PublicKey)
	case *key.EcdsaPublicKey:
		r.add(x.PublicKey)
		r.add(x.ChainKey)
	default:
		panic("unexpected kind of value")
	}
}

func collect(v []interface{}) *parts {
	r := &parts{}
	r.add(v)
	return r
}

func (r *parts) contents() *contents {
	c := &contents{n: append([]common.NodeIndex{}, r.n...)}
	for _, x := range r.s {
		c.s = append(c.s, SVal(x))
	}
	for _, x := range r.p {
		c.p = append(c.p, PVal(x))
	}
	for _, x := range r.f {
		c.f = append(c.f, FVal(x))
	}
	for _, x := range r.b {
		c.b = append(c.b, append([]byte{}, x...))
	}
	return c
}

func values(v []interface{}) *contents { return collect(v).contents() }

func same(a, b *contents) bool {
	if len(a.s) != len(b.s) || len(a.p) != len(b.p) || len(a.f) != len(b.f) || len(a.b) != len(b.b) || len(a.n) != len(b.n) {
		return false
	}
	r := And(EqS(a.s, b.s), EqP(a.p, b.p))
	for i := range a.f {
		r = And(r, a.f[i].Eq(b.f[i]))
	}
	for i := range a.b {
		r = And(r, EqBytes(a.b[i], b.b[i]))
	}
	for i := range a.n {
		r = And(r, a.n[i] == b.n[i])
	}
	return r
}

// scramble changes every piece in place
func (r *parts) scramble() {
	k, q, f := curve.Scalar.FromUint64(curve.K256, 41), curve.Point.GeneratorG(curve.K256), curve.K256Field.One()
	for _, x := range r.s {
		x.Add(x, k)
	}
	for _, x := range r.p {
		x.AddPoints(x, q)
	}
	for _, x := range r.f {
		x.Add(x, f)
	}
	for _, x := range r.b {
		for i := range x {
			x[i] ^= 1
		}
	}
	for i := range r.n {
		r.n[i] += 1000
	}
}

type list = []interface{}

// leaves asserts that the arguments keep their contents, both when op runs and when its results are changed afterwards,
// and that a later run of op is not affected by that change
func leaves(what string, args list, op func() list) {
	before := values(args)
	res := collect(op())
	Assert(same(before, values(args)), what+": arguments unchanged")
	first := res.contents()
	res.scramble()
	Assert(same(before, values(args)), what+": changing the results leaves the arguments alone")
	Assert(same(first, values(op())), what+": changing the results leaves later results alone")
}

// keeps asserts that the arguments keep their contents when op runs
func keeps(what string, args list, op func()) {
	before := values(args)
	op()
	Assert(same(before, values(args)), what+": arguments unchanged")
}

func ok(err error) { Assume(err == nil) }

func zero() curve.EccScalar { return curve.Scalar.Zero(curve.K256) }

func inf() curve.EccPoint { return curve.Point.Identity(curve.K256) }

// every scalar operation, with a receiver of its own, on arbitrary scalars; decoding of arbitrary 32 and 64 bytes
//
//verif:paths=4000
func H_scalar() {
	a, b := Scalar("a"), Scalar("b")
	args := list{a, b}
	switch Choose("op", 16) {
	case 0:
		leaves("sum", args, func() list { return list{zero().Add(a, b)} })
	case 1:
		leaves("difference", args, func() list { return list{zero().Sub(a, b)} })
	case 2:
		leaves("product", args, func() list { return list{zero().Mul(a, b)} })
	case 3:
		leaves("inverse", args, func() list { return list{zero().Invert(a)} })
	case 4:
		leaves("negation", args, func() list { return list{zero().Negate(a)} })
	case 5:
		leaves("comparison", args, func() list { return list{a.Equal(b), a.IsZero(), a.IsHigh()} })
	case 6:
		leaves("assignment", args, func() list { return list{zero().Assign(a)} })
	case 7:
		leaves("copy", args, func() list { return list{a.Clone()} })
	case 8:
		leaves("encoding", args, func() list { return list{a.Serialize(), a.SerializeTagged()} })
	case 9:
		leaves("CBOR", args, func() list {
			x, err := a.(*curve.Secp256k1Scalar).MarshalCBOR()
			ok(err)
			return list{x}
		})
	case 10:
		leaves("fixed-size form", args, func() list { return list{curve.Scalar.ToScalarBytes(a).ScalarBytes(), curve.Scalar.ToScalarBytes(a).ToScalar()} })
	case 11:
		in := Bytes("in", 32)
		leaves("decoding", list{in}, func() list {
			s, err := curve.Scalar.Deserialize(curve.K256, in)
			ok(err)
			return list{s}
		})
	case 12:
		in := append([]byte{byte(curve.K256)}, Bytes("in", 32)...)
		leaves("tagged decoding", list{in}, func() list {
			s, err := curve.Scalar.DeserializeTagged(in)
			ok(err)
			return list{s}
		})
	case 13:
		in := Bytes("in", 64)
		leaves("wide decoding", list{in}, func() list {
			s, err := curve.Scalar.FromBytesWide(curve.K256, in)
			ok(err)
			return list{s}
		})
	case 14:
		leaves("constants", list{}, func() list {
			return list{zero(), curve.Scalar.One(curve.K256), curve.Scalar.FromUint64(curve.K256, 7), curve.Scalar.FromNodeIndex(curve.K256, 7)}
		})
	default:
		n := a.(*curve.Secp256k1Scalar).BigInt()
		before := SVal(a)
		n.Add(n, n)
		n.SetInt64(5)
		Assert(SVal(a).Eq(before), "integer value: changing it leaves the scalar alone")
	}
}

// every point operation, with a receiver of its own, on arbitrary points and scalars (identity included); node indices 0..40
//
//verif:paths=4000
func H_point() {
	a, b := Point("a"), Point("b")
	k, l := Scalar("k"), Scalar("l")
	args := list{a, b, k, l}
	switch Choose("op", 17) {
	case 0:
		leaves("sum", args, func() list { return list{inf().AddPoints(a, b)} })
	case 1:
		leaves("difference", args, func() list { return list{inf().SubPoints(a, b)} })
	case 2:
		leaves("double", args, func() list { return list{inf().Double(a)} })
	case 3:
		leaves("multiple", args, func() list { return list{inf().ScalarMul(a, k)} })
	case 4:
		leaves("combination", args, func() list { return list{inf().(*curve.Secp256k1Point).LinComb(a, k, b, l)} })
	case 5:
		leaves("combination of points", args, func() list { return list{curve.Point.MulPoints(a, k, b, l)} })
	case 6:
		leaves("Pedersen commitment", args, func() list { return list{curve.Point.Pedersen(k, l)} })
	case 7:
		leaves("multiple of the generator", args, func() list { return list{curve.Point.MulByG(k)} })
	case 8:
		i := common.NodeIndex(Int("i", 0, 40))
		leaves("multiple by a node index", args, func() list { return list{a.MulByNodeIndex(i)} })
	case 9:
		leaves("comparison", args, func() list { return list{a.Equal(b), a.IsInfinity()} })
	case 10:
		leaves("assignment", args, func() list { return list{inf().Assign(a)} })
	case 11:
		leaves("copy", args, func() list { return list{a.Clone()} })
	case 12:
		leaves("encoding", args, func() list { return list{a.Serialize(), a.SerializeTagged()} })
	case 13:
		Assume(Not(PVal(a).IsInf()))
		leaves("coordinates", args, func() list { return list{a.AffineX(), a.AffineY(), a.SerializeUncompressed()} })
	case 14:
		leaves("CBOR", args, func() list {
			x, err := a.(*curve.Secp256k1Point).MarshalCBOR()
			ok(err)
			return list{x}
		})
	case 15:
		in := a.Serialize()
		leaves("decoding", list{in}, func() list {
			x, err := curve.Point.Deserialize(curve.K256, in)
			ok(err)
			return list{x}
		})
	default:
		leaves("constants", list{}, func() list {
			return list{inf(), curve.Point.GeneratorG(curve.K256), curve.Point.GeneratorH(curve.K256)}
		})
	}
}

// every field operation, with a receiver of its own, on arbitrary elements
//
//verif:paths=4000
func H_field() {
	a, b := MkField(NewF("a")), MkField(NewF("b"))
	args := list{a, b}
	z := func() curve.EccFieldElement { return curve.K256Field.Zero() }
	switch Choose("op", 12) {
	case 0:
		leaves("sum", args, func() list { return list{z().Add(a, b)} })
	case 1:
		leaves("difference", args, func() list { return list{z().Sub(a, b)} })
	case 2:
		leaves("product", args, func() list { return list{z().Mul(a, b)} })
	case 3:
		leaves("inverse", args, func() list { return list{z().Invert(a)} })
	case 4:
		leaves("negation", args, func() list { return list{z().Negate(a), z().Square(a)} })
	case 5:
		leaves("comparison", args, func() list { return list{a.Equal(b), a.IsZero(), int(a.Sign())} })
	case 6:
		leaves("assignment", args, func() list { return list{z().Assign(a), a.Clone()} })
	case 7:
		leaves("square root", args, func() list {
			r, ok := z().Sqrt(a)
			return list{r, ok}
		})
	case 8:
		leaves("encoding", args, func() list { return list{a.AsBytes()} })
	case 9:
		in := Bytes("in", 32)
		leaves("decoding", list{in}, func() list {
			s, err := curve.Field.FromBytes(curve.K256, in)
			ok(err)
			return list{s}
		})
	case 10:
		in := Bytes("in", 48)
		leaves("wide decoding", list{in}, func() list {
			s, err := curve.Field.FromBytesWide(curve.K256, in)
			ok(err)
			return list{s}
		})
	default:
		leaves("constants", list{}, func() list {
			return list{curve.Field.Zero(curve.K256), curve.Field.One(curve.K256), curve.Field.A(curve.K256), curve.Field.B(curve.K256),
				curve.Field.SswuA(curve.K256), curve.Field.SswuB(curve.K256), curve.Field.SswuZ(curve.K256), curve.Field.SswuC2(curve.K256)}
		})
	}
}

// polynomials of 0..2 arbitrary coefficients, interpolation through 1..3 arbitrary samples, coefficients for 1..3 nodes
//
//verif:paths=4000
func H_poly() {
	p, q := Poly(Ss("p", Choose("np", 3))), Poly(Ss("q", Choose("nq", 3)))
	x := Scalar("x")
	args := list{p, q, x}
	n := 1 + Choose("samples", 3)
	ys, yp := Scalars(Ss("y", n)), Points(Ps("y", n))
	nodes := []common.NodeIndex{2, 0, 5}[:n]
	switch Choose("op", 11) {
	case 0:
		leaves("sum", args, func() list { return list{poly.Poly.Zero(curve.K256).Add(p, q)} })
	case 1:
		leaves("product", args, func() list { return list{poly.Poly.Zero(curve.K256).Mul(p, q)} })
	case 2:
		leaves("multiple", args, func() list { return list{poly.Poly.Zero(curve.K256).MulScalar(p, x)} })
	case 3:
		leaves("evaluation", args, func() list { return list{p.EvaluateAt(x)} })
	case 4:
		leaves("comparison", args, func() list { return list{p.Equal(q), p.NonZeroCoefficients(), p.IsZero()} })
	case 5:
		leaves("coefficient", args, func() list { return list{p.Coeff(0), p.Coeff(1), p.Coeff(5)} })
	case 6:
		in := make([][2]curve.EccScalar, n)
		for i := range in {
			in[i] = [2]curve.EccScalar{curve.Scalar.FromNodeIndex(curve.K256, nodes[i]), ys[i]}
		}
		leaves("interpolation", list{in}, func() list {
			r, err := poly.Poly.Interpolate(curve.K256, in)
			ok(err)
			return list{r}
		})
	case 7:
		sd := seed.FromBytes(Bytes("seed", 4))
		leaves("random polynomial with a given constant", list{x}, func() list {
			r, err := poly.Poly.RandomWithConstant(x, n, sd.Rng())
			ok(err)
			return list{r, poly.Poly.Random(curve.K256, n, sd.Rng())}
		})
	case 8:
		leaves("interpolation coefficients", list{x, nodes}, func() list {
			l, err := poly.Lagrange.AtValue(x, nodes)
			ok(err)
			m, err := poly.Lagrange.AtZero(curve.K256, nodes)
			ok(err)
			return list{l, m, l.Equal(m)}
		})
	case 9:
		l, err := poly.Lagrange.AtValue(x, nodes)
		ok(err)
		leaves("interpolation of scalars", list{l, ys}, func() list {
			r, err := l.InterpolateScalar(ys)
			ok(err)
			return list{r}
		})
	default:
		l, err := poly.Lagrange.AtValue(x, nodes)
		ok(err)
		leaves("interpolation of points", list{l, yp}, func() list {
			r, err := l.InterpolatePoint(yp)
			ok(err)
			return list{r}
		})
	}
}

// commit wraps points as a commitment of either kind
func commit(pedersen bool, p []P) poly.PolynomialCommitment {
	if pedersen {
		return poly.PedersenCM.New(Points(p))
	}
	return poly.SimpleCM.New(Points(p))
}

// opening is an opening of either kind
func opening(pedersen bool, name string) poly.CommitmentOpening {
	if pedersen {
		return poly.PedersenCommitmentOpening{Scalar(name), Scalar(name + "m")}
	}
	return poly.SimpleCommitmentOpening{Scalar(name)}
}

// commitments of both kinds to 1..2 arbitrary points, and openings of both kinds
//
//verif:paths=4000
func H_commitment() {
	pedersen := Choose("pedersen", 2) == 1
	n := 1 + Choose("n", 2)
	c, d := commit(pedersen, Ps("c", n)), commit(pedersen, Ps("d", n))
	o := opening(pedersen, "o")
	i := common.NodeIndex(Choose("i", 2) * 6)
	args := list{c, d, o}
	switch Choose("op", 11) {
	case 0:
		leaves("copy", args, func() list { return list{c.(interface {
			Clone() poly.PolynomialCommitment
		}).Clone()} })
	case 1:
		leaves("encoding", args, func() list {
			b, err := c.Serialize()
			ok(err)
			return list{b}
		})
	case 2:
		leaves("representation", args, func() list { return list{c.StableRepresentation()} })
	case 3:
		leaves("comparison", args, func() list { return list{c.Equal(d), c.Len(), c.Type(), c.VerifyIs(poly.Simple, curve.K256) == nil} })
	case 4:
		leaves("evaluation", args, func() list { return list{c.EvaluateAt(i)} })
	case 5:
		leaves("check of an opening", args, func() list { return list{c.CheckOpening(i, o)} })
	case 6:
		leaves("constant term", args, func() list { return list{c.ConstantTerm()} })
	case 7:
		keeps("consistent opening", args, func() { c.ReturnOpeningIfConsistent(i, o) })
	case 8:
		leaves("encoding of an opening", args, func() list {
			b, err := o.Serialize()
			ok(err)
			return list{b, o.ToCommitmentOpeningBytes()}
		})
	case 9:
		x, y := o.ToCommitmentOpeningBytes(), opening(!pedersen, "o2").ToCommitmentOpeningBytes()
		if pedersen {
			y = nil
		} else if Choose("one", 2) == 1 {
			y = nil
		}
		args := list{x}
		if y != nil {
			args = append(args, y)
		}
		leaves("secret of openings", args, func() list {
			s, err := dealings.Secret.From(x, y)
			ok(err)
			return list{s}
		})
	default:
		p, q := Poly([]S{NewS("p"), SInt(3)}), Poly([]S{NewS("q"), SInt(5)})
		leaves("commitment to polynomials", list{p, q}, func() list {
			if pedersen {
				r, err := poly.PedersenCM.Create(p, q, 2)
				ok(err)
				return list{r}
			}
			r, err := poly.SimpleCM.Create(p, 2)
			ok(err)
			return list{r}
		})
	}
}

func dlog() *zk.ProofOfDLogEquivalence {
	p := &zk.ProofOfDLogEquivalence{}
	SetF(p, "challenge", 0, Scalar("c"))
	SetF(p, "response", 1, Scalar("z"))
	return p
}

func equal() *zk.ProofOfEqualOpenings {
	p := &zk.ProofOfEqualOpenings{}
	SetF(p, "challenge", 0, Scalar("c"))
	SetF(p, "response", 1, Scalar("z"))
	return p
}

func product() *zk.ProofOfProduct {
	p := &zk.ProofOfProduct{}
	SetF(p, "challenge", 0, Scalar("c"))
	SetF(p, "response1", 1, Scalar("z1"))
	SetF(p, "response2", 2, Scalar("z2"))
	return p
}

// proofs of the three kinds: creation from arbitrary witnesses, verification of arbitrary proofs, copies
//
//verif:paths=4000
func H_zk() {
	Generic()
	ad := Bytes("ad", 3)
	sd := seed.FromBytes([]byte{1, 2, 3})
	x, y, u, v, w := Scalar("x"), Scalar("y"), Scalar("u"), Scalar("v"), Scalar("w")
	g, h, gx, hx := Point("g"), Point("h"), Point("gx"), Point("hx")
	switch Choose("op", 10) {
	case 0:
		leaves("creation of a discrete log proof", list{x, g, h, ad}, func() list {
			p, err := zk.ProofOfDLogEquivalenceIns.Create(sd, x, g, h, ad)
			ok(err)
			return list{p}
		})
	case 1:
		p := dlog()
		leaves("verification of a discrete log proof", list{p, g, h, gx, hx, ad}, func() list { return list{p.Verify(g, h, gx, hx, ad) == nil} })
	case 2:
		p := dlog()
		leaves("copy of a discrete log proof", list{p}, func() list { return list{p.Clone()} })
	case 3:
		leaves("creation of an opening proof", list{x, y, ad}, func() list {
			p, err := zk.ProofOfEqualOpeningsIns.Create(sd, x, y, ad)
			ok(err)
			return list{p}
		})
	case 4:
		p := equal()
		leaves("verification of an opening proof", list{p, g, h, ad}, func() list { return list{p.Verify(g, h, ad) == nil} })
	case 5:
		p := equal()
		leaves("copy of an opening proof", list{p}, func() list { return list{p.Clone()} })
	case 6:
		leaves("creation of a product proof", list{x, y, u, v, w, ad}, func() list {
			p, err := zk.ProofOfProductIns.Create(sd, x, y, u, v, w, ad)
			ok(err)
			return list{p}
		})
	case 7:
		p := product()
		leaves("verification of a product proof", list{p, g, h, gx, ad}, func() list { return list{p.Verify(g, h, gx, ad) == nil} })
	case 8:
		p := product()
		leaves("copy of a product proof", list{p}, func() list { return list{p.Clone()} })
	default:
		p, q := &dealings.ProductProof{ProofOfProduct: product()}, &dealings.MaskedResharingProof{ProofOfEqualOpenings: equal()}
		leaves("copy of a dealing's proof", list{p, q}, func() list { return list{p.Clone(), q.Clone()} })
	}
}

// node is a receiver with an arbitrary key
func node(name string) (*mega.MEGaPrivateKey, *mega.MEGaPublicKey) {
	k := NewS(name)
	Assume(Not(k.IsZero()))
	return mega.NewMEGaPrivateKey(MkScalar(k)), mega.NewMEGaPublicKey(MkPoint(G().Mul(k)))
}

// keys and ciphertexts: one or two receivers with arbitrary keys, arbitrary plaintexts and four-byte seeds, honest ciphertexts
// and ciphertexts with an arbitrary proof
//
//verif:paths=4000 nozero nofeas
func H_mega() {
	Generic()
	ad := Bytes("ad", 3)
	sd := seed.FromBytes(Bytes("seed", 4))
	sk, pk := node("k0")
	_, pk1 := node("k1")
	to := []*mega.MEGaPublicKey{pk1, pk}[Choose("one receiver", 2):]
	me := common.NodeIndex(len(to) - 1)
	pair := Choose("pair", 2) == 1
	plain, plain2 := make([]curve.EccScalar, len(to)), make([][2]curve.EccScalar, len(to))
	for i := range plain {
		plain[i] = Scalar("m")
		plain2[i] = [2]curve.EccScalar{Scalar("m"), Scalar("mm")}
	}
	op := Choose("op", 10)
	if op == 0 {
		leaves("encryption", list{plain, plain2, to, ad}, func() list {
			if pair {
				c, err := mega.EncryptCiphertextPair(sd, plain2, to, 3, ad)
				ok(err)
				return list{c}
			}
			c, err := mega.EncryptCiphertextSingle(sd, plain, to, 3, ad)
			ok(err)
			return list{c}
		})
		return
	}
	var c mega.MEGaCiphertext
	var err error
	if pair {
		c, err = mega.EncryptCiphertextPair(sd, plain2, to, 3, ad)
	} else {
		c, err = mega.EncryptCiphertextSingle(sd, plain, to, 3, ad)
	}
	ok(err)
	s, _ := c.(*mega.MEGaCiphertextSingle)
	p, _ := c.(*mega.MEGaCiphertextPair)
	if Choose("proof replaced", 2) == 1 {
		if pair {
			p.PopProof = dlog()
		} else {
			s.PopProof = dlog()
		}
	}
	cm := commit(pair, Ps("commitment", 1))
	secret := Point("shared")
	args := list{c, cm, sk, pk, ad, secret}
	switch op {
	case 1:
		leaves("check of a ciphertext", args, func() list { return list{c.CheckValidity(len(to), ad, 3) == nil} })
	case 2:
		leaves("type check of a ciphertext", args, func() list {
			return list{c.VerifyIs(mega.CiphertextSingle, curve.K256) == nil, c.Recipients()}
		})
	case 3:
		leaves("decryption", args, func() list {
			if pair {
				r, err := p.Decrypt(ad, 3, me, sk, pk)
				ok(err)
				return list{r}
			}
			r, err := s.Decrypt(ad, 3, me, sk, pk)
			ok(err)
			return list{r}
		})
	case 4:
		leaves("decryption from a shared secret", args, func() list {
			if pair {
				r, err := p.DecryptFromSharedSecret(ad, 3, me, pk, secret)
				ok(err)
				return list{r}
			}
			r, err := s.DecryptFromSharedSecret(ad, 3, me, pk, secret)
			ok(err)
			return list{r}
		})
	case 5:
		leaves("checked decryption", args, func() list {
			r, err := c.DecryptAndCheck(cm, ad, 3, me, sk, pk)
			return list{r, err == nil}
		})
	case 6:
		Assume(!pair)
		leaves("copy of a ciphertext", args, func() list { return list{s.Clone()} })
	case 7:
		leaves("public key", args, func() list { return list{sk.PublicKey(), sk.Serialize(), pk.Serialize()} })
	case 8:
		in, in2 := pk.Serialize(), sk.Serialize()
		leaves("decoding of keys", list{in, in2}, func() list {
			a, err := mega.PublicKey.Deserialize(curve.K256, in)
			ok(err)
			b, err := mega.PrivateKey.Deserialize(curve.K256, in2)
			ok(err)
			return list{a, b, mega.VerifyMegaPublicKey(curve.K256, in) == nil}
		})
	default:
		e := Point("ephemeral")
		leaves("proof base", list{e, ad}, func() list {
			b, err := mega.ComputePopBase(mega.CiphertextSingle, curve.K256, ad, 3, e)
			ok(err)
			x, y, err := mega.GenKeypair(curve.K256, sd)
			ok(err)
			return list{b, x, y}
		})
	}
}

// secret of each kind with arbitrary values
func secret(kind int) dealings.SecretShares {
	switch kind {
	case 0:
		return &dealings.RandomSecret{}
	case 1:
		return &dealings.ReshareOfUnmaskedSecret{S1: Scalar("s1")}
	case 2:
		return &dealings.ReshareOfMaskedSecret{S1: Scalar("s1"), S2: Scalar("s2")}
	}
	return &dealings.UnmaskedTimesMaskedSecret{Left: Scalar("l"), Right: [2]curve.EccScalar{Scalar("r1"), Scalar("r2")}}
}

// operation of each kind over arbitrary earlier commitments of t points
func operation(kind, t int) dealings.IDkgTranscriptOperationInternal {
	switch kind {
	case 0:
		return &dealings.RandomTranscript{}
	case 1:
		return &dealings.ReshareOfUnmaskedTranscript{P1: commit(false, Ps("prev", t))}
	case 2:
		return &dealings.ReshareOfMaskedTranscript{P1: commit(true, Ps("prev", t))}
	}
	return &dealings.UnmaskedTimesMaskedTranscript{Left: commit(false, Ps("left", t)), Right: commit(true, Ps("right", t))}
}

// dealings of the four kinds for one receiver with an arbitrary key: creation from arbitrary secrets, public and private
// verification (with the honest proof or none that fits), complaints against the dealing and their verification
//
//verif:paths=4000 nozero nofeas
func H_dealing() {
	Generic()
	ad := Bytes("ad", 2)
	sd := seed.FromBytes(Bytes("seed", 4))
	sk, pk := node("k")
	to := []*mega.MEGaPublicKey{pk}
	kind := Choose("kind", 4)
	sec, op := secret(kind), operation(kind, 1)
	deal := func() *dealings.IDkgDealingInternal {
		d, err := dealings.NewIDkgDealingInternal(sec, curve.K256, sd, 1, to, 2, ad)
		ok(err)
		return d
	}
	what := Choose("op", 6)
	if what == 0 {
		leaves("creation of a dealing", list{sec, to, ad}, func() list { return list{deal()} })
		return
	}
	d := deal()
	args := list{d, op, sk, pk, ad}
	switch what {
	case 1:
		leaves("public verification", args, func() list { return list{d.PubliclyVerify(curve.K256, op, 1, 2, 1, ad) == nil} })
	case 2:
		leaves("private verification", args, func() list { return list{d.PrivateVerify(curve.K256, sk, pk, ad, 2, 0) == nil} })
	case 3:
		leaves("opening of a dealing", args, func() list {
			o, err := dealings.CommitmentOpening.OpenDealing(d, ad, 2, 0, sk, pk)
			ok(err)
			return list{o}
		})
	case 4:
		leaves("creation of a complaint", args, func() list {
			c, err := complaints.NewComplaintInternal(sd, d, 2, 0, sk, pk, ad)
			ok(err)
			return list{c}
		})
	default:
		c, err := complaints.NewComplaintInternal(sd, d, 2, 0, sk, pk, ad)
		ok(err)
		leaves("verification of a complaint", append(args, c), func() list { return list{c.Verify(d, 2, 0, pk, ad) == nil} })
	}
}

// complaints generated against one dealing with an arbitrary commitment, among one receiver
//
//verif:paths=4000 nozero nofeas
func H_complaints() {
	Generic()
	ad := Bytes("ad", 2)
	sd := seed.FromBytes(Bytes("seed", 4))
	sk, pk := node("k")
	d, err := dealings.NewIDkgDealingInternal(secret(Choose("kind", 2)), curve.K256, sd, 1, []*mega.MEGaPublicKey{pk}, 2, ad)
	ok(err)
	if Choose("bad", 2) == 1 {
		d.Commitment = commit(d.Commitment.Type() == poly.Pedersen, Ps("commitment", 1))
	}
	var m btree.Map[common.NodeIndex, *dealings.IDkgDealingInternal]
	m.Set(2, d)
	leaves("complaints", list{&m, sk, pk, ad}, func() list {
		c, err := complaints.GenerateComplaints(&m, ad, 0, sk, pk, sd)
		ok(err)
		return list{c}
	})
}

// transcripts of the four kinds from 1..2 dealings with arbitrary commitments of one or two points (their ciphertexts do not
// matter), combination of openings, reconstruction of shares
//
//verif:paths=6000 nozero nofeas
func H_transcript() {
	Generic()
	t := 1 + Choose("t", 2)
	n := t + Choose("more", 2)
	pedersen := Choose("pedersen", 2) == 1
	if Choose("what", 2) == 1 {
		xs := []common.NodeIndex{1, 4, 9}[:n]
		os := make([]poly.CommitmentOpening, n)
		for i := range os {
			os[i] = opening(pedersen, "o")
		}
		// the commitment that the openings open at node 0, so that the result exists
		p, q := SInt(0), SInt(0)
		ns := make([]S, n)
		for i := range ns {
			ns[i] = Node(int(xs[i]))
		}
		rec, sum := Choose("reconstruct", 2) == 1, Choose("sum", 2) == 1
		at := SInt(0)
		if rec {
			at = Node(0)
		}
		for i := range os {
			k := LagrangeCoeff(ns, i, at)
			if sum && !rec {
				k = SInt(1)
			}
			switch o := os[i].(type) {
			case poly.SimpleCommitmentOpening:
				p = p.Add(SVal(o[0]).Mul(k))
			case poly.PedersenCommitmentOpening:
				p, q = p.Add(SVal(o[0]).Mul(k)), q.Add(SVal(o[1]).Mul(k))
			}
		}
		pts := []P{G().Mul(p).Add(H().Mul(q))}
		for len(pts) < t {
			r := NewP("r")
			pts[0] = pts[0].Sub(r)
			pts = append(pts, r)
		}
		cm := commit(pedersen, pts)
		if rec {
			d := &dealings.IDkgDealingInternal{Commitment: cm}
			var m btree.Map[common.NodeIndex, poly.CommitmentOpening]
			for i := range xs {
				m.Set(xs[i], os[i])
			}
			leaves("reconstruction", list{d, &m}, func() list {
				o, err := dealings.ReconstructShareFromOpenings(d, &m, 0)
				ok(err)
				Reach("reconstructed")
				return list{o}
			})
			return
		}
		var c dealings.CombinedCommitment = &dealings.InterpolationCommitment{PolynomialCommitment: cm}
		if sum {
			Assume(pedersen)
			c = &dealings.SummationCommitment{PolynomialCommitment: cm}
		}
		leaves("combination of openings", list{cm, xs, os}, func() list {
			o, err := dealings.CommitmentOpening.CombineOpenings(xs, os, c, 0, curve.K256)
			ok(err)
			Reach("combined")
			return list{o}
		})
		return
	}
	kind := Choose("kind", 4)
	op := operation(kind, 1)
	var m btree.Map[common.NodeIndex, *dealings.IDkgDealingInternal]
	for i := 0; i < n; i++ {
		m.Set(common.NodeIndex(3*i+1), &dealings.IDkgDealingInternal{Commitment: commit(kind == 0 || kind == 3, Ps("d", t))})
	}
	if u, ok := op.(*dealings.ReshareOfUnmaskedTranscript); ok {
		// the earlier commitment opens to the interpolated constant term
		v := Inf()
		ns := make([]S, n)
		for i := range ns {
			ns[i] = Node(3*i + 1)
		}
		for i, d := range m.Values() {
			v = v.Add(PVal(d.Commitment.Points()[0]).Mul(LagrangeCoeff(ns, i, SInt(0))))
		}
		u.P1 = commit(false, []P{v})
	}
	leaves("transcript", list{&m, op}, func() list {
		tr, err := dealings.NewTranscriptInternal(curve.K256, t, &m, op)
		ok(err)
		Reach("transcript made")
		return list{tr}
	})
}

// shares computed from one honest dealing, with the openings provided or not
//
//verif:paths=4000 nozero nofeas
func H_shares() {
	Generic()
	ad := Bytes("ad", 2)
	sd := seed.FromBytes(Bytes("seed", 4))
	sk, pk := node("k")
	kind := Choose("kind", 2)
	d, err := dealings.NewIDkgDealingInternal(secret(kind), curve.K256, sd, 1, []*mega.MEGaPublicKey{pk}, 2, ad)
	ok(err)
	var m btree.Map[common.NodeIndex, *dealings.IDkgDealingInternal]
	m.Set(2, d)
	var cm dealings.CombinedCommitment = &dealings.SummationCommitment{PolynomialCommitment: d.Commitment}
	if kind == 1 {
		cm = &dealings.InterpolationCommitment{PolynomialCommitment: d.Commitment}
	}
	o, err := dealings.CommitmentOpening.OpenDealing(d, ad, 2, 0, sk, pk)
	ok(err)
	var given btree.Map[common.NodeIndex, poly.CommitmentOpening]
	given.Set(0, o)
	var all btree.Map[common.NodeIndex, *btree.Map[common.NodeIndex, poly.CommitmentOpening]]
	provided := Choose("provided", 2) == 1
	if provided {
		all.Set(2, &given)
	}
	leaves("share", list{&m, &given, cm, sk, pk, ad}, func() list {
		var r poly.CommitmentOpening
		if provided {
			r, err = dealings.CommitmentOpening.FromDealingsAndOpenings(&m, &all, cm, ad, 0, sk, pk)
		} else {
			r, err = dealings.CommitmentOpening.FromDealings(&m, cm, ad, 0, sk, pk)
		}
		ok(err)
		Reach("share computed")
		return list{r}
	})
}

func share() *sign.ThresholdEcdsaSigShareInternal {
	s := &sign.ThresholdEcdsaSigShareInternal{}
	SetF(s, "sigmaNumerator", 0, poly.PedersenCommitmentOpening{Scalar("nu"), Scalar("nm")})
	SetF(s, "sigmaDenominator", 1, poly.PedersenCommitmentOpening{Scalar("mu"), Scalar("mm")})
	return s
}

// signing for an arbitrary context (path of 0..1 four-byte indices): shares from arbitrary openings, verification of arbitrary
// shares and signatures, combination of two arbitrary shares
//
//verif:paths=4000 nozero nofeas
func H_sign() {
	Generic()
	c := NewContext("", 1)
	v := c.Values()
	Assume(Not(v.R.IsInf()))
	path := DPath(c.Path)
	la, kl, xl := opening(true, "la"), opening(true, "kl"), opening(true, "xl")
	tl, tk, tx := Transcript(true, true, Ps("tl", 1)), Transcript(true, false, Ps("tk", 1)), Transcript(true, false, Ps("tx", 1))
	args := list{path, c.Msg, c.Rand, c.KeyT, c.PreT, la, kl, xl, tl, tk, tx}
	switch Choose("op", 6) {
	case 0:
		leaves("signature share", args, func() list {
			s, err := sign.NewThresholdEcdsaSigShareInternal(path, c.Msg, c.Rand, c.KeyT, c.PreT, la, kl, xl, curve.K256)
			ok(err)
			return list{s}
		})
	case 1:
		s := share()
		leaves("verification of a share", append(args, s), func() list {
			return list{s.Verify(path, c.Msg, c.Rand, 3, c.KeyT, c.PreT, tl, tk, tx, curve.K256) == nil}
		})
	case 2:
		var m btree.Map[common.NodeIndex, *sign.ThresholdEcdsaSigShareInternal]
		m.Set(1, share())
		m.Set(4, share())
		leaves("combination of shares", append(args, &m), func() list {
			s, err := sign.NewThresholdEcdsaCombinedSigInternal(path, c.Msg, c.Rand, c.KeyT, c.PreT, 2, &m, curve.K256)
			ok(err)
			return list{s}
		})
	case 3:
		s := &sign.ThresholdEcdsaCombinedSigInternal{R: MkScalar(v.Rho), S: Scalar("s")}
		leaves("verification of a signature", append(args, s), func() list {
			return list{s.Verify(path, c.Msg, c.Rand, c.KeyT, c.PreT, curve.K256) == nil}
		})
	case 4:
		leaves("derivation of the signing values", args, func() list {
			a, b, d, e, err := sign.DeriveRho(curve.K256, c.Msg, c.Rand, path, c.KeyT, c.PreT)
			ok(err)
			return list{a, b, d, e}
		})
	default:
		leaves("hash to integer", args, func() list {
			a, err := sign.ConvertHashToInteger(c.Msg, curve.K256)
			ok(err)
			return list{a, c.KeyT.ConstantTerm(), c.KeyT.EvaluateAt(3), c.KeyT.Compare(*c.PreT)}
		})
	}
}

// key derivation for an arbitrary key and a path of 0..1 arbitrary four-byte indices with a suitable hash output; indices of 0..4 arbitrary bytes
//
//verif:paths=4000
func H_key() {
	Generic()
	p := NewP("pk")
	Assume(Not(p.IsInf()))
	pk := MkPoint(p)
	steps := make([]key.DerivationIndex, Choose("steps", 2))
	for i := range steps {
		steps[i] = Bytes("idx", 4)
	}
	path := key.New(steps)
	if len(steps) > 0 {
		Tweak(p, [][]byte{steps[0]}) // leaves out unsuitable hash outputs
	}
	switch Choose("op", 4) {
	case 0:
		leaves("tweak", list{pk, path}, func() list {
			a, b, err := path.DeriveTweak(pk)
			ok(err)
			return list{a, b}
		})
	case 1:
		m := &key.MasterEcdsaPublicKey{PublicKey: pk.Serialize()}
		leaves("derived key", list{m, path}, func() list {
			k, err := sign.DerivePublicKey(m, path)
			ok(err)
			return list{k}
		})
	case 2:
		d := key.DerivationIndex(Bytes("index", Choose("len", 5)))
		leaves("next index", list{d}, func() list { return list{d.Next()} })
	default:
		k, a, b := Bytes("k", 3), Bytes("a", 2), Bytes("b", 2)
		leaves("HMAC", list{k, a, b}, func() list {
			r, err := key.ComputeHMAC(crypto.SHA512.New, k, a, b)
			ok(err)
			return list{r, common.ReverseBytes(k)}
		})
	}
}

// random oracles, seeds and streams over arbitrary inputs of 4..32 bytes; oracle inputs changed after they were added
//
//verif:paths=4000
func H_hash() {
	a, b := Bytes("a", 4), Bytes("b", 32)
	pt, sc := Point("p"), Scalar("s")
	dst := []byte("separator")
	switch Choose("op", 5) {
	case 0:
		o := ro.NewRandomOracle("oracle")
		x := append([]byte{}, a...)
		q, s := pt.Clone(), sc.Clone()
		leaves("oracle input", list{x, q, s}, func() list {
			o = ro.NewRandomOracle("oracle")
			o.AddBytesString("bytes", x)
			o.AddPoint("point", q)
			o.AddScalar("scalar", s)
			o.AddUint64("integer", 5)
			return nil
		})
		want, err := o.OutputScalar(curve.K256)
		ok(err)
		collect(list{x, q, s}).scramble()
		leaves("oracle output", list{x, q, s}, func() list {
			got, err := o.OutputScalar(curve.K256)
			ok(err)
			Assert(SVal(got).Eq(SVal(want)), "oracle: changing inputs after they were added makes no difference")
			h, err := o.OutputByteString(32)
			ok(err)
			r, err := o.OutputPoint(curve.K256)
			ok(err)
			return list{got, h, r}
		})
	case 1:
		leaves("seed", list{a, b}, func() list {
			s := seed.FromBytes(a)
			buf := make([]byte, 8)
			s.Derive("x").Rng().FillUint8(buf)
			r := rand.NewChaCha20(b)
			buf2 := make([]byte, 8)
			r.FillUint8(buf2)
			return list{buf, buf2}
		})
	case 2:
		leaves("message expansion", list{a, dst}, func() list {
			r, err := seed.ExpandMessageXmd(a, dst, 40)
			ok(err)
			return list{r}
		})
	case 3:
		leaves("hash to scalars", list{a, dst}, func() list {
			r, err := curve.HashToScalar(2, curve.K256, a, dst)
			ok(err)
			return list{r}
		})
	default:
		leaves("stream over a buffer", list{a, b}, func() list {
			r := rand.NewChaCha20(b)
			buf := make([]byte, 4)
			r.XORKeyStream(buf, a)
			return list{buf}
		})
	}
}
