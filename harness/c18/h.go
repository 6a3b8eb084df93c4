// Package c18: malformed or tampered dealings are rejected without crashing.
package c18

import (
	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/zk"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/oracle"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
)

const (
	random = iota
	unmasked
	masked
	product
)

func commitment(pedersen bool, p []P) poly.PolynomialCommitment {
	if pedersen {
		return poly.PedersenCM.New(Points(p))
	}
	return poly.SimpleCM.New(Points(p))
}

func wrap(c poly.PolynomialCommitment, how int) poly.PolynomialCommitment {
	switch how {
	case 1:
		return &dealings.InterpolationCommitment{PolynomialCommitment: c}
	case 2:
		return &dealings.SummationCommitment{PolynomialCommitment: c}
	}
	return c
}

// a proof of possession for one context
func possession(kind mega.MEGaCiphertextType, d common.NodeIndex, ad []byte) (e, q curve.EccPoint, pf *zk.ProofOfDLogEquivalence) {
	beta := NewS("beta")
	e = MkPoint(G().Mul(beta))
	base, err := mega.ComputePopBase(kind, curve.K256, ad, d, e)
	Assert(err == nil, "base")
	q = MkPoint(PVal(base).Mul(beta))
	pf, err = zk.ProofOfDLogEquivalenceIns.Create(seed.FromBytes(Bytes("popseed", 2)), MkScalar(beta), MkPoint(G()), base, ad)
	Assert(err == nil, "proof")
	return
}

func pop() *zk.ProofOfDLogEquivalence {
	p := &zk.ProofOfDLogEquivalence{}
	SetF(p, "challenge", 0, MkScalar(NewS("c")))
	SetF(p, "response", 1, MkScalar(NewS("z")))
	return p
}

// ciphertext has arbitrary contents; an honest one has a proof of possession for the context
func ciphertext(pairs bool, n int, honest bool, d common.NodeIndex, ad []byte) mega.MEGaCiphertext {
	var e, q curve.EccPoint
	var pf *zk.ProofOfDLogEquivalence
	if honest {
		k := mega.MEGaCiphertextType(mega.CiphertextSingle)
		if pairs {
			k = mega.CiphertextPairs
		}
		e, q, pf = possession(k, d, ad)
	} else {
		e, q, pf = MkPoint(NewP("eph")), MkPoint(NewP("pop")), pop()
	}
	if !pairs {
		return &mega.MEGaCiphertextSingle{EphemeralKey: e, PopPublicKey: q, PopProof: pf, CTexts: Scalars(Ss("ct", n))}
	}
	var ct [][2]curve.EccScalar
	for i := 0; i < n; i++ {
		ct = append(ct, [2]curve.EccScalar{MkScalar(NewS("ct")), MkScalar(NewS("ct'"))})
	}
	return &mega.MEGaCiphertextPair{EphemeralKey: e, PopPublicKey: q, PopProof: pf, CTexts: ct}
}

// popOK is the oracle for the ciphertext's proof of possession: the proof verifies for the base of its context
func popOK(c mega.MEGaCiphertext, ad []byte, d common.NodeIndex) bool {
	base, err := mega.ComputePopBase(c.CType(), curve.K256, ad, d, c.Ephemeral())
	Assert(err == nil, "base")
	return c.Proof().Verify(MkPoint(G()), base, c.Ephemeral(), c.PopPublic(), ad) == nil
}

func equalProof() *zk.ProofOfEqualOpenings {
	p := &zk.ProofOfEqualOpenings{}
	SetF(p, "challenge", 0, MkScalar(NewS("ec")))
	SetF(p, "response", 1, MkScalar(NewS("ez")))
	return p
}

func productProof() *zk.ProofOfProduct {
	p := &zk.ProofOfProduct{}
	SetF(p, "challenge", 0, MkScalar(NewS("pc")))
	SetF(p, "response1", 1, MkScalar(NewS("pz")))
	SetF(p, "response2", 2, MkScalar(NewS("pz'")))
	return p
}

// the operation and the points of its previous commitments
type operation struct {
	kind        int
	op          dealings.IDkgTranscriptOperationInternal
	left, right []P
	lped, rped  bool
	honest      bool
	a, f, g     []S
	n           S
	d           common.NodeIndex
	ad          []byte
}

// mkop makes an operation with previous commitments of arbitrary points, or with known openings (honest)
func mkop(kind, llen, rlen int, lped, rped bool, w int, honest bool, d common.NodeIndex, ad []byte) operation {
	o := operation{kind: kind, lped: lped, rped: rped, honest: honest, d: d, ad: ad}
	if kind == masked {
		rlen = llen
	}
	if honest {
		o.a, o.f, o.g, o.n = Ss("a", llen), Ss("f", rlen), Ss("g", rlen), NewS("n")
	}
	switch kind {
	case random:
		o.op = &dealings.RandomTranscript{}
	case unmasked:
		o.left = Ps("left", llen)
		if honest {
			o.left = points(o.a, nil)
		}
		o.op = &dealings.ReshareOfUnmaskedTranscript{P1: wrap(commitment(lped, o.left), w)}
	case masked:
		o.left = Ps("left", llen)
		if honest {
			o.left = points(o.f, o.g)
		}
		o.op = &dealings.ReshareOfMaskedTranscript{P1: wrap(commitment(lped, o.left), w)}
	case product:
		o.left, o.right = Ps("left", llen), Ps("right", rlen)
		if honest {
			o.left, o.right = points(o.a, nil), points(o.f, o.g)
		}
		o.op = &dealings.UnmaskedTimesMaskedTranscript{Left: wrap(commitment(lped, o.left), w), Right: wrap(commitment(rped, o.right), w)}
	case 4:
		o.op = "no operation"
	}
	return o
}

func points(f, g []S) []P {
	p := make([]P, len(f))
	for i := range f {
		p[i] = G().Mul(f[i])
		if g != nil {
			p[i] = p[i].Add(H().Mul(g[i]))
		}
	}
	return p
}

// coefficients of the dealing's commitment: arbitrary points, the first of an honest dealing as the operation requires
func (o operation) coefficients(n int) []P {
	k := Ps("k", n)
	if !o.honest || n == 0 {
		return k
	}
	at := Node(int(o.d))
	switch o.kind {
	case unmasked:
		k[0] = G().Mul(Eval(o.a, at))
	case masked:
		k[0] = G().Mul(Eval(o.f, at))
	case product:
		k[0] = G().Mul(Eval(o.a, at).Mul(Eval(o.f, at))).Add(H().Mul(o.n))
	}
	return k
}

// the proof of a dealing: none, the right pointers, pointers and values without contents, values; honest contents prove
// the relation the operation requires
func (o operation) proof(k int) (dealings.ZkProof, *zk.ProofOfEqualOpenings, *zk.ProofOfProduct) {
	var e *zk.ProofOfEqualOpenings
	var p *zk.ProofOfProduct
	at := Node(int(o.d))
	var err error
	if k == 1 || k == 7 {
		e = equalProof()
		if o.honest {
			e, err = zk.ProofOfEqualOpeningsIns.Create(seed.FromBytes(Bytes("zkseed", 2)), MkScalar(Eval(o.f, at)), MkScalar(Eval(o.g, at)), o.ad)
		}
	}
	if k == 2 || k == 8 {
		p = productProof()
		if o.honest {
			x, y := Eval(o.a, at), Eval(o.f, at)
			p, err = zk.ProofOfProductIns.Create(seed.FromBytes(Bytes("zkseed", 2)), MkScalar(x), MkScalar(y), MkScalar(Eval(o.g, at)), MkScalar(x.Mul(y)), MkScalar(o.n), o.ad)
		}
	}
	Assert(err == nil, "proof")
	switch k {
	case 1:
		return &dealings.MaskedResharingProof{ProofOfEqualOpenings: e}, e, nil
	case 2:
		return &dealings.ProductProof{ProofOfProduct: p}, nil, p
	case 3:
		return &dealings.MaskedResharingProof{}, nil, nil
	case 4:
		return &dealings.ProductProof{}, nil, nil
	case 5:
		return dealings.MaskedResharingProof{}, nil, nil
	case 6:
		return dealings.ProductProof{}, nil, nil
	case 7:
		return dealings.MaskedResharingProof{ProofOfEqualOpenings: e}, nil, nil
	case 8:
		return dealings.ProductProof{ProofOfProduct: p}, nil, nil
	}
	return nil, nil, nil
}

// matches is the oracle for kinds, previous commitments and proof
func (o operation) matches(pedersen, pairs bool, pk int, e *zk.ProofOfEqualOpenings, p *zk.ProofOfProduct, k P, d common.NodeIndex, ad []byte) bool {
	at := Node(int(d))
	switch o.kind {
	case random:
		return pedersen && pairs && pk == 0
	case unmasked:
		if pedersen || pairs || pk != 0 || o.lped {
			return false
		}
		return EvalP(o.left, at).Eq(k)
	case masked:
		if pedersen || pairs || pk != 1 {
			return false
		}
		return e.Verify(MkPoint(EvalP(o.left, at)), MkPoint(k), ad) == nil
	case product:
		if !pedersen || !pairs || pk != 2 || o.lped || !o.rped {
			return false
		}
		return p.Verify(MkPoint(EvalP(o.left, at)), MkPoint(EvalP(o.right, at)), MkPoint(k), ad) == nil
	}
	return false
}

// a dealing of arbitrary parts (either kind of commitment and ciphertext, no proof, either kind of proof, proofs without
// contents; one coefficient, one recipient, arbitrary dealer below 2^32; points and scalars arbitrary, or honest for the operation) for every operation with
// previous commitments of either kind: publicly verified exactly when everything matches; never a panic
//
//verif:contract
func H_parts() {
	Generic()
	pedersen, pairs := Choose("pedersen", 2) == 1, Choose("pairs", 2) == 1
	honest := Choose("honest", 2) == 1
	if honest {
		Reach("honest")
	}
	pk := Choose("proof", 9)
	kind := Choose("op", 5)
	lped, rped := false, true
	switch kind {
	case unmasked:
		lped = Choose("lped", 2) == 1
	case masked:
		lped = true
	case product:
		lped, rped = Choose("lped", 2) == 1, Choose("rped", 2) == 1
	}
	d, ad := common.NodeIndex(U32("dealer")), Bytes("ad", 1)
	o := mkop(kind, 1, 1, lped, rped, 0, honest, d, ad)
	k := o.coefficients(1)
	pf, e, p := o.proof(pk)
	c := ciphertext(pairs, 1, honest, d, ad)
	dl := dealings.IDkgDealingInternal{Ciphertext: c, Commitment: commitment(pedersen, k), Proof: pf}
	err := dl.PubliclyVerify(curve.K256, o.op, 1, d, 1, ad)
	Reach("parts")
	want := false
	if o.matches(pedersen, pairs, pk, e, p, k[0], d, ad) {
		want = popOK(c, ad, d)
	}
	// proofs given as values may be accepted or rejected; the rest of the dealing has to match all the same
	if pk > 6 {
		return
	}
	Assert(Iff(err == nil, want), "verified exactly when everything matches")
}

// dealings of the right kinds with 0..2 coefficients and 0..2 recipients for thresholds -1..3 and 0..2 expected
// recipients; previous commitments of 1..2 coefficients; arbitrary or honest contents
//
//verif:contract paths=8000
func H_sizes() {
	Generic()
	kind := Choose("op", 4)
	l := 1 + Choose("prev", 2)
	honest := Choose("honest", 2) == 1
	if honest {
		Reach("honest")
	}
	d, ad := common.NodeIndex(U32("dealer")), Bytes("ad", 1)
	o := mkop(kind, l, 3-l, kind == masked, true, Choose("wrap", 3), honest, d, ad)
	pedersen := kind == random || kind == product
	pk := []int{0, 0, 1, 2}[kind]
	n := Choose("coefficients", 3)
	k := o.coefficients(n)
	pf, e, p := o.proof(pk)
	m := Choose("recipients", 3)
	c := ciphertext(pedersen, m, honest, d, ad)
	dl := dealings.IDkgDealingInternal{Ciphertext: c, Commitment: commitment(pedersen, k), Proof: pf}
	t, r := Choose("threshold", 5)-1, Choose("receivers", 3)
	err := dl.PubliclyVerify(curve.K256, o.op, t, d, r, ad)
	Reach("sizes")
	want := false
	if n > 0 && t == n && r == m && o.matches(pedersen, pedersen, pk, e, p, k[0], d, ad) {
		want = popOK(c, ad, d)
	}
	Assert(Iff(err == nil, want), "verified exactly when everything matches")
}

// private verification of arbitrary parts (either kind of commitment with 0..2 coefficients, either kind of ciphertext with
// two shares, recipient -1..2, arbitrary key): accepted exactly when the proof of possession verifies and the
// decrypted share opens the commitment; never a panic
//
//verif:contract
func H_private() {
	Generic()
	pedersen, pairs := Choose("pedersen", 2) == 1, Choose("pairs", 2) == 1
	n := Choose("coefficients", 3)
	k := Ps("k", n)
	d, ad := common.NodeIndex(U32("dealer")), Bytes("ad", 1)
	c := ciphertext(pairs, 2, false, d, ad)
	s := NewS("sk")
	Assume(Not(s.IsZero()))
	sk := mega.NewMEGaPrivateKey(MkScalar(s))
	r := Choose("recipient", 4) - 1
	dl := dealings.IDkgDealingInternal{Ciphertext: c, Commitment: commitment(pedersen, k)}
	err := dl.PrivateVerify(curve.K256, sk, sk.PublicKey(), ad, d, common.NodeIndex(r))
	Reach("private")
	want := false
	if n > 0 && r >= 0 && r < 2 && pedersen == pairs {
		if popOK(c, ad, d) {
			var p P
			if x, ok := c.(*mega.MEGaCiphertextPair); ok {
				v, e := x.DecryptFromSharedSecret(ad, d, common.NodeIndex(r), sk.PublicKey(), MkPoint(PVal(c.Ephemeral()).Mul(s)))
				Assert(e == nil, "decryption")
				p = G().Mul(SVal(v[0])).Add(H().Mul(SVal(v[1])))
			} else {
				v, e := c.(*mega.MEGaCiphertextSingle).DecryptFromSharedSecret(ad, d, common.NodeIndex(r), sk.PublicKey(), MkPoint(PVal(c.Ephemeral()).Mul(s)))
				Assert(e == nil, "decryption")
				p = G().Mul(SVal(v))
			}
			want = EvalP(k, Node(r)).Eq(p)
		}
	}
	Assert(Iff(err == nil, want), "accepted exactly when the share opens the commitment")
}

// an honest dealing of each kind (threshold 1..2 of 2 recipients) made for one context, secret and previous commitment,
// presented for another dealer, associated data, previous commitment, operation, or with its commitment shifted by
// arbitrary points or its shares by arbitrary scalars: publicly accepted exactly when dealer, associated data,
// operation and the value of the previous commitments at the dealer are unchanged and the commitment's constant is too
// (random dealings: any constant), privately exactly when the shifted share opens the shifted commitment
//
//verif:contract
func H_tampered() {
	Generic()
	kind, t := Choose("op", 4), 1+Choose("t", 2)
	sk := Ss("sk", 2)
	var keys []*mega.MEGaPublicKey
	for i := range sk {
		Assume(Not(sk[i].IsZero()))
		keys = append(keys, mega.NewMEGaPrivateKey(MkScalar(sk[i])).PublicKey())
	}
	d, ad := common.NodeIndex(U32("dealer")), Bytes("ad", 1)
	at := Node(int(d))
	a, f, g := Ss("a", 2), Ss("f", 2), Ss("g", 2)
	x, y, m := Eval(a, at), Eval(f, at), Eval(g, at)
	var sh dealings.SecretShares
	switch kind {
	case random:
		sh = &dealings.RandomSecret{}
	case unmasked:
		sh = &dealings.ReshareOfUnmaskedSecret{S1: MkScalar(x)}
	case masked:
		sh = &dealings.ReshareOfMaskedSecret{S1: MkScalar(y), S2: MkScalar(m)}
	case product:
		sh = &dealings.UnmaskedTimesMaskedSecret{Left: MkScalar(x), Right: [2]curve.EccScalar{MkScalar(y), MkScalar(m)}}
	}
	dl, err := dealings.NewIDkgDealingInternal(sh, curve.K256, seed.FromBytes(Bytes("seed", 32)), t, keys, d, ad)
	Assert(err == nil, "dealing is created")
	if err != nil {
		return
	}
	left, right := make([]P, 2), make([]P, 2)
	for i := range left {
		left[i] = G().Mul(a[i])
		right[i] = G().Mul(f[i]).Add(H().Mul(g[i]))
	}
	lz, rz := SInt(0), SInt(0)
	same, constant := true, true
	what := Choose("what", 6)
	r := Choose("recipient", 2)
	delta := Inf()
	priv := true
	switch what {
	case 0:
		d2 := common.NodeIndex(U32("dealer'"))
		Assume(d != d2)
		d, same, priv = d2, false, false
	case 1:
		b := Bytes("ad'", 1)
		Assume(b[0] != ad[0])
		ad, same, priv = b, false, false
	case 2:
		lz, rz = NewS("lz"), NewS("rz")
		left[1] = left[1].Add(G().Mul(lz))
		right[1] = right[1].Add(H().Mul(rz))
	case 3:
		other := Choose("op'", 4)
		same = other == kind
		kind = other
	case 4:
		// shift the commitment
		j := Choose("coefficient", t)
		q := Ps("q", t)
		for i := range q {
			q[i] = PVal(dl.Commitment.Points()[i])
		}
		delta = NewP("delta")
		q[j] = q[j].Add(delta)
		constant = Or(j > 0 || kind == random, delta.IsInf())
		for i := 0; i < j; i++ {
			delta = delta.Mul(Node(r))
		}
		dl.Commitment = commitment(kind == random || kind == product, q)
		priv = delta.IsInf()
	case 5:
		v, w := NewS("v"), NewS("w")
		switch c := dl.Ciphertext.(type) {
		case *mega.MEGaCiphertextSingle:
			c.CTexts[r] = MkScalar(SVal(c.CTexts[r]).Add(v))
			delta = G().Mul(v)
		case *mega.MEGaCiphertextPair:
			c.CTexts[r] = [2]curve.EccScalar{MkScalar(SVal(c.CTexts[r][0]).Add(v)), MkScalar(SVal(c.CTexts[r][1]).Add(w))}
			delta = G().Mul(v).Add(H().Mul(w))
		}
		priv = delta.IsInf()
	}
	var op dealings.IDkgTranscriptOperationInternal
	switch kind {
	case random:
		op = &dealings.RandomTranscript{}
	case unmasked:
		op = &dealings.ReshareOfUnmaskedTranscript{P1: commitment(false, left)}
		same = And(same, lz.Mul(at).IsZero())
	case masked:
		op = &dealings.ReshareOfMaskedTranscript{P1: commitment(true, right)}
		same = And(same, rz.Mul(at).IsZero())
	case product:
		op = &dealings.UnmaskedTimesMaskedTranscript{Left: commitment(false, left), Right: commitment(true, right)}
		same = And(same, lz.Mul(at).IsZero(), rz.Mul(at).IsZero())
	}
	Reach("tampered")
	err = dl.PubliclyVerify(curve.K256, op, t, d, 2, ad)
	Assert(Iff(err == nil, And(same, constant)), "publicly accepted exactly unchanged")
	s := mega.NewMEGaPrivateKey(MkScalar(sk[r]))
	err = dl.PrivateVerify(curve.K256, s, keys[r], ad, d, common.NodeIndex(r))
	Assert(Iff(err == nil, priv), "privately accepted exactly unchanged")
}
