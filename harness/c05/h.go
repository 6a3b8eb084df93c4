// Package c05: serialised commitments, openings and keys decode back to the same value.
package c05

import (
	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/oracle"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
)

// parity settles which of the two encodings of a point there is
func parity(p P) {
	if p.IsInf() {
		return
	}
	if p.Compressed()[0] == 2 {
		return
	}
}

func points(name string, n int) []P {
	r := make([]P, n)
	for i := range r {
		r[i] = P0(name)
		parity(r[i])
	}
	return r
}

func commitment(kind int, ps []P) poly.PolynomialCommitment {
	if kind == 0 {
		return poly.SimpleCM.New(Points(ps))
	}
	return poly.PedersenCM.New(Points(ps))
}

func kindOf(kind int) poly.PolynomialCommitmentType {
	return []poly.PolynomialCommitmentType{poly.Simple, poly.Pedersen}[kind]
}

func values(c poly.PolynomialCommitment) []P {
	var r []P
	for _, p := range c.Points() {
		r = append(r, PVal(p))
	}
	return r
}

// opening in either of its two representations
func opening(kind, form int, s []S) poly.CommitmentOpening {
	a := MkScalar(s[0])
	if kind == 0 {
		o := poly.SimpleCommitmentOpening{a}
		if form == 1 {
			return &o
		}
		return o
	}
	o := poly.PedersenCommitmentOpening{a, MkScalar(s[1])}
	if form == 1 {
		return &o
	}
	return o
}

// opened reads an opening (nil: of another kind)
func opened(o poly.CommitmentOpening) (int, []S) {
	switch o := poly.ValueOpening(o).(type) {
	case poly.SimpleCommitmentOpening:
		return 0, []S{SVal(o[0])}
	case poly.PedersenCommitmentOpening:
		return 1, []S{SVal(o[0]), SVal(o[1])}
	}
	return -1, nil
}

// opens is what opening means
func opens(kind int, ps []P, at int, o []S) bool {
	p := G().Mul(o[0])
	if kind == 1 {
		p = p.Add(H().Mul(o[1]))
	}
	return EvalP(ps, Node(at)).Eq(p)
}

// commitments of both kinds to 1..3 (thorough: 4) arbitrary points, identities included
//
//verif:paths=4000
func H_commitment() {
	Generic()
	kind := Choose("kind", 2)
	ps := points("p", 1+Choose("points", Tier(3, 4)))
	c := commitment(kind, ps)
	b, err := c.Serialize()
	Assert(err == nil && len(b) > 0, "commitment is serialised")
	d, err := poly.VerifDecode(b)
	Assert(err == nil, "commitment is decoded")
	if err != nil {
		return
	}
	Assert(d.Type() == kindOf(kind), "same kind")
	Assert(d.CurveType() == curve.K256, "same curve")
	Assert(EqP(values(d), ps), "same points")
	Assert(EqP(values(c), ps), "serialising leaves the commitment alone")
	Assert(d.Equal(c) == 1 && c.Equal(d) == 1, "equal to the original")
	Assert(EqBytes(d.StableRepresentation(), c.StableRepresentation()), "same stable representation")
	Assert(PVal(d.ConstantTerm()).Eq(ps[0]), "same constant term")
	at := Choose("node", 3)
	Assert(PVal(d.EvaluateAt(common.NodeIndex(at))).Eq(EvalP(ps, Node(at))), "same evaluation")
	b2, err := d.Serialize()
	Assert(err == nil, "decoded commitment is serialised")
	Assert(EqBytes(b, b2), "same bytes again")
	Reach("decoded")
}

// what a decoded commitment of 1..2 points accepts: openings of both kinds in both representations, also serialised and decoded or turned into
// bytes and back
func H_openings() {
	Generic()
	kind := Choose("kind", 2)
	ps := Ps("p", 1+Choose("points", 2))
	for _, p := range ps {
		parity(p)
	}
	b, err := commitment(kind, ps).Serialize()
	Assert(err == nil, "commitment is serialised")
	c, err := poly.VerifDecode(b)
	Assert(err == nil, "commitment is decoded")
	if err != nil {
		return
	}
	okind := Choose("opening kind", 2)
	s := Ss("o", 2)
	o := opening(okind, Choose("form", 2), s[:okind+1])
	at := Choose("node", 2)
	switch Choose("through", 3) {
	case 1:
		e, err := o.Serialize()
		Assert(err == nil, "opening is serialised")
		o, err = poly.Commitment.Deserialize(e)
		Assert(err == nil, "opening is decoded")
		if err != nil {
			return
		}
	case 2:
		o = o.ToCommitmentOpeningBytes().ToCommitmentOpening()
	}
	k, v := opened(o)
	Assert(k == okind, "same kind of opening")
	Assert(EqS(v, s[:okind+1]), "same scalars")
	want := false
	if kind == okind {
		want = opens(kind, ps, at, s)
	}
	ok := c.CheckOpening(common.NodeIndex(at), o)
	Assert(Iff(ok, want), "opening is accepted exactly if it opens the commitment")
	r, err := c.ReturnOpeningIfConsistent(common.NodeIndex(at), o)
	Assert(Iff(err == nil, want), "consistent opening")
	if err == nil {
		k, v := opened(r)
		Assert(k == okind, "kind of the opening returned")
		Assert(EqS(v, s[:okind+1]), "opening returned")
		Reach("opens")
	}
	e, err := o.Serialize()
	Assert(err == nil, "opening is serialised again")
	p, err := poly.Commitment.Deserialize(e)
	Assert(err == nil, "opening is decoded again")
	if err != nil {
		return
	}
	k, v = opened(p)
	Assert(k == okind, "same kind again")
	Assert(EqS(v, s[:okind+1]), "same scalars again")
	Reach("decoded")
}

// any two commitments of either kind with 1..2 arbitrary points, or any two openings: same bytes exactly for the same kind and contents
//
//verif:paths=6000
func H_distinct() {
	Generic()
	if Choose("what", 2) == 0 {
		ka, kb := Choose("kind a", 2), Choose("kind b", 2)
		pa, pb := points("a", 1+Choose("points a", 2)), points("b", 1+Choose("points b", 2))
		a, b := commitment(ka, pa), commitment(kb, pb)
		x, err1 := a.Serialize()
		y, err2 := b.Serialize()
		Assert(err1 == nil && err2 == nil, "commitments are serialised")
		same := And(ka == kb, EqP(pa, pb))
		Assert(Iff(EqBytes(x, y), same), "same bytes exactly for the same commitment")
		Assert(Iff(EqBytes(a.StableRepresentation(), b.StableRepresentation()), same), "same stable representation exactly for the same commitment")
		Assert(Iff(a.Equal(b) == 1, same), "equality of commitments")
		Reach("commitments")
		return
	}
	ka, kb := Choose("kind a", 2), Choose("kind b", 2)
	sa, sb := Ss("a", ka+1), Ss("b", kb+1)
	x, err1 := opening(ka, 0, sa).Serialize()
	y, err2 := opening(kb, 1, sb).Serialize()
	Assert(err1 == nil && err2 == nil, "openings are serialised")
	Assert(Iff(EqBytes(x, y), And(ka == kb, EqS(sa, sb))), "same bytes exactly for the same opening")
	Reach("openings")
}

// encryption keys with arbitrary contents
func H_keys() {
	s := NewS("secret")
	Assume(Not(s.IsZero()))
	k := mega.NewMEGaPrivateKey(MkScalar(s))
	b := k.Serialize()
	d, err := mega.PrivateKey.Deserialize(curve.K256, b)
	Assert(err == nil, "private key is decoded")
	if err != nil {
		return
	}
	Assert(SVal(d.SecretScalar()).Eq(s), "same secret")
	Assert(EqBytes(d.Serialize(), b), "same bytes")
	q := G().Mul(s)
	parity(q)
	pub := d.PublicKey()
	Assert(PVal(pub.PublicPoint()).Eq(q), "public key of the decoded key")
	pb := pub.Serialize()
	Assert(mega.VerifyMegaPublicKey(curve.K256, pb) == nil, "public key bytes are accepted")
	e, err := mega.PublicKey.Deserialize(curve.K256, pb)
	Assert(err == nil, "public key is decoded")
	if err != nil {
		return
	}
	Assert(PVal(e.PublicPoint()).Eq(q), "same point")
	Assert(EqBytes(e.Serialize(), pb), "same public key bytes")
	Assert(e.CurveType() == curve.K256 && d.CurveType() == curve.K256, "curve")
	Reach("decoded")
}

// two keys have the same bytes exactly if they are the same
func H_keysDistinct() {
	p, q := NewP("p"), P0("q")
	parity(p)
	parity(q)
	Assert(Iff(EqBytes(mega.NewMEGaPublicKey(MkPoint(p)).Serialize(), mega.NewMEGaPublicKey(MkPoint(q)).Serialize()), p.Eq(q)), "public keys")
	s, t := NewS("s"), NewS("t")
	Assert(Iff(EqBytes(mega.NewMEGaPrivateKey(MkScalar(s)).Serialize(), mega.NewMEGaPrivateKey(MkScalar(t)).Serialize()), s.Eq(t)), "private keys")
	Reach("compared")
}

// all byte strings of 0..40 and 64..66 bytes as keys
func H_keyBytes() {
	n := Choose("length", 44)
	if n > 40 {
		n += 23
	}
	b := Bytes("b", n)
	k, err := mega.PrivateKey.Deserialize(curve.K256, b)
	Assert((err == nil) == (k != nil), "private key or error")
	if err == nil {
		Assert(n == 32, "length of a private key")
		Assert(EqBytes(k.Serialize(), b), "private key keeps its bytes")
		Reach("private")
	}
	p, err := mega.PublicKey.Deserialize(curve.K256, b)
	Assert((err == nil) == (p != nil), "public key or error")
	Assert((err == nil) == (mega.VerifyMegaPublicKey(curve.K256, b) == nil), "verified exactly when decoded")
	if err == nil {
		Assert(n == 33, "length of a public key")
		Assert(EqBytes(p.Serialize(), b), "public key keeps its bytes")
		Reach("public")
	}
}

// usable exercises a value that was decoded
func usable(c poly.PolynomialCommitment) {
	Assert(c.Len() > 0 && len(c.Points()) == c.Len(), "commitment has points")
	for _, p := range c.Points() {
		x, y, inf := PCoords(p)
		Assert(Or(inf, OnCurve(x, y)), "point is on the curve")
	}
	Assert(c.Type() == poly.Simple || c.Type() == poly.Pedersen, "known kind")
	_, err := c.Serialize()
	Assert(err == nil, "decoded commitment is serialised")
	c.EvaluateAt(1)
	c.ConstantTerm()
	c.StableRepresentation()
	c.CheckOpening(0, poly.SimpleCommitmentOpening{MkScalar(SInt(1))})
	c.CheckOpening(0, &poly.PedersenCommitmentOpening{MkScalar(SInt(1)), MkScalar(SInt(2))})
	Assert(c.Clone().Equal(c) == 1, "clone")
}

func usableOpening(o poly.CommitmentOpening) {
	k, _ := opened(o)
	Assert(k >= 0, "known kind of opening")
	_, err := o.Serialize()
	Assert(err == nil, "decoded opening is serialised")
	o.ToCommitmentOpeningBytes()
	for i := 0; i < 2; i++ {
		commitment(i, []P{G()}).CheckOpening(0, o)
	}
}

func good(which int) []byte {
	var b []byte
	switch which {
	case 0:
		b, _ = commitment(0, []P{G(), Inf()}).Serialize()
	case 1:
		b, _ = commitment(1, []P{G().Mul(SInt(3))}).Serialize()
	case 2:
		b, _ = opening(0, 0, []S{SInt(5)}).Serialize()
	case 3:
		b, _ = opening(1, 0, []S{SInt(5), SInt(6)}).Serialize()
	}
	return b
}

func decode(which int, b []byte) bool {
	if which < 2 {
		c, err := poly.VerifDecode(b)
		Assert((err == nil) == (c != nil), "commitment or error")
		if err != nil {
			return false
		}
		usable(c)
		return true
	}
	o, err := poly.Commitment.Deserialize(b)
	Assert((err == nil) == (o != nil), "opening or error")
	if err != nil {
		return false
	}
	usableOpening(o)
	return true
}

// every truncation of encodings of commitments and openings, and one or two arbitrary bytes more
//
//verif:paths=2000
func H_truncated() {
	w := Choose("what", 4)
	b := good(w)
	n := Choose("length", len(b)+2)
	if n > len(b) {
		b = append(b, Bytes("more", n-len(b))...)
	}
	ok := decode(w, b[:n])
	Assert(ok == (n == len(good(w))), "only whole encodings are accepted")
	if ok {
		Reach("whole")
	}
}

// encodings of commitments and openings with one arbitrary byte anywhere
//
//verif:paths=20000 budget=60
func H_changed() {
	w := Choose("what", 4)
	b := good(w)
	b[Choose("position", len(b))] = U8("byte")
	if decode(w, b) {
		Reach("accepted")
	}
}

func text(s string) []byte { return append([]byte{0x60 + byte(len(s))}, s...) }

// well-formed containers with arbitrary kinds and curves (-2..3 and large), 0..3 elements, each a point or scalar of the right kind, of the other kind, an empty
// string, null or a number, as an array, a map, a string, null or nothing
//
//verif:paths=20000 budget=120
func H_shapes() {
	w := Choose("what", 2)
	num := func(name string) ([]byte, int) {
		v := Choose(name, 6)
		return [][]byte{{0}, {1}, {2}, {3}, {0x20}, {0x1b, 0, 0, 0, 1, 0, 0, 0, 1}}[v], v
	}
	crv, cv := num("curve")
	knd, kv := num("kind")
	n := Choose("elements", 4)
	var msg []byte
	well := true
	shape := 0
	if cv != 1 || kv != 1 && kv != 2 {
		n = 1
	} else {
		shape = Choose("shape", 5)
	}
	switch shape {
	case 0:
		msg = []byte{0x80 + byte(n)}
		odd := Choose("odd", n+1) // which element is odd, if any
		for i := 0; i < n; i++ {
			var e []byte
			k := 0
			if i == odd {
				k = 1 + Choose("element", 4)
				well = false
			}
			pt := append([]byte{1}, G().Compressed()...)
			sc := append([]byte{1}, SInt(7).Bytes()...)
			if w == 1 {
				pt, sc = sc, pt
			}
			switch k {
			case 0:
				e = append([]byte{0x58, byte(len(pt))}, pt...)
			case 1:
				e = append([]byte{0x58, byte(len(sc))}, sc...)
			case 2:
				e = []byte{0x40}
			case 3:
				e = []byte{0xf6}
			case 4:
				e = []byte{0x05}
			}
			msg = append(msg, e...)
		}
	case 1:
		msg = []byte{0xa0}
	case 2:
		msg = []byte{0x41, 0x01}
	case 3:
		msg = []byte{0xf6}
	case 4:
		msg = nil
	}
	kn := []string{"CommitmentType", "CommitType"}[w]
	b := []byte{0xa3}
	if msg == nil {
		b[0]--
	}
	b = append(append(b, text("CurveType")...), crv...)
	b = append(append(b, text(kn)...), knd...)
	if msg != nil {
		b = append(append(b, text("Message")...), msg...)
	}
	ok := decode(2*w, b)
	want := well && shape == 0 && cv == 1 && (kv == 1 || kv == 2)
	if w == 0 {
		want = want && n > 0
	} else {
		want = want && n == kv
	}
	Assert(ok == want, "accepted exactly if well formed")
	if ok {
		Reach("accepted")
	} else {
		Reach("refused")
	}
}

// every byte string of 0..1 (thorough: 3) bytes as a commitment or opening
//
//verif:paths=20000
func H_garbage() {
	Assert(!decode(2*Choose("what", 2), Bytes("b", Choose("length", Tier(2, 4)))), "garbage is refused")
	Reach("refused")
}
