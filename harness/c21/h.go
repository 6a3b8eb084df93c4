// Package c21: complaints are raised exactly for bad dealings and convince verifiers.
package c21

import (
	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/complaints"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/ro"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/zk"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/oracle"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
	"github.com/tidwall/btree"
)

type dealing = dealings.IDkgDealingInternal

func key(s S) *mega.MEGaPrivateKey { return mega.NewMEGaPrivateKey(MkScalar(s)) }

func commit(kind int, v [2]S) P {
	p := G().Mul(v[0])
	if kind == 1 {
		p = p.Add(H().Mul(v[1]))
	}
	return p
}

func commitment(kind int, p []P) poly.PolynomialCommitment {
	if kind == 1 {
		return poly.PedersenCM.New(Points(p))
	}
	return poly.SimpleCM.New(Points(p))
}

// receivers makes n receivers with arbitrary nonzero keys
func receivers(n int) ([]S, []*mega.MEGaPublicKey) {
	sk := Ss("sk", n)
	var keys []*mega.MEGaPublicKey
	for i := range sk {
		Assume(Not(sk[i].IsZero()))
		keys = append(keys, key(sk[i]).PublicKey())
	}
	return sk, keys
}

// mkdealing encrypts arbitrary shares to the receivers. Its commitment of two points has at receiver r the value the
// share opens plus the returned shift (arbitrary if bad, otherwise none).
func mkdealing(kind int, dealer common.NodeIndex, ad []byte, keys []*mega.MEGaPublicKey, r int, bad bool) (*dealing, P) {
	v := make([][2]S, len(keys))
	var one []curve.EccScalar
	var two [][2]curve.EccScalar
	for i := range v {
		v[i] = [2]S{NewS("v"), NewS("m")}
		one = append(one, MkScalar(v[i][0]))
		two = append(two, [2]curve.EccScalar{MkScalar(v[i][0]), MkScalar(v[i][1])})
	}
	sd := seed.FromBytes(Bytes("seed", 4))
	var c mega.MEGaCiphertext
	var err error
	if kind == 1 {
		c, err = mega.EncryptCiphertextPair(sd, two, keys, dealer, ad)
	} else {
		c, err = mega.EncryptCiphertextSingle(sd, one, keys, dealer, ad)
	}
	Assert(err == nil, "encryption succeeds")
	return &dealing{Ciphertext: c, Commitment: opened(kind, v[r], r, bad, "shift")}, lastShift
}

var lastShift P

// opened makes a commitment that the values open at receiver r if not bad
func opened(kind int, v [2]S, r int, bad bool, name string) poly.PolynomialCommitment {
	lastShift = Inf()
	if bad {
		lastShift = NewP(name)
	}
	k := NewP("k")
	return commitment(kind, []P{commit(kind, v).Sub(k.Mul(Node(r))).Add(lastShift), k})
}

var dealers = []common.NodeIndex{70000, 3}

// 1..2 dealings (both kinds) by dealers 70000 and 3 with arbitrary shares for 2 receivers with arbitrary nonzero keys, each
// commitment shifted by an arbitrary point or not at all: complaints are about exactly the dealings whose share does not
// open, an error is given if there is none; every complaint verifies, and the dealings are left as they were
func H_generate() {
	Generic()
	kind, n, r := Choose("kind", 2), 1+Choose("n", 2), Choose("receiver", 2)
	sk, keys := receivers(2)
	ad := Bytes("ad", Choose("adlen", 2))
	var m btree.Map[common.NodeIndex, *dealing]
	ds := make([]*dealing, n)
	bad := make([]bool, n)
	count := 0
	for i := range ds {
		var s P
		ds[i], s = mkdealing(kind, dealers[i], ad, keys, r, Choose("bad", 2) == 1)
		if !s.IsInf() {
			bad[i] = true
			count++
		}
		m.Set(dealers[i], ds[i])
	}
	cs, err := complaints.GenerateComplaints(&m, ad, common.NodeIndex(r), key(sk[r]), keys[r], seed.FromBytes(Bytes("cseed", 4)))
	if count == 0 {
		Reach("none")
		Assert(err != nil, "no complaint to raise")
		return
	}
	Assert(err == nil, "complaints are raised")
	if err != nil {
		return
	}
	Reach("some")
	Assert(cs.Len() == count, "as many complaints as bad dealings")
	for i := range ds {
		c, ok := cs.Get(dealers[i])
		Assert(ok == bad[i], "a complaint exactly for a bad dealing")
		if ok {
			Assert(c.Verify(ds[i], dealers[i], common.NodeIndex(r), keys[r], ad) == nil, "the complaint verifies")
			Assert(c.Verify(ds[i], dealers[i], common.NodeIndex(r), keys[r], ad) == nil, "and does again")
		}
	}
}

// three dealings by dealers 1, 2 and 4 for three receivers, any subset of which does not open: complaints exactly for these
func H_generateMany() {
	Generic()
	r := Choose("receiver", 3)
	sk, keys := receivers(3)
	ad := []byte{7}
	var m btree.Map[common.NodeIndex, *dealing]
	ix := []common.NodeIndex{1, 2, 4}
	ds := make([]*dealing, 3)
	bad := Choose("bad", 7) + 1
	for i := range ds {
		var s P
		ds[i], s = mkdealing(Choose("kind", 1)+i%2, ix[i], ad, keys, r, bad>>i&1 == 1)
		Assume(Iff(s.IsInf(), bad>>i&1 == 0))
		m.Set(ix[i], ds[i])
	}
	cs, err := complaints.GenerateComplaints(&m, ad, common.NodeIndex(r), key(sk[r]), keys[r], seed.FromBytes(Bytes("cseed", 4)))
	Assert(err == nil, "complaints are raised")
	if err != nil {
		return
	}
	Reach("many")
	for i := range ds {
		c, ok := cs.Get(ix[i])
		Assert(ok == (bad>>i&1 == 1), "a complaint exactly for a bad dealing")
		if ok {
			Assert(c.Verify(ds[i], ix[i], common.NodeIndex(r), keys[r], ad) == nil, "the complaint verifies")
		}
	}
}

// context of a complaint
type context struct {
	dealer, complainer common.NodeIndex
	key                P
	ad                 []byte
}

// a complaint about any dealing (both kinds), made by the holder of an arbitrary key, and presented with another dealer or
// complainer (below 2^32, in range of the dealing), key, associated data (0..2 bytes) or dealing with another ephemeral
// key: rejected, whether or not the other dealing's share opens; with its own context, accepted exactly when the share
// does not open
func H_context() {
	Generic()
	kind := Choose("kind", 2)
	sk, keys := receivers(1)
	keys = append(keys, keys[0])
	l := Choose("adlen", 3)
	a := context{common.NodeIndex(U32("dealer")), common.NodeIndex(Choose("receiver", 2)), G().Mul(sk[0]), Bytes("ad", l)}
	d, shift := mkdealing(kind, a.dealer, a.ad, keys, int(a.complainer), true)
	c, err := complaints.NewComplaintInternal(seed.FromBytes(Bytes("cseed", 4)), d, a.dealer, a.complainer, key(sk[0]), keys[0], a.ad)
	Assert(err == nil, "a complaint")
	if err != nil {
		return
	}
	b, other := a, d
	what := Choose("what", 7)
	switch what {
	case 1:
		b.dealer = common.NodeIndex(U32("dealer'"))
		Assume(b.dealer != a.dealer)
	case 2:
		b.complainer = 1 - a.complainer
	case 3:
		b.key = NewP("key'")
		Assume(Not(b.key.Eq(a.key)))
	case 4:
		b.ad = Bytes("ad'", l)
		Assume(Not(EqBytes(a.ad, b.ad)))
	case 5:
		b.ad = Bytes("ad'", l+1)
	case 6:
		other, _ = mkdealing(kind, b.dealer, b.ad, keys, int(b.complainer), true)
		Assume(Not(PVal(other.Ciphertext.Ephemeral()).Eq(PVal(d.Ciphertext.Ephemeral()))))
	}
	err = c.Verify(other, b.dealer, b.complainer, mega.NewMEGaPublicKey(MkPoint(b.key)), b.ad)
	if what == 0 {
		Reach("own context")
		Assert(Iff(err == nil, Not(shift.IsInf())), "accepted exactly when the share does not open")
	} else {
		Reach("other context")
		Assert(err != nil, "rejected")
	}
}

// a complaint with a correct proof whose shared secret is replaced by another arbitrary point, or a proof for another shared
// secret: rejected
func H_sharedSecret() {
	Generic()
	kind := Choose("kind", 2)
	sk, keys := receivers(2)
	r := common.NodeIndex(Choose("receiver", 2))
	ad := []byte{1}
	d, _ := mkdealing(kind, 5, ad, keys, int(r), true)
	own := PVal(d.Ciphertext.Ephemeral()).Mul(sk[r])
	c, err := complaints.NewComplaintInternal(seed.FromBytes(Bytes("cseed", 4)), d, 5, r, key(sk[r]), keys[r], ad)
	Assert(err == nil, "a complaint")
	if err != nil {
		return
	}
	Assert(PVal(GetF(c, "sharedSecret", 1).(curve.EccPoint)).Eq(own), "the shared secret")
	p := P0("secret")
	if Choose("other", 2) == 1 {
		// the proof of another receiver's key, presented as one's own
		x := NewS("x")
		Assume(Not(x.Eq(sk[r])))
		c, err = complaints.NewComplaintInternal(seed.FromBytes(Bytes("cseed'", 4)), d, 5, r, key(x), keys[r], ad)
		Assert(err == nil, "a complaint")
		p = PVal(d.Ciphertext.Ephemeral()).Mul(x)
		Assume(Not(PVal(d.Ciphertext.Ephemeral()).IsInf()))
	}
	Assume(Not(p.Eq(own)))
	SetF(c, "sharedSecret", 1, MkPoint(p))
	Reach("secret")
	Assert(c.Verify(d, 5, r, keys[r], ad) != nil, "rejected")
}

func proof(c, z S) *zk.ProofOfDLogEquivalence {
	p := &zk.ProofOfDLogEquivalence{}
	SetF(p, "challenge", 0, MkScalar(c))
	SetF(p, "response", 1, MkScalar(z))
	return p
}

// an arbitrary complaint (arbitrary or correct proof and shared secret) about an arbitrary dealing (both kinds of ciphertext and of
// commitment, two recipients, arbitrary ephemeral key, shares and points), dealer below 2^32, complainer -1..2: accepted
// exactly when the proof verifies for the keys and the context, kinds match, the complainer is a recipient and what its
// share decrypts to with the shared secret does not open the commitment
func H_arbitrary() {
	Generic()
	kind, ckind := Choose("kind", 2), Choose("ckind", 2)
	eph, sec, pk := NewP("eph"), NewP("sec"), NewP("pk")
	switch Choose("degenerate", 4) {
	case 1:
		eph = Inf()
	case 2:
		sec = Inf()
	case 3:
		pk = Inf()
	}
	sk, honest := NewS("sk"), Choose("honest", 2) == 1
	if honest {
		sec, pk = eph.Mul(sk), G().Mul(sk)
	}
	dealer, r := common.NodeIndex(U32("dealer")), common.NodeIndex(Choose("complainer", 4)-1)
	ad := Bytes("ad", Choose("adlen", 2))
	o := ro.NewRandomOracle("ic-crypto-tecdsa-complaint-proof-assoc-data")
	o.AddBytesString("associated_data", ad)
	o.AddUint32("receiver_index", uint32(r))
	o.AddUint32("dealer_index", uint32(dealer))
	o.AddPoint("receiver_public_key", MkPoint(pk))
	assoc, err := o.OutputByteString(32)
	Assert(err == nil, "associated data")
	pf := proof(NewS("c"), NewS("z"))
	if honest {
		Reach("honest")
		pf, err = zk.ProofOfDLogEquivalenceIns.Create(seed.FromBytes([]byte{1}), MkScalar(sk), MkPoint(G()), MkPoint(eph), assoc)
		Assert(err == nil, "proof")
	}
	good := pf.Verify(MkPoint(G()), MkPoint(eph), MkPoint(pk), MkPoint(sec), assoc) == nil
	ok := good && kind == ckind && r >= 0 && r < 2
	d := &dealing{}
	x, pub := Ss("x", 4), mega.NewMEGaPublicKey(MkPoint(pk))
	v := [2]S{SInt(0), SInt(0)}
	if kind == 0 {
		s := &mega.MEGaCiphertextSingle{EphemeralKey: MkPoint(eph), CTexts: Scalars(x[:2])}
		d.Ciphertext = s
		if ok {
			w, err := s.DecryptFromSharedSecret(ad, dealer, r, pub, MkPoint(sec))
			Assert(err == nil, "decrypted")
			v[0] = SVal(w)
		}
	} else {
		s := &mega.MEGaCiphertextPair{EphemeralKey: MkPoint(eph), CTexts: [][2]curve.EccScalar{{MkScalar(x[0]), MkScalar(x[1])}, {MkScalar(x[2]), MkScalar(x[3])}}}
		d.Ciphertext = s
		if ok {
			w, err := s.DecryptFromSharedSecret(ad, dealer, r, pub, MkPoint(sec))
			Assert(err == nil, "decrypted")
			v = [2]S{SVal(w[0]), SVal(w[1])}
		}
	}
	d.Commitment = opened(ckind, v, int(r), true, "shift")
	bad := !lastShift.IsInf()
	c := &complaints.IDkgComplaintInternal{}
	SetF(c, "proof", 0, pf)
	SetF(c, "sharedSecret", 1, MkPoint(sec))
	Reach("arbitrary")
	err = c.Verify(d, dealer, r, pub, ad)
	Assert(Iff(err == nil, ok && bad), "accepted exactly for a proof about a share that does not open")
}
