// Package c16: encrypted shares decrypt only for their recipient and context.
package c16

import (
	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/zk"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/oracle"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
)

func node(name string) common.NodeIndex { return common.NodeIndex(U32(name)) }

func priv(s S) *mega.MEGaPrivateKey { return mega.NewMEGaPrivateKey(MkScalar(s)) }
func pub(p P) *mega.MEGaPublicKey   { return mega.NewMEGaPublicKey(MkPoint(p)) }

func pairs(a [][2]S) [][2]curve.EccScalar {
	r := make([][2]curve.EccScalar, len(a))
	for i := range a {
		r[i] = [2]curve.EccScalar{MkScalar(a[i][0]), MkScalar(a[i][1])}
	}
	return r
}

func ss(name string, n int) [][2]S {
	r := make([][2]S, n)
	for i := range r {
		r[i] = [2]S{NewS(name + "0"), NewS(name + "1")}
	}
	return r
}

// encrypt makes a ciphertext of the kind (0 single, 1 pair) for the given first (and second) plaintexts
func encrypt(kind int, sd *seed.Seed, pt [][2]S, keys []*mega.MEGaPublicKey, dealer common.NodeIndex, ad []byte) (mega.MEGaCiphertext, error) {
	if kind == 0 {
		var one []curve.EccScalar
		for i := range pt {
			one = append(one, MkScalar(pt[i][0]))
		}
		c, err := mega.EncryptCiphertextSingle(sd, one, keys, dealer, ad)
		for i := range pt {
			Assert(SVal(one[i]).Eq(pt[i][0]), "the plaintexts are left as they were")
		}
		if err != nil {
			return nil, err
		}
		return c, nil
	}
	two := pairs(pt)
	c, err := mega.EncryptCiphertextPair(sd, two, keys, dealer, ad)
	for i := range pt {
		Assert(And(SVal(two[i][0]).Eq(pt[i][0]), SVal(two[i][1]).Eq(pt[i][1])), "the plaintexts are left as they were")
	}
	if err != nil {
		return nil, err
	}
	return c, nil
}

// decrypt returns the plaintext(s) (the second is zero for single ciphertexts)
func decrypt(c mega.MEGaCiphertext, ad []byte, dealer, recipient common.NodeIndex, sk *mega.MEGaPrivateKey, pk *mega.MEGaPublicKey) ([2]S, error) {
	switch x := c.(type) {
	case *mega.MEGaCiphertextSingle:
		s, err := x.Decrypt(ad, dealer, recipient, sk, pk)
		if err != nil {
			return [2]S{}, err
		}
		return [2]S{SVal(s), SInt(0)}, nil
	case *mega.MEGaCiphertextPair:
		s, err := x.Decrypt(ad, dealer, recipient, sk, pk)
		if err != nil {
			return [2]S{}, err
		}
		return [2]S{SVal(s[0]), SVal(s[1])}, nil
	}
	Assert(false, "kind of ciphertext")
	return [2]S{}, nil
}

// both kinds, 1..3 recipients with arbitrary keys (repeated ones included) and plaintexts, any seed, dealer below 2^32,
// associated data of 0..2 bytes: every recipient decrypts its own plaintext(s); the inputs are left as they were
func H_roundtrip() {
	Generic()
	kind, n := Choose("kind", 2), 1+Choose("n", 3)
	sk, pt := Ss("sk", n), ss("pt", n)
	keys := make([]*mega.MEGaPublicKey, n)
	for i := range keys {
		keys[i] = priv(sk[i]).PublicKey()
		Assert(PVal(keys[i].PublicPoint()).Eq(G().Mul(sk[i])), "public key")
	}
	d := node("dealer")
	ad := Bytes("ad", Choose("adlen", 3))
	c, err := encrypt(kind, seed.FromBytes(Bytes("seed", 32)), pt, keys, d, ad)
	Assert(err == nil, "encryption succeeds")
	if err != nil {
		return
	}
	Reach("encrypted")
	Assert(c.Recipients() == n, "one share per recipient")
	Assert(c.CheckValidity(n, ad, d) == nil, "valid")
	Assert(c.CheckValidity(n+1, ad, d) != nil, "wrong number of recipients")
	Assert(c.CheckValidity(n-1, ad, d) != nil, "wrong number of recipients")
	Assert(c.VerifyIs(mega.MEGaCiphertextType(kind), curve.K256) == nil, "kind")
	Assert(c.VerifyIs(mega.MEGaCiphertextType(1-kind), curve.K256) != nil, "other kind")
	for i := range keys {
		got, err := decrypt(c, ad, d, common.NodeIndex(i), priv(sk[i]), keys[i])
		Assert(err == nil, "decryption succeeds")
		if err != nil {
			return
		}
		Assert(got[0].Eq(pt[i][0]), "first plaintext")
		if kind == 1 {
			Assert(got[1].Eq(pt[i][1]), "second plaintext")
		}
	}
	_, err = decrypt(c, ad, d, common.NodeIndex(n), priv(sk[0]), keys[0])
	Assert(err != nil, "no such recipient")
	_, err = decrypt(c, ad, d, -1, priv(sk[0]), keys[0])
	Assert(err != nil, "no such recipient")
}

// mismatched or missing plaintexts and recipients give an error
func H_counts() {
	kind, n, m := Choose("kind", 2), Choose("n", 3), Choose("m", 3)
	pt := ss("pt", n)
	keys := make([]*mega.MEGaPublicKey, m)
	for i := range keys {
		keys[i] = pub(NewP("pk"))
	}
	_, err := encrypt(kind, seed.FromBytes(Bytes("seed", 2)), pt, keys, 1, nil)
	Reach("counts")
	Assert(Iff(err == nil, n == m && n > 0), "accepted exactly for one plaintext per recipient")
}

// a decryption context
type ctx struct {
	kind    int
	dealer  common.NodeIndex
	rec     int
	ad      []byte
	pk      P
	eph, sh P
}

func mkctx(tag string, adlen int) ctx {
	return ctx{Choose("kind", 2), node("dealer" + tag), Choose("rec", 2), Bytes("ad"+tag, adlen), NewP("pk" + tag), NewP("eph" + tag), NewP("sh" + tag)}
}

// masks of the share cts[0]: what is subtracted from it
func (c ctx) masks(ct [2]S) [2]S {
	if c.kind == 0 {
		m := mega.MEGaCiphertextSingle{EphemeralKey: MkPoint(c.eph), CTexts: []curve.EccScalar{MkScalar(ct[0]), MkScalar(ct[0])}}
		s, err := m.DecryptFromSharedSecret(c.ad, c.dealer, common.NodeIndex(c.rec), pub(c.pk), MkPoint(c.sh))
		Assert(err == nil, "decryption succeeds")
		Assert(SVal(m.CTexts[c.rec]).Eq(ct[0]), "the ciphertext is left as it was")
		return [2]S{ct[0].Sub(SVal(s)), SInt(0)}
	}
	x := pairs([][2]S{ct, ct})
	m := mega.MEGaCiphertextPair{EphemeralKey: MkPoint(c.eph), CTexts: x}
	s, err := m.DecryptFromSharedSecret(c.ad, c.dealer, common.NodeIndex(c.rec), pub(c.pk), MkPoint(c.sh))
	Assert(err == nil, "decryption succeeds")
	Assert(And(SVal(x[c.rec][0]).Eq(ct[0]), SVal(x[c.rec][1]).Eq(ct[1])), "the ciphertext is left as it was")
	return [2]S{ct[0].Sub(SVal(s[0])), ct[1].Sub(SVal(s[1]))}
}

// two arbitrary contexts (kind, dealer below 2^32, recipient position 0..1, associated data of 0..2 bytes, recipient key,
// ephemeral key, shared secret): the masks are equal exactly when the contexts are, and do not depend on the share
//
//verif:paths=4000
func H_context() {
	Generic()
	l := Choose("adlen", 3)
	a := mkctx("", l)
	b := mkctx("'", []int{l, l + 1}[Choose("adlen'", 2)])
	c1, c2 := [2]S{NewS("c"), NewS("c")}, [2]S{NewS("c'"), NewS("c'")}
	ma, mb := a.masks(c1), b.masks(c2)
	Reach("context")
	same := a.kind == b.kind && a.rec == b.rec && len(a.ad) == len(b.ad)
	if same {
		same = And(a.dealer == b.dealer, EqBytes(a.ad, b.ad), a.pk.Eq(b.pk), a.eph.Eq(b.eph), a.sh.Eq(b.sh))
	}
	Assert(Iff(ma[0].Eq(mb[0]), same), "same mask exactly for the same context")
	if a.kind == 1 && b.kind == 1 {
		Assert(Iff(ma[1].Eq(mb[1]), same), "same mask exactly for the same context")
		Assert(Not(ma[0].Eq(mb[1])), "the masks of a pair are different")
	}
}

// an honest ciphertext presented under another dealer, associated data or kind is rejected by the validity check and by
// decryption (both kinds, 1..2 recipients, dealers below 2^32, associated data of 0..2 bytes)
func H_popContext() {
	Generic()
	kind, n := Choose("kind", 2), 1+Choose("n", 2)
	sk := NewS("sk")
	Assume(Not(sk.IsZero()))
	keys := make([]*mega.MEGaPublicKey, n)
	for i := range keys {
		keys[i] = priv(sk).PublicKey()
	}
	d, d2 := node("dealer"), node("dealer'")
	l := Choose("adlen", 3)
	ad := Bytes("ad", l)
	ad2 := Bytes("ad'", []int{l, l + 1}[Choose("adlen'", 2)])
	c, err := encrypt(kind, seed.FromBytes(Bytes("seed", 32)), ss("pt", n), keys, d, ad)
	Assert(err == nil, "encryption succeeds")
	if err != nil {
		return
	}
	same := d == d2
	if len(ad) == len(ad2) {
		same = And(same, EqBytes(ad, ad2))
	} else {
		same = false
	}
	if Choose("otherkind", 2) == 1 {
		same = false
		if kind == 0 {
			c = &mega.MEGaCiphertextPair{EphemeralKey: c.Ephemeral(), PopPublicKey: c.PopPublic(), PopProof: c.Proof(), CTexts: pairs(ss("x", n))}
		} else {
			c = &mega.MEGaCiphertextSingle{EphemeralKey: c.Ephemeral(), PopPublicKey: c.PopPublic(), PopProof: c.Proof(), CTexts: Scalars(Ss("x", n))}
		}
	}
	Reach("pop")
	err = c.CheckValidity(n, ad2, d2)
	Assert(Iff(err == nil, same), "valid exactly for its own kind, dealer and associated data")
	_, err = decrypt(c, ad2, d2, 0, priv(sk), keys[0])
	Assert(Iff(err == nil, same), "decrypted exactly for its own kind, dealer and associated data")
}

func proof(c, z S) *zk.ProofOfDLogEquivalence {
	p := &zk.ProofOfDLogEquivalence{}
	SetF(p, "challenge", 0, MkScalar(c))
	SetF(p, "response", 1, MkScalar(z))
	return p
}

// arbitrary ephemeral key, possession key and proof: valid exactly when the proof verifies for these keys and the base
// computed from kind, associated data, dealer and ephemeral key; decryption is refused otherwise
func H_popArbitrary() {
	Generic()
	kind := Choose("kind", 2)
	eph, pop := NewP("eph"), NewP("pop")
	pf := proof(NewS("c"), NewS("z"))
	d := node("dealer")
	ad := Bytes("ad", Choose("adlen", 2))
	base, err := mega.ComputePopBase(mega.MEGaCiphertextType(kind), curve.K256, ad, d, MkPoint(eph))
	Assert(err == nil, "base")
	ok := pf.Verify(MkPoint(G()), base, MkPoint(eph), MkPoint(pop), ad) == nil
	var c mega.MEGaCiphertext
	if kind == 0 {
		c = &mega.MEGaCiphertextSingle{EphemeralKey: MkPoint(eph), PopPublicKey: MkPoint(pop), PopProof: pf, CTexts: Scalars(Ss("x", 2))}
	} else {
		c = &mega.MEGaCiphertextPair{EphemeralKey: MkPoint(eph), PopPublicKey: MkPoint(pop), PopProof: pf, CTexts: pairs(ss("x", 2))}
	}
	Reach("arbitrary")
	n := 1 + Choose("n", 3)
	Assert(Iff(c.CheckValidity(n, ad, d) == nil, And(ok, n == 2)), "valid exactly with a proof of possession")
	sk := NewS("sk")
	_, err = decrypt(c, ad, d, 1, priv(sk), priv(sk).PublicKey())
	Assert(Iff(err == nil, ok), "decrypted exactly with a proof of possession")
}

// possession bases for two arbitrary contexts: equal exactly when kind, dealer, associated data and ephemeral key are
func H_popBase() {
	Generic()
	k1, k2 := Choose("kind", 2), Choose("kind'", 2)
	l := Choose("adlen", 3)
	a1, a2 := Bytes("ad", l), Bytes("ad'", []int{l, l + 1}[Choose("adlen'", 2)])
	d1, d2 := node("dealer"), node("dealer'")
	e1, e2 := NewP("eph"), NewP("eph'")
	b1, err := mega.ComputePopBase(mega.MEGaCiphertextType(k1), curve.K256, a1, d1, MkPoint(e1))
	Assert(err == nil, "base")
	b2, err := mega.ComputePopBase(mega.MEGaCiphertextType(k2), curve.K256, a2, d2, MkPoint(e2))
	Assert(err == nil, "base")
	Reach("base")
	same := k1 == k2 && len(a1) == len(a2)
	if same {
		same = And(d1 == d2, EqBytes(a1, a2), e1.Eq(e2))
	}
	Assert(Iff(PVal(b1).Eq(PVal(b2)), same), "same base exactly for the same context")
}

// a prover who makes a correct proof of possession for a base computed with another dealer, associated data, kind or
// ephemeral key is rejected
func H_popFixedLater() {
	Generic()
	beta, r := NewS("beta"), NewS("r")
	Assume(And(Not(beta.IsZero()), Not(r.IsZero())))
	kind := Choose("kind", 2)
	ad, d, eph := Bytes("ad", 1), node("dealer"), G().Mul(beta)
	k2, ad2, d2, eph2 := kind, ad, d, eph
	switch Choose("which", 4) {
	case 0:
		k2 = 1 - kind
	case 1:
		ad2 = Bytes("ad'", 1)
		Assume(Not(EqBytes(ad, ad2)))
	case 2:
		d2 = node("dealer'")
		Assume(d != d2)
	case 3:
		eph2 = NewP("eph'")
		Assume(Not(eph2.Eq(eph)))
	}
	base, err := mega.ComputePopBase(mega.MEGaCiphertextType(k2), curve.K256, ad2, d2, MkPoint(eph2))
	Assert(err == nil, "base")
	b := PVal(base)
	pf, err := zk.ProofOfDLogEquivalenceIns.Create(seed.FromBytes(Bytes("seed", 2)), MkScalar(beta), MkPoint(G()), base, ad)
	Assert(err == nil, "proof")
	var c mega.MEGaCiphertext
	if kind == 0 {
		c = &mega.MEGaCiphertextSingle{EphemeralKey: MkPoint(eph), PopPublicKey: MkPoint(b.Mul(beta)), PopProof: pf, CTexts: Scalars(Ss("x", 1))}
	} else {
		c = &mega.MEGaCiphertextPair{EphemeralKey: MkPoint(eph), PopPublicKey: MkPoint(b.Mul(beta)), PopProof: pf, CTexts: pairs(ss("x", 1))}
	}
	Reach("later")
	Assert(c.CheckValidity(1, ad, d) != nil, "rejected")
}

// an honest ciphertext (both kinds, two recipients, commitments of two coefficients) whose share for one recipient is
// replaced by arbitrary scalars: checked decryption succeeds exactly when what decrypts opens the commitment at the
// recipient, and shares of the commitment itself are accepted
func H_checked() {
	Generic()
	kind, n := Choose("kind", 2), 2
	rec := Choose("rec", 2)
	f, g := Ss("f", 2), Ss("g", 2)
	var com poly.PolynomialCommitment
	if kind == 0 {
		c, err := poly.SimpleCM.Create(Poly(f), 2)
		Assert(err == nil, "commitment")
		com = c
	} else {
		c, err := poly.PedersenCM.Create(Poly(f), Poly(g), 2)
		Assert(err == nil, "commitment")
		com = c
	}
	sk := Ss("sk", n)
	pt := make([][2]S, n)
	keys := make([]*mega.MEGaPublicKey, n)
	for i := range keys {
		keys[i] = priv(sk[i]).PublicKey()
		pt[i] = [2]S{Eval(f, Node(i)), Eval(g, Node(i))}
	}
	d, ad := node("dealer"), Bytes("ad", 1)
	c, err := encrypt(kind, seed.FromBytes(Bytes("seed", 32)), pt, keys, d, ad)
	Assert(err == nil, "encryption succeeds")
	if err != nil {
		return
	}
	t := [2]S{NewS("t0"), NewS("t1")}
	r := common.NodeIndex(rec)
	if Choose("tamper", 2) == 1 {
		// add arbitrary scalars to the share
		switch x := c.(type) {
		case *mega.MEGaCiphertextSingle:
			x.CTexts[rec] = MkScalar(SVal(x.CTexts[rec]).Add(t[0]))
		case *mega.MEGaCiphertextPair:
			x.CTexts[rec] = [2]curve.EccScalar{MkScalar(SVal(x.CTexts[rec][0]).Add(t[0])), MkScalar(SVal(x.CTexts[rec][1]).Add(t[1]))}
		}
	} else {
		t = [2]S{SInt(0), SInt(0)}
	}
	o, err := c.DecryptAndCheck(com, ad, d, r, priv(sk[rec]), keys[rec])
	Reach("checked")
	ok := t[0].IsZero()
	if kind == 1 {
		ok = G().Mul(t[0]).Add(H().Mul(t[1])).IsInf()
	}
	Assert(Iff(err == nil, ok), "accepted exactly when the share opens the commitment")
	Assert(Iff(err == nil, o != nil), "an opening exactly without error")
	_, err = c.DecryptAndCheck(com, ad, d, common.NodeIndex(n), priv(sk[rec]), keys[rec])
	Assert(err != nil, "no such recipient")
}
