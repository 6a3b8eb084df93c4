// Package c15: product proofs are complete and bind their statement.
package c15

import (
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/zk"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/oracle"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
)

func proof(c, z1, z2 S) *zk.ProofOfProduct {
	p := &zk.ProofOfProduct{}
	SetF(p, "challenge", 0, MkScalar(c))
	SetF(p, "response1", 1, MkScalar(z1))
	SetF(p, "response2", 2, MkScalar(z2))
	return p
}

func ped(a, b S) P { return G().Mul(a).Add(H().Mul(b)) }

// every pair of factors, masks (zero included) and seed; associated data of 0..1 bytes: the proof verifies
func H_complete() {
	Generic()
	l, r, rm, pm := NewS("l"), NewS("r"), NewS("rm"), NewS("pm")
	sd := seed.FromBytes(Bytes("seed", 32))
	ad := Bytes("ad", Choose("adlen", 2))
	a, b, c := G().Mul(l), ped(r, rm), ped(l.Mul(r), pm)
	pf, err := zk.ProofOfProductIns.Create(sd, MkScalar(l), MkScalar(r), MkScalar(rm), MkScalar(l.Mul(r)), MkScalar(pm), ad)
	Reach("create")
	Assert(err == nil, "creation succeeds")
	if err != nil {
		return
	}
	Assert(pf.Verify(MkPoint(a), MkPoint(b), MkPoint(c), ad) == nil, "honest proof verifies")
	Assert(pf.Clone().Verify(MkPoint(a), MkPoint(b), MkPoint(c), ad) == nil, "clone verifies")
}

func recovered(s []P, c, z1, z2 S) (P, P) {
	return G().Mul(z1).Sub(s[0].Mul(c)), s[1].Mul(z1).Add(H().Mul(z2)).Sub(s[2].Mul(c))
}

// a challenge computed for any transcript and any responses, presented for any statement: accepted exactly when the
// statement, both recovered commitments and the associated data are those of the transcript
func H_binding() {
	Generic()
	s, t := Ps("s", 3), Ps("t", 3)
	c1, c2 := NewP("c1"), NewP("c2")
	l := Choose("adlen", 3)
	ad := Bytes("ad", l)
	ad2 := Bytes("ad'", []int{l, l + 1, 0}[Choose("adlen'", 3)])
	ch, err := zk.ProofOfProductIns.FromCommitments(MkPoint(s[0]), MkPoint(s[1]), MkPoint(s[2])).HashToChallenge(MkPoint(c1), MkPoint(c2), ad)
	Assert(err == nil, "challenge")
	c, z1, z2 := SVal(ch), NewS("z1"), NewS("z2")
	err = proof(c, z1, z2).Verify(MkPoint(t[0]), MkPoint(t[1]), MkPoint(t[2]), ad2)
	Reach("verify")
	r1, r2 := recovered(t, c, z1, z2)
	same := And(EqP(s, t), len(ad) == len(ad2), c1.Eq(r1), c2.Eq(r2))
	if len(ad) == len(ad2) {
		same = And(same, EqBytes(ad, ad2))
	}
	Assert(Iff(err == nil, same), "accepted exactly for its own transcript")
}

// any challenge and responses (not tied to the hash): accepted exactly when the challenge is the hash of the statement,
// the commitments recovered from it and the associated data
func H_challenge() {
	Generic()
	s := Ps("s", 3)
	c, z1, z2 := NewS("c"), NewS("z1"), NewS("z2")
	ad := Bytes("ad", Choose("adlen", 3))
	r1, r2 := recovered(s, c, z1, z2)
	ch, err := zk.ProofOfProductIns.FromCommitments(MkPoint(s[0]), MkPoint(s[1]), MkPoint(s[2])).HashToChallenge(MkPoint(r1), MkPoint(r2), ad)
	Assert(err == nil, "challenge")
	err = proof(c, z1, z2).Verify(MkPoint(s[0]), MkPoint(s[1]), MkPoint(s[2]), ad)
	Reach("verify")
	Assert(Iff(err == nil, SVal(ch).Eq(c)), "accepted exactly when the challenge is the hash")
}

// a commitment to another value than the product, any commitments fixed before hashing (with known coordinates for the
// two generators): accepted only for one hash output
func H_soundness() {
	Generic()
	l, r, rm, w, wm := NewS("l"), NewS("r"), NewS("rm"), NewS("w"), NewS("wm")
	a, u, v, z1, z2 := NewS("a"), NewS("u"), NewS("v"), NewS("z1"), NewS("z2")
	s := []P{G().Mul(l), ped(r, rm), ped(w, wm)}
	c1, c2 := G().Mul(a), ped(u, v)
	Assume(And(Not(w.Eq(l.Mul(r))), Not(s[0].IsInf()), Not(s[1].IsInf()), Not(s[2].IsInf()), Not(c1.IsInf()), Not(c2.IsInf())))
	ad := Bytes("ad", 1)
	ch, err := zk.ProofOfProductIns.FromCommitments(MkPoint(s[0]), MkPoint(s[1]), MkPoint(s[2])).HashToChallenge(MkPoint(c1), MkPoint(c2), ad)
	Assert(err == nil, "challenge")
	c := SVal(ch)
	err = proof(c, z1, z2).Verify(MkPoint(s[0]), MkPoint(s[1]), MkPoint(s[2]), ad)
	Reach("verify")
	// z1 = a + c l; coordinate of G in the second equation: u = r z1 - c w, of H: v = rm z1 + z2 - c wm
	d := r.Mul(a.Add(c.Mul(l))).Sub(c.Mul(w)).Sub(u)
	e := rm.Mul(z1).Add(z2).Sub(c.Mul(wm)).Sub(v)
	Assert(Implies(err == nil, z1.Eq(a.Add(c.Mul(l)))), "first response")
	Assert(Implies(err == nil, And(z1.Eq(a.Add(c.Mul(l))), G().Mul(d).Add(H().Mul(e)).IsInf())), "accepted only for one challenge or with a relation between the generators")
}

// a prover who fixes one of the hashed values (any commitment or the associated data) only after learning the challenge
// computed with another value in its place is rejected
//
//verif:feas=2
func H_fixedLater() {
	Generic()
	d, rhs := NewP("d"), NewP("rhs")
	l, w, u, v := NewS("l"), NewS("w"), NewS("u"), NewS("v")
	s := []P{G().Mul(l), rhs, rhs.Mul(l).Add(H().Mul(w)), G().Mul(u), rhs.Mul(u).Add(H().Mul(v))}
	ad := Bytes("ad", 2)
	ad2 := ad
	k := Choose("which", 6)
	switch k {
	case 0:
		s[3] = NewP("e")
	case 1:
		s[2], s[4] = NewP("e"), NewP("f")
	case 2:
		s[4] = NewP("e")
	case 3:
		s[0] = NewP("e")
	case 4:
		s[2] = NewP("e")
	case 5:
		ad2 = Bytes("ad'", 2)
		Assume(Not(EqBytes(ad, ad2)))
	}
	t := append([]P{}, s...)
	if k < 5 {
		t[k] = d
	}
	ch, err := zk.ProofOfProductIns.FromCommitments(MkPoint(t[0]), MkPoint(t[1]), MkPoint(t[2])).HashToChallenge(MkPoint(t[3]), MkPoint(t[4]), ad)
	Assert(err == nil, "challenge")
	c := SVal(ch)
	z1, z2 := u.Add(c.Mul(l)), v.Add(c.Mul(w))
	Assume(And(Not(c.IsZero()), Not(z1.IsZero())))
	switch k {
	case 0:
		s[0] = G().Mul(z1).Sub(s[3]).Mul(c.Inv())
	case 1:
		s[1] = s[4].Add(s[2].Mul(c)).Sub(H().Mul(z2)).Mul(z1.Inv())
	case 2:
		s[2] = s[1].Mul(z1).Add(H().Mul(z2)).Sub(s[4]).Mul(c.Inv())
	case 3:
		s[3] = G().Mul(z1).Sub(s[0].Mul(c))
	case 4:
		s[4] = s[1].Mul(z1).Add(H().Mul(z2)).Sub(s[2].Mul(c))
	}
	if k < 5 {
		Assume(Not(s[k].Eq(d)))
		Assume(Not(s[k].IsInf()))
	}
	err = proof(c, z1, z2).Verify(MkPoint(s[0]), MkPoint(s[1]), MkPoint(s[2]), ad2)
	Reach("verify")
	Assert(err != nil, "rejected")
}
