// Package c14: equal-openings proofs are complete and bind their statement.
package c14

import (
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/zk"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/oracle"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
)

func proof(c, z S) *zk.ProofOfEqualOpenings {
	p := &zk.ProofOfEqualOpenings{}
	SetF(p, "challenge", 0, MkScalar(c))
	SetF(p, "response", 1, MkScalar(z))
	return p
}

// every secret, mask (zero included) and seed; associated data of 0..2 bytes: the proof verifies
func H_complete() {
	s, m := NewS("s"), NewS("m")
	sd := seed.FromBytes(Bytes("seed", 32))
	ad := Bytes("ad", Choose("adlen", 3))
	a, b := G().Mul(s).Add(H().Mul(m)), G().Mul(s)
	pf, err := zk.ProofOfEqualOpeningsIns.Create(sd, MkScalar(s), MkScalar(m), ad)
	Reach("create")
	Assert(err == nil, "creation succeeds")
	if err != nil {
		return
	}
	Assert(pf.Verify(MkPoint(a), MkPoint(b), ad) == nil, "honest proof verifies")
	Assert(pf.Clone().Verify(MkPoint(a), MkPoint(b), ad) == nil, "clone verifies")
}

// a challenge computed for any transcript and any response, presented for any statement: accepted exactly when the
// statement, the recovered commitment and the associated data are those of the transcript
func H_binding() {
	Generic()
	s, t := Ps("s", 2), Ps("t", 2)
	c1 := NewP("c1")
	l := Choose("adlen", 3)
	ad := Bytes("ad", l)
	ad2 := Bytes("ad'", []int{l, l + 1, 0}[Choose("adlen'", 3)])
	ch, err := zk.ProofOfEqualOpeningsIns.FromCommitments(MkPoint(s[0]), MkPoint(s[1])).HashToChallenge(MkPoint(c1), ad)
	Assert(err == nil, "challenge")
	c, z := SVal(ch), NewS("z")
	err = proof(c, z).Verify(MkPoint(t[0]), MkPoint(t[1]), ad2)
	Reach("verify")
	same := And(EqP(s, t), len(ad) == len(ad2), c1.Eq(H().Mul(z).Sub(t[0].Sub(t[1]).Mul(c))))
	if len(ad) == len(ad2) {
		same = And(same, EqBytes(ad, ad2))
	}
	Assert(Iff(err == nil, same), "accepted exactly for its own transcript")
}

// any challenge and response (not tied to the hash): accepted exactly when the challenge is the hash of the statement,
// the commitment recovered from it and the associated data
func H_challenge() {
	Generic()
	s := Ps("s", 2)
	c, z := NewS("c"), NewS("z")
	ad := Bytes("ad", Choose("adlen", 3))
	c1 := H().Mul(z).Sub(s[0].Sub(s[1]).Mul(c))
	ch, err := zk.ProofOfEqualOpeningsIns.FromCommitments(MkPoint(s[0]), MkPoint(s[1])).HashToChallenge(MkPoint(c1), ad)
	Assert(err == nil, "challenge")
	err = proof(c, z).Verify(MkPoint(s[0]), MkPoint(s[1]), ad)
	Reach("verify")
	Assert(Iff(err == nil, SVal(ch).Eq(c)), "accepted exactly when the challenge is the hash")
}

// commitments to different values, any commitment fixed before hashing (with known coordinates for the two
// generators): accepted only for one hash output
func H_soundness() {
	Generic()
	s, m, s2, u, v, z := NewS("s"), NewS("m"), NewS("s'"), NewS("u"), NewS("v"), NewS("z")
	a, b, c1 := G().Mul(s).Add(H().Mul(m)), G().Mul(s2), G().Mul(u).Add(H().Mul(v))
	Assume(And(Not(s.Eq(s2)), Not(a.IsInf()), Not(b.IsInf()), Not(c1.IsInf())))
	ad := Bytes("ad", 1)
	ch, err := zk.ProofOfEqualOpeningsIns.FromCommitments(MkPoint(a), MkPoint(b)).HashToChallenge(MkPoint(c1), ad)
	Assert(err == nil, "challenge")
	c := SVal(ch)
	err = proof(c, z).Verify(MkPoint(a), MkPoint(b), ad)
	Reach("verify")
	// u G + v H = z H - c((s-s')G + m H): either both coordinates agree or the generators' relation is known
	d := u.Add(c.Mul(s.Sub(s2)))
	e := z.Sub(c.Mul(m)).Sub(v)
	Assert(Implies(err == nil, G().Mul(d).Eq(H().Mul(e))), "accepted only for one challenge or with a relation between the generators")
	Assert(Implies(And(err == nil, e.IsZero()), d.IsZero()), "accepted only for one challenge")
}

// a prover who fixes one of the hashed values (either commitment, the proof's commitment or the associated data) only
// after learning the challenge computed with another value in its place is rejected
//
//verif:feas=2
func H_fixedLater() {
	Generic()
	d := NewP("d")
	x, m, r := NewS("x"), NewS("m"), NewS("r")
	s := []P{G().Mul(x).Add(H().Mul(m)), G().Mul(x), H().Mul(r)}
	ad := Bytes("ad", 2)
	ad2 := ad
	k := Choose("which", 4)
	switch k {
	case 0:
		s[1], s[2] = NewP("e"), NewP("f")
	case 1:
		s[0], s[2] = NewP("e"), NewP("f")
	case 2:
		s[0], s[1] = NewP("e"), NewP("f")
	case 3:
		ad2 = Bytes("ad'", 2)
		Assume(Not(EqBytes(ad, ad2)))
	}
	t := append([]P{}, s...)
	if k < 3 {
		t[k] = d
	}
	ch, err := zk.ProofOfEqualOpeningsIns.FromCommitments(MkPoint(t[0]), MkPoint(t[1])).HashToChallenge(MkPoint(t[2]), ad)
	Assert(err == nil, "challenge")
	c := SVal(ch)
	Assume(Not(c.IsZero()))
	z := r.Add(c.Mul(m))
	switch k {
	case 0:
		s[0] = s[1].Add(H().Mul(z).Sub(s[2]).Mul(c.Inv()))
	case 1:
		s[1] = s[0].Sub(H().Mul(z).Sub(s[2]).Mul(c.Inv()))
	case 2:
		s[2] = H().Mul(z).Sub(s[0].Sub(s[1]).Mul(c))
	}
	if k < 3 {
		Assume(Not(s[k].Eq(d)))
		Assume(Not(s[k].IsInf()))
	}
	err = proof(c, z).Verify(MkPoint(s[0]), MkPoint(s[1]), ad2)
	Reach("verify")
	Assert(err != nil, "rejected")
}
