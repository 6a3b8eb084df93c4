// Package c13: discrete-log equality proofs are complete and bind their statement.
package c13

import (
	"github.com/PlatONnetwork/tecdsa/seed"
	"github.com/PlatONnetwork/tecdsa/zk"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/oracle"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
)

func proof(c, z S) *zk.ProofOfDLogEquivalence {
	p := &zk.ProofOfDLogEquivalence{}
	SetF(p, "challenge", 0, MkScalar(c))
	SetF(p, "response", 1, MkScalar(z))
	return p
}

// every witness, pair of bases (the identity included) and seed; associated data of 0..2 bytes: the proof verifies
func H_complete() {
	x := NewS("x")
	g, h := NewP("g"), NewP("h")
	sd := seed.FromBytes(Bytes("seed", 32))
	ad := Bytes("ad", Choose("adlen", 3))
	gx, hx := g.Mul(x), h.Mul(x)
	pf, err := zk.ProofOfDLogEquivalenceIns.Create(sd, MkScalar(x), MkPoint(g), MkPoint(h), ad)
	Reach("create")
	Assert(err == nil, "creation succeeds")
	if err != nil {
		return
	}
	Assert(pf.Verify(MkPoint(g), MkPoint(h), MkPoint(gx), MkPoint(hx), ad) == nil, "honest proof verifies")
	Assert(pf.Clone().Verify(MkPoint(g), MkPoint(h), MkPoint(gx), MkPoint(hx), ad) == nil, "clone verifies")
}

// a challenge computed for any transcript and any response, presented for any statement: accepted exactly when the
// statement, both recovered commitments and the associated data are those of the transcript
func H_binding() {
	Generic()
	n := []string{"g", "h", "gx", "hx"}
	a, b := make([]P, 4), make([]P, 4)
	for i := range n {
		a[i], b[i] = NewP(n[i]), NewP(n[i]+"'")
	}
	c1, c2 := NewP("c1"), NewP("c2")
	l := Choose("adlen", 3)
	ad := Bytes("ad", l)
	ad2 := Bytes("ad'", []int{l, l + 1, 0}[Choose("adlen'", 3)])
	in, err := zk.ProofOfDLogEquivalenceIns.FromCommitments(MkPoint(a[0]), MkPoint(a[1]), MkPoint(a[2]), MkPoint(a[3]))
	Assert(err == nil, "instance")
	ch, err := in.HashToChallenge(MkPoint(c1), MkPoint(c2), ad)
	Assert(err == nil, "challenge")
	c, z := SVal(ch), NewS("z")
	err = proof(c, z).Verify(MkPoint(b[0]), MkPoint(b[1]), MkPoint(b[2]), MkPoint(b[3]), ad2)
	Reach("verify")
	same := And(EqP(a, b), len(ad) == len(ad2), c1.Eq(b[0].Mul(z).Sub(b[2].Mul(c))), c2.Eq(b[1].Mul(z).Sub(b[3].Mul(c))))
	if len(ad) == len(ad2) {
		same = And(same, EqBytes(ad, ad2))
	}
	Assert(Iff(err == nil, same), "accepted exactly for its own transcript")
}

// any challenge and response (not tied to the hash): accepted exactly when the challenge is the hash of the statement,
// the commitments recovered from it and the associated data
func H_challenge() {
	Generic()
	s := Ps("s", 4)
	c, z := NewS("c"), NewS("z")
	ad := Bytes("ad", Choose("adlen", 3))
	in, err := zk.ProofOfDLogEquivalenceIns.FromCommitments(MkPoint(s[0]), MkPoint(s[1]), MkPoint(s[2]), MkPoint(s[3]))
	Assert(err == nil, "instance")
	c1, c2 := s[0].Mul(z).Sub(s[2].Mul(c)), s[1].Mul(z).Sub(s[3].Mul(c))
	ch, err := in.HashToChallenge(MkPoint(c1), MkPoint(c2), ad)
	Assert(err == nil, "challenge")
	err = proof(c, z).Verify(MkPoint(s[0]), MkPoint(s[1]), MkPoint(s[2]), MkPoint(s[3]), ad)
	Reach("verify")
	Assert(Iff(err == nil, SVal(ch).Eq(c)), "accepted exactly when the challenge is the hash")
}

// a statement without a common discrete log, any commitments fixed before hashing: accepted only for one hash output
func H_soundness() {
	Generic()
	g, h := NewP("g"), NewP("h")
	x, y, r, t, z := NewS("x"), NewS("y"), NewS("r"), NewS("t"), NewS("z")
	gx, hx, c1, c2 := g.Mul(x), h.Mul(y), g.Mul(r), h.Mul(t)
	Assume(And(Not(x.Eq(y)), Not(gx.IsInf()), Not(hx.IsInf()), Not(c1.IsInf()), Not(c2.IsInf())))
	ad := Bytes("ad", 1)
	in, err := zk.ProofOfDLogEquivalenceIns.FromCommitments(MkPoint(g), MkPoint(h), MkPoint(gx), MkPoint(hx))
	Assert(err == nil, "instance")
	ch, err := in.HashToChallenge(MkPoint(c1), MkPoint(c2), ad)
	Assert(err == nil, "challenge")
	c := SVal(ch)
	err = proof(c, z).Verify(MkPoint(g), MkPoint(h), MkPoint(gx), MkPoint(hx), ad)
	Reach("verify")
	Assert(Implies(err == nil, c.Mul(x.Sub(y)).Eq(t.Sub(r))), "accepted only for one challenge")
}

func challenge(t []P, ad []byte) S {
	in, err := zk.ProofOfDLogEquivalenceIns.FromCommitments(MkPoint(t[0]), MkPoint(t[1]), MkPoint(t[2]), MkPoint(t[3]))
	Assert(err == nil, "instance")
	ch, err := in.HashToChallenge(MkPoint(t[4]), MkPoint(t[5]), ad)
	Assert(err == nil, "challenge")
	return SVal(ch)
}

// a prover who fixes one of the hashed values (base, image, commitment or associated data) only after learning the
// challenge computed with another value in its place is rejected
//
//verif:feas=2
func H_fixedLater() {
	Generic()
	g, h, d := NewP("g"), NewP("h"), NewP("d")
	x, r := NewS("x"), NewS("r")
	s := []P{g, h, g.Mul(x), h.Mul(x), g.Mul(r), h.Mul(r)}
	ad := Bytes("ad", 2)
	ad2 := ad
	k := Choose("which", 7)
	switch k {
	case 0, 1:
		s[k+2], s[k+4] = NewP("e"), NewP("f")
	case 2, 3:
		s[k+2] = NewP("f")
	case 4, 5:
		s[k-2] = NewP("f")
	case 6:
		ad2 = Bytes("ad'", 2)
		Assume(Not(EqBytes(ad, ad2)))
	}
	t := append([]P{}, s...)
	if k < 6 {
		t[k] = d
	}
	c := challenge(t, ad)
	z := r.Add(c.Mul(x))
	Assume(And(Not(c.IsZero()), Not(z.IsZero())))
	switch k {
	case 0, 1: // base := (commitment + c image)/z
		s[k] = s[k+4].Add(s[k+2].Mul(c)).Mul(z.Inv())
	case 2, 3: // image := (z base - commitment)/c
		s[k] = s[k-2].Mul(z).Sub(s[k+2]).Mul(c.Inv())
	case 4, 5: // commitment := z base - c image
		s[k] = s[k-4].Mul(z).Sub(s[k-2].Mul(c))
	}
	if k < 6 {
		Assume(Not(s[k].Eq(d)))
		Assume(Not(s[k].IsInf()))
	}
	err := proof(c, z).Verify(MkPoint(s[0]), MkPoint(s[1]), MkPoint(s[2]), MkPoint(s[3]), ad2)
	Reach("verify")
	Assert(err != nil, "rejected")
}
