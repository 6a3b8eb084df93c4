prop="C13"; pkg="zk"
edits=[("zk/dlog.go",'	ro.AddPoint("instance_h_x", p.hx)\n','	ro.AddPoint("instance_h_x", p.h)\n')]
needs="a prover that chooses hx after the challenge (weak Fiat-Shamir)"
breaks="a statement without a common discrete log gets an accepted proof"
demo='''package zk

import (
	"testing"

	"github.com/PlatONnetwork/tecdsa/curve"
)

func TestDemo(t *testing.T) {
	sc := func(v uint64) curve.EccScalar { return curve.Scalar.FromUint64(curve.K256, v) }
	g := curve.Point.GeneratorG(curve.K256)
	h := curve.Point.MulByG(sc(77))
	// commitments with different randomness, hx fixed only afterwards
	x, r1, r2 := sc(5), sc(11), sc(13)
	gx := g.Clone().ScalarMul(g, x)
	c1 := g.Clone().ScalarMul(g, r1)
	c2 := h.Clone().ScalarMul(h, r2)
	guess := h.Clone().ScalarMul(h, x)
	inst, _ := ProofOfDLogEquivalenceIns.FromCommitments(g, h, gx, guess)
	m, err := inst.HashToChallenge(c1, c2, []byte("ad"))
	if err != nil {
		t.Fatal(err)
	}
	z := x.Clone().Mul(x, m)
	z = z.Add(z, r1)
	// hx = (z*h - c2) / m
	hx := h.Clone().ScalarMul(h, z)
	hx = hx.SubPoints(hx, c2)
	inv := m.Clone().Invert(m)
	hx = hx.ScalarMul(hx, inv)
	if hx.Equal(guess) == 1 {
		t.Fatal("statement happens to be true")
	}
	p := &ProofOfDLogEquivalence{challenge: m, response: z}
	if p.Verify(g, h, gx, hx, []byte("ad")) == nil {
		t.Fatal("false statement accepted")
	}
}
'''
