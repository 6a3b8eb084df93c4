// Package c19: transcripts combine dealings into a commitment to the combined secret.
package c19

import (
	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/poly"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/oracle"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
	"github.com/tidwall/btree"
)

const (
	random = iota
	unmasked
	masked
	product
)

type dealingMap = btree.Map[common.NodeIndex, *dealings.IDkgDealingInternal]

func commitment(pedersen bool, p []P) poly.PolynomialCommitment {
	if pedersen {
		return poly.PedersenCM.New(Points(p))
	}
	return poly.SimpleCM.New(Points(p))
}

func wrap(c poly.PolynomialCommitment, how int) poly.PolynomialCommitment {
	switch how {
	case 1:
		return &dealings.InterpolationCommitment{PolynomialCommitment: c}
	case 2:
		return &dealings.SummationCommitment{PolynomialCommitment: c}
	}
	return c
}

// nodes makes n different symbolic node indices below 2^31
func nodes(n int) ([]common.NodeIndex, []S) {
	ix := make([]common.NodeIndex, n)
	xs := make([]S, n)
	for i := range ix {
		v := Int("i", 0, 1<<31-1)
		ix[i] = common.NodeIndex(v)
		xs[i] = Node(v)
		for j := 0; j < i; j++ {
			Assume(ix[j] != ix[i])
		}
	}
	return ix, xs
}

func mkmap(ix []common.NodeIndex, pedersen bool, k [][]P) *dealingMap {
	var m dealingMap
	for i := range ix {
		m.Set(ix[i], &dealings.IDkgDealingInternal{Commitment: commitment(pedersen, k[i])})
	}
	return &m
}

func points(c poly.PolynomialCommitment) []P {
	var r []P
	for _, p := range c.Points() {
		r = append(r, PVal(p))
	}
	return r
}

func unchanged(m *dealingMap, ix []common.NodeIndex, k [][]P) {
	Assert(m.Len() == len(ix), "the dealings are left as they were")
	for i := range ix {
		d, ok := m.Get(ix[i])
		Assert(ok, "the dealings are left as they were")
		if ok {
			Assert(EqP(points(d.Commitment), k[i]), "the dealings are left as they were")
		}
	}
}

// 1..3 dealings (arbitrary different indices below 2^31) of 1, 2 or 4 arbitrary points each: the transcript of random dealings
// is a Pedersen commitment to the sums; its value at any node index is the sum of the dealings' values
//
//verif:contract
func H_random() {
	Generic()
	n, t := 1+Choose("n", 3), []int{1, 2, 4}[Choose("t", 3)]
	ix, _ := nodes(n)
	k := make([][]P, n)
	sum := make([]P, t)
	for i := range sum {
		sum[i] = Inf()
	}
	for i := range k {
		k[i] = Ps("k", t)
		for j := range sum {
			sum[j] = sum[j].Add(k[i][j])
		}
	}
	m := mkmap(ix, true, k)
	tr, err := dealings.NewTranscriptInternal(curve.K256, t, m, &dealings.RandomTranscript{})
	Reach("random")
	Assert(err == nil, "transcript is made")
	if err != nil {
		return
	}
	_, ok := tr.CombinedCommitment.(*dealings.SummationCommitment)
	Assert(ok, "summation")
	Assert(tr.CombinedCommitment.Type() == poly.Pedersen, "kind")
	Assert(EqP(points(tr.CombinedCommitment), sum), "sums of the dealings")
	Assert(PVal(tr.ConstantTerm()).Eq(sum[0]), "constant term")
	at := U32("at")
	Assert(PVal(tr.EvaluateAt(common.NodeIndex(at))).Eq(EvalP(sum, Node(int(at)))), "value at a node")
	unchanged(m, ix, k)
}

// 1..3 dealings (arbitrary different indices below 2^31) of 1, 2 or 4 (quick: 1..2 for 3 dealings) arbitrary points each and previous
// commitments small enough: the transcript is a commitment of the operation's kind to the interpolations at zero;
// resharings of a simple commitment must keep its constant
//
//verif:contract
func H_interpolation() {
	Generic()
	kind := unmasked + Choose("op", 3)
	n := 1 + Choose("n", 3)
	t := 1
	if n < 3 || Thorough() {
		t = []int{1, 2, 4}[Choose("t", 3)]
	} else {
		t = 1 + Choose("t", 2)
	}
	ix, xs := nodes(n)
	k := make([][]P, n)
	for i := range k {
		k[i] = Ps("k", t)
	}
	want := make([]P, t)
	for j := range want {
		want[j] = Inf()
		for i := range k {
			want[j] = want[j].Add(k[i][j].Mul(LagrangeCoeff(xs, i, SInt(0))))
		}
	}
	w := Choose("wrap", 2)
	var op dealings.IDkgTranscriptOperationInternal
	prev := Ps("prev", n)
	keep := Choose("keep", 2) == 1
	switch kind {
	case unmasked:
		if keep {
			prev[0] = want[0]
		}
		op = &dealings.ReshareOfUnmaskedTranscript{P1: wrap(commitment(false, prev), w)}
	case masked:
		op = &dealings.ReshareOfMaskedTranscript{P1: wrap(commitment(true, prev), 2*w)}
	case product:
		l := 1 + Choose("left", n)
		op = &dealings.UnmaskedTimesMaskedTranscript{Left: wrap(commitment(false, prev[:l]), w), Right: wrap(commitment(true, Ps("right", n+1-l)), 2*w)}
	}
	m := mkmap(ix, kind == product, k)
	tr, err := dealings.NewTranscriptInternal(curve.K256, t, m, op)
	Reach("interpolation")
	if kind == unmasked {
		Assert(Iff(err == nil, prev[0].Eq(want[0])), "made exactly when the constant is kept")
	} else {
		Assert(err == nil, "transcript is made")
	}
	unchanged(m, ix, k)
	if err != nil {
		return
	}
	_, ok := tr.CombinedCommitment.(*dealings.InterpolationCommitment)
	Assert(ok, "interpolation")
	Assert((tr.CombinedCommitment.Type() == poly.Pedersen) == (kind == product), "kind")
	Assert(EqP(points(tr.CombinedCommitment), want), "interpolations of the dealings")
	Assert(PVal(tr.ConstantTerm()).Eq(want[0]), "constant term")
	at := U32("at")
	Assert(PVal(tr.EvaluateAt(common.NodeIndex(at))).Eq(EvalP(want, Node(int(at)))), "value at a node")
}

// honest dealings: 1..3 dealers (arbitrary different indices below 2^31) share the values of secret polynomials with
// arbitrary polynomials of 1..2 coefficients; the transcript commits to the secret, respectively the product of the secrets
//
//verif:contract
func H_secret() {
	Generic()
	kind := unmasked + Choose("op", 3)
	n, t := 1+Choose("n", 3), 1+Choose("t", 2)
	ix, xs := nodes(n)
	l := n
	if kind == product {
		l = 1 + Choose("left", n)
	}
	a, f, g := Ss("a", l), Ss("f", n+1-l), Ss("g", n+1-l)
	if kind == masked {
		g = Ss("b", l)
	}
	k := make([][]P, n)
	mask := SInt(0)
	for i := range k {
		k[i] = Ps("k", t)
		switch kind {
		case unmasked, masked:
			k[i][0] = G().Mul(Eval(a, xs[i]))
		case product:
			r := NewS("r")
			mask = mask.Add(r.Mul(LagrangeCoeff(xs, i, SInt(0))))
			k[i][0] = G().Mul(Eval(a, xs[i]).Mul(Eval(f, xs[i]))).Add(H().Mul(r))
		}
	}
	m := mkmap(ix, kind == product, k)
	pts := func(f, g []S) []P {
		p := make([]P, len(f))
		for i := range f {
			p[i] = G().Mul(f[i])
			if g != nil {
				p[i] = p[i].Add(H().Mul(g[i]))
			}
		}
		return p
	}
	var op dealings.IDkgTranscriptOperationInternal
	var want P
	switch kind {
	case unmasked:
		op = &dealings.ReshareOfUnmaskedTranscript{P1: commitment(false, pts(a, nil))}
		want = G().Mul(a[0])
	case masked:
		op = &dealings.ReshareOfMaskedTranscript{P1: commitment(true, pts(a, g))}
		want = G().Mul(a[0])
	case product:
		op = &dealings.UnmaskedTimesMaskedTranscript{Left: commitment(false, pts(a, nil)), Right: commitment(true, pts(f, g))}
		want = G().Mul(a[0].Mul(f[0])).Add(H().Mul(mask))
	}
	tr, err := dealings.NewTranscriptInternal(curve.K256, t, m, op)
	Reach("secret")
	Assert(err == nil, "transcript is made")
	if err != nil {
		return
	}
	Assert(PVal(tr.ConstantTerm()).Eq(want), "commits to the secret")
}

// dealings and operations that do not match: 0..2 dealings, one of them of either kind and 1..2 points, operations of every
// kind and none, previous commitments of either kind and 1..2 points, thresholds 1..2
//
//verif:contract paths=8000
func H_mismatch() {
	Generic()
	n, t := Choose("n", 3), 1+Choose("t", 2)
	kind := Choose("op", 5)
	ped := kind == random || kind == product
	lens, kinds := true, true
	var m dealingMap
	odd := 0
	if n > 0 {
		odd = Choose("odd", n)
	}
	for i := 0; i < n; i++ {
		p, l := ped, t
		if i == odd {
			p, l = Choose("pedersen", 2) == 1, 1+Choose("length", 2)
			kinds, lens = p == ped, l == t
		}
		m.Set(common.NodeIndex(3*i+1), &dealings.IDkgDealingInternal{Commitment: commitment(p, Ps("k", l))})
	}
	var op dealings.IDkgTranscriptOperationInternal
	enough := n > 0
	switch kind {
	case random:
		op = &dealings.RandomTranscript{}
	case unmasked, masked:
		p, l := Choose("prevped", 2) == 1, 1+Choose("prevlen", 2)
		enough = n >= l
		kinds = kinds && p == (kind == masked)
		q := Ps("prev", l)
		if kind == masked {
			op = &dealings.ReshareOfMaskedTranscript{P1: commitment(p, q)}
		} else {
			if enough && lens && kinds {
				// keep the constant
				q[0] = Inf()
				var xs []S
				for i := 0; i < n; i++ {
					xs = append(xs, Node(3*i+1))
				}
				for i := 0; i < n; i++ {
					d, _ := m.Get(common.NodeIndex(3*i + 1))
					q[0] = q[0].Add(PVal(d.Commitment.Points()[0]).Mul(LagrangeCoeff(xs, i, SInt(0))))
				}
			}
			op = &dealings.ReshareOfUnmaskedTranscript{P1: commitment(p, q)}
		}
	case product:
		p, l := Choose("leftped", 2) == 1, 1+Choose("leftlen", 2)
		q, r := Choose("rightped", 2) == 1, 1+Choose("rightlen", 2)
		enough = n >= l+r-1
		kinds = kinds && !p && q
		op = &dealings.UnmaskedTimesMaskedTranscript{Left: commitment(p, Ps("left", l)), Right: commitment(q, Ps("right", r))}
	case 4:
		op, enough = "no operation", false
	}
	tr, err := dealings.NewTranscriptInternal(curve.K256, t, &m, op)
	Reach("mismatch")
	Assert(Iff(err == nil, enough && kinds && lens), "made exactly from enough matching dealings")
	Assert(Iff(err == nil, tr != nil), "a transcript exactly without error")
}

// two transcripts of either kind with 1..2 arbitrary points (identity included): equal exactly when their kinds and points
// are, and ordered the same way from both sides
func H_compare() {
	mk := func(tag string) (dealings.IDkgTranscriptInternal, bool, []P) {
		ped := Choose("pedersen"+tag, 2) == 1
		p := Ps("p"+tag, 1+Choose("length"+tag, 2))
		if Choose("identity"+tag, 2) == 1 {
			p[0] = Inf()
		}
		if Choose("sum"+tag, 2) == 1 {
			return dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.SummationCommitment{PolynomialCommitment: commitment(ped, p)}}, ped, p
		}
		return dealings.IDkgTranscriptInternal{CombinedCommitment: &dealings.InterpolationCommitment{PolynomialCommitment: commitment(ped, p)}}, ped, p
	}
	a, ap, aps := mk("")
	b, bp, bps := mk("'")
	r := a.Compare(b)
	Reach("compare")
	Assert(Iff(r == 0, And(ap == bp, EqP(aps, bps))), "equal exactly for equal commitments")
	Assert(Iff(b.Compare(a) == 0, r == 0), "equal from both sides")
	Assert(a.Compare(a) == 0, "equal to itself")
}
