// Package c20: shares computed or reconstructed open the transcript commitment.
package c20

import (
	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/dealings"
	"github.com/PlatONnetwork/tecdsa/mega"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/seed"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/oracle"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
	"github.com/tidwall/btree"
)

const (
	sum    = iota // sum of Pedersen openings
	simple        // interpolation of simple openings
	pair          // interpolation of Pedersen openings
)

type dealingMap = btree.Map[common.NodeIndex, *dealings.IDkgDealingInternal]
type openingMap = btree.Map[common.NodeIndex, poly.CommitmentOpening]

func commitment(pedersen bool, p []P) poly.PolynomialCommitment {
	if pedersen {
		return poly.PedersenCM.New(Points(p))
	}
	return poly.SimpleCM.New(Points(p))
}

func combined(kind int, p []P) dealings.CombinedCommitment {
	if kind == sum {
		return &dealings.SummationCommitment{PolynomialCommitment: commitment(true, p)}
	}
	return &dealings.InterpolationCommitment{PolynomialCommitment: commitment(kind == pair, p)}
}

func opening(pedersen bool, v [2]S, ptr bool) poly.CommitmentOpening {
	if pedersen {
		o := poly.PedersenCommitmentOpening{MkScalar(v[0]), MkScalar(v[1])}
		if ptr {
			return &o
		}
		return o
	}
	o := poly.SimpleCommitmentOpening{MkScalar(v[0])}
	if ptr {
		return &o
	}
	return o
}

// commit is the point an opening of the kind stands for
func commit(pedersen bool, v [2]S) P {
	p := G().Mul(v[0])
	if pedersen {
		p = p.Add(H().Mul(v[1]))
	}
	return p
}

// value reads an opening
func value(o poly.CommitmentOpening) (v [2]S, pedersen, ok bool) {
	switch x := poly.ValueOpening(o).(type) {
	case poly.SimpleCommitmentOpening:
		return [2]S{SVal(x[0]), SInt(0)}, false, true
	case poly.PedersenCommitmentOpening:
		return [2]S{SVal(x[0]), SVal(x[1])}, true, true
	}
	return
}

func same(o poly.CommitmentOpening, pedersen bool, v [2]S) bool {
	w, p, ok := value(o)
	if !ok || p != pedersen {
		return false
	}
	if !pedersen {
		return w[0].Eq(v[0])
	}
	return And(w[0].Eq(v[0]), w[1].Eq(v[1]))
}

// nodes makes n different symbolic node indices below 2^31
func nodes(name string, n int) ([]common.NodeIndex, []S) {
	ix := make([]common.NodeIndex, n)
	xs := make([]S, n)
	for i := range ix {
		v := Int(name, 0, 1<<31-1)
		ix[i] = common.NodeIndex(v)
		xs[i] = Node(v)
		for j := 0; j < i; j++ {
			Assume(ix[j] != ix[i])
		}
	}
	return ix, xs
}

var dealers, openers = []common.NodeIndex{70000, 3}, []common.NodeIndex{5, 1 << 20, 2, 9}

// fixed gives the positions of concrete node indices
func fixed(ix []common.NodeIndex) ([]common.NodeIndex, []S) {
	var xs []S
	for _, i := range ix {
		xs = append(xs, Node(int(i)))
	}
	return ix, xs
}

// combine is the oracle for the combination of shares
func combine(kind int, xs []S, v [][2]S) [2]S {
	r := [2]S{SInt(0), SInt(0)}
	for i := range v {
		c := SInt(1)
		if kind != sum {
			c = LagrangeCoeff(xs, i, SInt(0))
		}
		for k := range r {
			r[k] = r[k].Add(v[i][k].Mul(c))
		}
	}
	return r
}

func values(n int) [][2]S {
	r := make([][2]S, n)
	for i := range r {
		r[i] = [2]S{NewS("v"), NewS("m")}
	}
	return r
}

// shifted makes n points whose value at x is p plus an arbitrary shift (none if d is false)
func shifted(name string, n int, x S, p P, d bool) ([]P, P) {
	q := Ps(name, n)
	rest := Inf()
	for i := n - 1; i > 0; i-- {
		rest = rest.Add(q[i]).Mul(x)
	}
	s := Inf()
	if d {
		s = NewP(name + "shift")
	}
	q[0] = p.Sub(rest).Add(s)
	return q, s
}

// 1..3 openings by arbitrary different dealers (indices below 2^31), values or pointers, all of the right kind; commitments
// of 1..3 points that the combination opens at an arbitrary receiver below 2^32, or that are shifted by an arbitrary point:
// the combination is returned exactly when it opens the commitment
//
//verif:contract
func H_combine() {
	Generic()
	kind, n, t := Choose("kind", 3), 1+Choose("n", 3), 1+Choose("t", 3)
	ix, xs := nodes("i", n)
	v := values(n)
	var os []poly.CommitmentOpening
	ptr := Choose("ptr", 2) == 1
	for i := range v {
		os = append(os, opening(kind != simple, v[i], ptr))
	}
	want := combine(kind, xs, v)
	rec := U32("receiver")
	q, s := shifted("q", t, Node(int(rec)), commit(kind != simple, want), Choose("shift", 2) == 1)
	o, err := dealings.CommitmentOpening.CombineOpenings(ix, os, combined(kind, q), common.NodeIndex(rec), curve.K256)
	Reach("combine")
	Assert(Iff(err == nil, s.IsInf()), "combined exactly when the combination opens the commitment")
	if err == nil {
		Assert(same(o, kind != simple, want), "the combination of the shares")
	}
	for i := range v {
		Assert(same(os[i], kind != simple, v[i]), "openings left as they were")
	}
}

// 0..2 openings of which one is of the wrong kind, missing, or of a repeated dealer, and lists of different lengths; commitments other
// than the identity: an error, never a panic
func H_combineBad() {
	Generic()
	kind, what := Choose("kind", 3), Choose("what", 5)
	ped := kind != simple
	v := values(2)
	ix := []common.NodeIndex{3, 5}
	os := []poly.CommitmentOpening{opening(ped, v[0], false), opening(ped, v[1], true)}
	j := Choose("which", 2)
	bad := true
	switch what {
	case 0:
		os[j] = opening(!ped, v[j], Choose("ptr", 2) == 1)
	case 1:
		os[j] = nil
	case 2:
		ix[j] = ix[1-j]
		bad = kind != sum
	case 3:
		ix = ix[:j]
		bad = true
	case 4:
		ix, os, v = nil, nil, nil
	}
	var xs []S
	for i := range ix {
		xs = append(xs, Node(int(ix[i])))
	}
	k := NewP("k")
	Assume(Not(k.IsInf()))
	if what == 2 && kind == sum {
		k = commit(true, combine(sum, xs, v))
	}
	o, err := dealings.CommitmentOpening.CombineOpenings(ix, os, combined(kind, []P{k}), 1, curve.K256)
	Reach("bad")
	if bad {
		Assert(err != nil, "an error")
	} else {
		Assert(err == nil && same(o, ped, combine(sum, xs, v)), "the sum")
	}
}

type dealing struct {
	d     *dealings.IDkgDealingInternal
	v     [2]S // the share of the receiver
	shift P
}

var ad = []byte{1, 2}

// mkdealing encrypts arbitrary shares for two receivers; its commitment of two points is opened by the share of receiver r,
// or shifted by an arbitrary point
func mkdealing(pedersen bool, dealer common.NodeIndex, keys []*mega.MEGaPublicKey, r int, shift bool) dealing {
	var d dealing
	v := values(len(keys))
	d.v = v[r]
	sd := seed.FromBytes(Bytes("seed", 4))
	var c mega.MEGaCiphertext
	var err error
	if pedersen {
		var p [][2]curve.EccScalar
		for i := range v {
			p = append(p, [2]curve.EccScalar{MkScalar(v[i][0]), MkScalar(v[i][1])})
		}
		c, err = mega.EncryptCiphertextPair(sd, p, keys, dealer, ad)
	} else {
		var p []curve.EccScalar
		for i := range v {
			p = append(p, MkScalar(v[i][0]))
		}
		c, err = mega.EncryptCiphertextSingle(sd, p, keys, dealer, ad)
	}
	Assert(err == nil, "encryption succeeds")
	q, s := shifted("k", 2, Node(r), commit(pedersen, d.v), shift)
	d.shift = s
	d.d = &dealings.IDkgDealingInternal{Ciphertext: c, Commitment: commitment(pedersen, q)}
	return d
}

// 1..2 dealings by dealers 70000 and 3 with arbitrary shares for two receivers with arbitrary
// keys; one dealing's commitment may be shifted by an arbitrary point, one share provided by openings of 1..3 arbitrary
// other nodes, one of the openings shifted by an arbitrary scalar, and the transcript's commitment shifted by an arbitrary
// point: the combination of the shares is returned exactly when every share opens its dealing's commitment and the
// combination opens the transcript's
//
//verif:contract
func H_dealings() {
	Generic()
	kind, n, r := Choose("kind", 3), 1+Choose("n", 2), Choose("receiver", 2)
	ped := kind != simple
	sk := Ss("sk", 2)
	var keys []*mega.MEGaPublicKey
	for i := range sk {
		Assume(Not(sk[i].IsZero()))
		keys = append(keys, mega.NewMEGaPrivateKey(MkScalar(sk[i])).PublicKey())
	}
	ix, xs := fixed(dealers[:n])
	what := Choose("what", 3) // nothing, dealing shifted, transcript shifted
	j := Choose("which", n)
	var m dealingMap
	ds := make([]dealing, n)
	v := make([][2]S, n)
	ok := true
	for i := range ds {
		ds[i] = mkdealing(ped, ix[i], keys, r, what == 1 && i == j)
		v[i] = ds[i].v
		ok = And(ok, ds[i].shift.IsInf())
		m.Set(ix[i], ds[i].d)
	}
	want := combine(kind, xs, v)
	q, s := shifted("q", 2, Node(r), commit(ped, want), what == 2)
	ok = And(ok, s.IsInf())
	sec := mega.NewMEGaPrivateKey(MkScalar(sk[r]))
	var o poly.CommitmentOpening
	var err error
	if Choose("direct", 2) == 1 {
		o, err = dealings.CommitmentOpening.FromDealings(&m, combined(kind, q), ad, common.NodeIndex(r), sec, keys[r])
		Reach("direct")
	} else {
		var none btree.Map[common.NodeIndex, *openingMap]
		o, err = dealings.CommitmentOpening.FromDealingsAndOpenings(&m, &none, combined(kind, q), ad, common.NodeIndex(r), sec, keys[r])
		Reach("no openings")
	}
	Assert(Iff(err == nil, ok), "combined exactly when all shares open their commitments")
	if err == nil {
		Assert(same(o, ped, want), "the combination of the shares")
	}
	_, err = dealings.CommitmentOpening.FromDealings(&m, combined(kind, q), []byte{1, 3}, common.NodeIndex(r), sec, keys[r])
	Assert(err != nil, "other associated data is rejected")
}

// two dealings of degree one by dealers 70000 and 3, the first (second) encrypted to arbitrary keys with an unusable ciphertext and its share for
// the receiver provided by 1..3 openings of nodes 5, 2^20 and 2, one of them shifted by an arbitrary scalar; the
// other dealing's share is decrypted: the combination of the shares is returned exactly when there are at least two
// openings and they give the receiver's share
//
//verif:contract
func H_openings() {
	Generic()
	kind, r := Choose("kind", 3), Choose("receiver", 2)
	ped := kind != simple
	sk := Ss("sk", 2)
	var keys []*mega.MEGaPublicKey
	for i := range sk {
		Assume(Not(sk[i].IsZero()))
		keys = append(keys, mega.NewMEGaPrivateKey(MkScalar(sk[i])).PublicKey())
	}
	ix, xs := fixed(dealers)
	bad := Choose("bad", 2)
	var m dealingMap
	v := make([][2]S, 2)
	f, g := Ss("f", 2), Ss("g", 2)
	for i := range ix {
		d := mkdealing(ped, ix[i], keys, r, false)
		v[i] = d.v
		if i == bad {
			v[i] = [2]S{Eval(f, Node(r)), Eval(g, Node(r))}
			k := make([]P, 2)
			for l := range k {
				k[l] = commit(ped, [2]S{f[l], g[l]})
			}
			d.d.Commitment = commitment(ped, k)
			switch c := d.d.Ciphertext.(type) {
			case *mega.MEGaCiphertextSingle:
				c.CTexts = Scalars(Ss("ct", 2))
			case *mega.MEGaCiphertextPair:
				c.CTexts = [][2]curve.EccScalar{{MkScalar(NewS("ct")), MkScalar(NewS("ct"))}, {MkScalar(NewS("ct")), MkScalar(NewS("ct"))}}
			}
		}
		m.Set(ix[i], d.d)
	}
	no := 1 + Choose("openings", 3)
	ox, os := fixed(openers[:no])
	var om openingMap
	shift := [2]S{SInt(0), SInt(0)}
	odd := no
	if Choose("corrupt", 2) == 1 {
		odd = Choose("odd", no)
		shift[Choose("part", 2)] = NewS("shift")
	}
	ptr := Choose("ptr", 2) == 1
	for i := range ox {
		w := [2]S{Eval(f, os[i]), Eval(g, os[i])}
		if i == odd {
			w[0], w[1] = w[0].Add(shift[0]), w[1].Add(shift[1])
		}
		om.Set(ox[i], opening(ped, w, ptr))
	}
	var all btree.Map[common.NodeIndex, *openingMap]
	all.Set(ix[bad], &om)
	want := combine(kind, xs, v)
	q, _ := shifted("q", 2, Node(r), commit(ped, want), false)
	o, err := dealings.CommitmentOpening.FromDealingsAndOpenings(&m, &all, combined(kind, q), ad, common.NodeIndex(r), mega.NewMEGaPrivateKey(MkScalar(sk[r])), keys[r])
	Reach("openings")
	Assert(Iff(err == nil, And(no >= 2, commit(ped, shift).IsInf())), "combined exactly from enough good openings")
	if err == nil {
		Assert(same(o, ped, want), "the combination of the shares")
	}
}

// a dealing with 1..2 (thorough 3) coefficients of either kind, 0..3 (thorough 4) openings by arbitrary different nodes
// (indices below 2^31; nodes 5, 2^20, 2, 9 if more than two) of the right
// values, one of them shifted by an arbitrary scalar, of the wrong kind or missing; an arbitrary receiver: the receiver's
// share is returned exactly when there are enough openings and what they interpolate to opens the commitment
//
//verif:contract
func H_reconstruct() {
	Generic()
	ped, t := Choose("pedersen", 2) == 1, 1+Choose("t", Tier(2, 3))
	n := Choose("n", Tier(4, 5))
	f, g := Ss("f", t), Ss("g", t)
	k := make([]P, t)
	for i := range k {
		k[i] = commit(ped, [2]S{f[i], g[i]})
	}
	d := &dealings.IDkgDealingInternal{Commitment: commitment(ped, k)}
	ox, xs := fixed(openers)
	if n <= 2 {
		ox, xs = nodes("opener", n)
	}
	ox, xs = ox[:n], xs[:n]
	rec := U32("receiver")
	x := Node(int(rec))
	want := [2]S{Eval(f, x), Eval(g, x)}
	var om openingMap
	what, odd := 0, n
	if n > 0 {
		what = Choose("what", 3) // nothing, shifted, wrong kind
		if what > 0 {
			odd = Choose("odd", n)
		}
	}
	ptr := Choose("ptr", 2) == 1
	shift := [2]S{SInt(0), SInt(0)}
	for i := range ox {
		w := [2]S{Eval(f, xs[i]), Eval(g, xs[i])}
		p := ped
		if i == odd {
			if what == 1 {
				s := [2]S{NewS("shift"), NewS("shift'")}
				w[0], w[1] = w[0].Add(s[0]), w[1].Add(s[1])
				c := LagrangeCoeff(xs, i, x)
				shift[0], shift[1] = s[0].Mul(c), s[1].Mul(c)
			} else {
				p = !p
			}
		}
		om.Set(ox[i], opening(p, w, ptr))
	}
	o, err := dealings.ReconstructShareFromOpenings(d, &om, common.NodeIndex(rec))
	Reach("reconstruct")
	Assert(Iff(err == nil, And(n >= t, what != 2, commit(ped, shift).IsInf())), "reconstructed exactly from enough good openings")
	if err == nil {
		Assert(Implies(what == 0, same(o, ped, want)), "the share of the receiver")
		w, _, _ := value(o)
		Assert(commit(ped, w).Eq(commit(ped, want)), "opens the commitment")
	}
}
