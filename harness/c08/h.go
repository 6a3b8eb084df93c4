// Package c08: random-oracle inputs are encoded injectively and never dropped.
package c08

import (
	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/ro"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/oracle"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
)

// an input with its name, kind and the bytes that identify its value
type in struct {
	name string
	kind int
	b    []byte
	u    uint64
	s    S
	p    P
}

const kinds = 5

func newIn(tag string, kind, nl, vl int) in {
	i := in{name: string(Bytes(tag+"name", nl)), kind: kind}
	switch kind {
	case 0:
		i.b = Bytes(tag+"v", vl)
	case 1:
		i.u = U64(tag + "u")
	case 2:
		i.u = uint64(U32(tag + "w"))
	case 3:
		i.p = NewP(tag + "p")
	case 4:
		i.s = NewS(tag + "s")
	}
	return i
}

func add(o *ro.RandomOracle, i in) error {
	switch i.kind {
	case 0:
		return o.AddBytesString(i.name, i.b)
	case 1:
		return o.AddUint64(i.name, i.u)
	case 2:
		return o.AddUint32(i.name, uint32(i.u))
	case 3:
		return o.AddPoint(i.name, MkPoint(i.p))
	}
	return o.AddScalar(i.name, MkScalar(i.s))
}

func sameName(a, b in) bool {
	return len(a.name) == len(b.name) && EqBytes([]byte(a.name), []byte(b.name))
}

// same: both integer kinds absorb the same value the same way
func same(a, b in) bool {
	ka, kb := a.kind, b.kind
	if ka == 2 {
		ka = 1
	}
	if kb == 2 {
		kb = 1
	}
	if ka != kb || len(a.name) != len(b.name) || len(a.b) != len(b.b) {
		return false
	}
	r := EqBytes([]byte(a.name), []byte(b.name))
	switch ka {
	case 0:
		r = And(r, EqBytes(a.b, b.b))
	case 1:
		r = And(r, a.u == b.u)
	case 3:
		r = And(r, a.p.Eq(b.p))
	case 4:
		r = And(r, a.s.Eq(b.s))
	}
	return r
}

func out(o *ro.RandomOracle) []byte {
	b, err := o.OutputByteString(32)
	Assert(err == nil, "output")
	return b
}

// two oracles with one input each: any kinds, names of 1..2 bytes, values of 0..2 bytes, domains of 0..2 bytes
//
//verif:paths=12000
func H_single() {
	Generic()
	d1, d2 := Bytes("d", Choose("dl", 3)), Bytes("d", Choose("dl", 3))
	a := newIn("a", Choose("kind", kinds), 1+Choose("nl", 2), Choose("vl", 3))
	b := newIn("b", Choose("kind", kinds), 1+Choose("nl", 2), Choose("vl", 3))
	x, y := ro.NewRandomOracle(string(d1)), ro.NewRandomOracle(string(d2))
	Assert(add(x, a) == nil, "accepted")
	Assert(add(y, b) == nil, "accepted")
	Reach("single")
	dom := len(d1) == len(d2)
	if dom {
		dom = EqBytes(d1, d2)
	}
	Assert(Iff(EqBytes(out(x), out(y)), And(dom, same(a, b))), "same output exactly for the same domain and input")
}

// oracles with two and one or two byte-string or integer inputs: names of 1..2 bytes (possibly prefixes of each other),
// values of 0..2 bytes, including values that look like encoded inputs
//
//verif:paths=6000
func H_pairs() {
	d := "dom"
	vl := func() int { return []int{0, 2, 9}[Choose("vl", 3)] }
	a := newIn("a", 0, 1+Choose("nl", 2), vl())
	b := newIn("b", Choose("kind", 2), 1+Choose("nl", 2), 1)
	c := newIn("c", 0, 1+Choose("nl", 2), []int{0, 2, 9, 10, 18}[Choose("vl", 5)])
	Assume(Not(sameName(a, b)))
	x, y := ro.NewRandomOracle(d), ro.NewRandomOracle(d)
	Assert(And(add(x, a) == nil, add(x, b) == nil), "accepted")
	Assert(add(y, c) == nil, "accepted")
	Reach("one")
	Assert(Not(EqBytes(out(x), out(y))), "two inputs never look like one")
	e := newIn("e", Choose("kind", 2), 1, 1)
	if add(y, e) != nil {
		Assert(sameName(c, e), "rejected only for a repeated name")
		return
	}
	Assert(Not(sameName(c, e)), "repeated names are rejected")
	Reach("two")
	eq := Or(And(same(a, c), same(b, e)), And(same(a, e), same(b, c)))
	Assert(Iff(EqBytes(out(x), out(y)), eq), "same output exactly for the same set of inputs")
}

// three inputs of different kinds added in any order: one output
func H_order() {
	is := []in{{name: "x", kind: 0, b: Bytes("b", 3)}, {name: "xy", kind: 3, p: NewP("p")}, {name: "a", kind: 4, s: NewS("s")}}
	n := string(Bytes("name", 1))
	is[2].name = n
	Assume(n != "x")
	perm := [][3]int{{0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[Choose("perm", 5)]
	x, y := ro.NewRandomOracle("d"), ro.NewRandomOracle("d")
	for i := range is {
		Assert(add(x, is[i]) == nil, "accepted")
		Assert(add(y, is[perm[i]]) == nil, "accepted")
	}
	Reach("order")
	Assert(EqBytes(out(x), out(y)), "order of addition is irrelevant")
	s1, err1 := x.OutputScalar(curve.K256)
	s2, err2 := y.OutputScalar(curve.K256)
	Assert(err1 == nil, "scalar output")
	Assert(err2 == nil, "scalar output")
	Assert(SVal(s1).Eq(SVal(s2)), "order of addition is irrelevant")
	Assert(EqBytes(out(x), out(x)), "reading the output does not change it")
}

// byte strings around the one-byte and two-byte length boundaries: accepted, and every byte and the length matter
func H_long() {
	l := []int{254, 255, 256, 257, 300, 511, 512, 513, 65535, 65536, 65537}[Choose("len", 11)]
	l2 := []int{l, l + 256, l - 1, l & 0xff}[Choose("len2", 4)]
	mk := func(n int, tag string) []byte {
		b := make([]byte, n)
		for _, i := range []int{0, n / 2, n - 1} {
			if i >= 0 && i < n {
				b[i] = U8(tag)
			}
		}
		return b
	}
	a, b := mk(l, "a"), mk(l2, "b")
	x, y := ro.NewRandomOracle("d"), ro.NewRandomOracle("d")
	Assert(x.AddBytesString("n", a) == nil, "accepted")
	Assert(y.AddBytesString("n", b) == nil, "accepted")
	Reach("long")
	eq := len(a) == len(b)
	if eq {
		eq = EqBytes(a, b)
	}
	Assert(Iff(EqBytes(out(x), out(y)), eq), "same output exactly for the same bytes")
}

// names of 1, 2, 127, 128, 254 and 255 bytes are accepted and matter; empty and longer names are rejected
func H_names() {
	l := []int{0, 1, 127, 128, 254, 255, 256, 257, 511, 512}[Choose("len", 10)]
	n := make([]byte, l)
	for i := range n {
		n[i] = 'n'
	}
	m := append([]byte{}, n...)
	if l > 0 {
		n[l-1], m[l-1] = U8("a"), U8("b")
	}
	x, y := ro.NewRandomOracle("d"), ro.NewRandomOracle("d")
	e1, e2 := x.AddBytesString(string(n), nil), y.AddBytesString(string(m), nil)
	Reach("names")
	if l == 0 || l > 255 {
		Assert(e1 != nil, "rejected")
		_, err := x.OutputByteString(32)
		Assert(err != nil, "no output without inputs")
		return
	}
	Assert(e1 == nil, "accepted")
	Assert(e2 == nil, "accepted")
	Assert(Iff(EqBytes(out(x), out(y)), EqBytes(n, m)), "same output exactly for the same name")
}

// a second input of any kind under a used name is an error and leaves the first in place
func H_duplicate() {
	Generic()
	a := newIn("a", Choose("kind", kinds), 1, 2)
	b := newIn("b", Choose("kind", kinds), 1, 2)
	b.name = a.name
	x, y := ro.NewRandomOracle("d"), ro.NewRandomOracle("d")
	Assert(add(x, a) == nil, "accepted")
	Assert(add(y, a) == nil, "accepted")
	Assert(add(x, b) != nil, "repeated name is rejected")
	Reach("duplicate")
	Assert(EqBytes(out(x), out(y)), "the first input is kept")
}

// lists of 0..3 points: each under its own name, a clash is reported
func H_points() {
	Generic()
	n, m := Choose("n", 4), Choose("m", 4)
	a, b := Ps("a", n), Ps("b", m)
	x, y := ro.NewRandomOracle("d"), ro.NewRandomOracle("d")
	add(x, in{name: "z", kind: 1, u: 1})
	add(y, in{name: "z", kind: 1, u: 1})
	Assert(x.AddPoints("p", Points(a)) == nil, "accepted")
	Assert(y.AddPoints("p", Points(b)) == nil, "accepted")
	Reach("points")
	Assert(Iff(EqBytes(out(x), out(y)), EqP(a, b)), "same output exactly for the same list")
	Assert(Iff(x.AddPoints("p", Points(b)) != nil, n > 0 && m > 0), "clashing names are rejected")
}

// outputs of every kind depend on the domain and the input; oracles without inputs have no output
func H_outputs() {
	e := ro.NewRandomOracle("d")
	_, err := e.OutputByteString(32)
	Assert(err != nil, "no output without inputs")
	_, err = e.OutputScalar(curve.K256)
	Assert(err != nil, "no output without inputs")
	_, err = e.OutputPoint(curve.K256)
	Assert(err != nil, "no output without inputs")
	d1, d2 := Bytes("d", 2), Bytes("d", 2)
	v1, v2 := U64("v"), U64("v")
	x, y := ro.NewRandomOracle(string(d1)), ro.NewRandomOracle(string(d2))
	Assert(x.AddUint64("n", v1) == nil, "accepted")
	Assert(y.AddUint64("n", v2) == nil, "accepted")
	n := 1 + Choose("n", 3)
	s1, e1 := x.OutputScalars(curve.K256, n)
	s2, e2 := y.OutputScalars(curve.K256, n)
	Assert(e1 == nil, "scalars")
	Assert(e2 == nil, "scalars")
	Assert(len(s1) == n, "number of scalars")
	Reach("outputs")
	eq := And(EqBytes(d1, d2), v1 == v2)
	for i := range s1 {
		Assert(Implies(eq, SVal(s1[i]).Eq(SVal(s2[i]))), "scalars are determined by domain and input")
	}
}

// a byte string as long as the encoding of an input of each other kind never stands for it
func H_kinds() {
	Generic()
	k := 1 + Choose("kind", kinds-1)
	a := newIn("a", k, 1, 0)
	ls := [][]int{{8}, {4, 8}, {33, 34}, {32, 33}}[k-1]
	b := in{name: a.name, b: Bytes("v", ls[Choose("len", len(ls))])}
	o := in{name: a.name, kind: 1 + Choose("other", kinds-1)}
	o.u, o.s, o.p = uint64(U32("ou")), NewS("os"), NewP("op")
	x, y, z := ro.NewRandomOracle("d"), ro.NewRandomOracle("d"), ro.NewRandomOracle("d")
	Assert(add(x, a) == nil, "accepted")
	Assert(add(y, b) == nil, "accepted")
	Assert(add(z, o) == nil, "accepted")
	Reach("kinds")
	Assert(Not(EqBytes(out(x), out(y))), "a byte string never stands for another kind")
	Assert(Iff(EqBytes(out(x), out(z)), same(a, o)), "same output exactly for the same kind and value")
}

// one byte-string input whose name ends elsewhere, or whose value takes in a whole further input, never gives
// the output of another set of inputs of the same total length: names of 1..8 bytes, and values of one byte, one
// block and 256 bytes more than the value it could be taken for
func H_confuse() {
	d := "d"
	x, y := ro.NewRandomOracle(d), ro.NewRandomOracle(d)
	if Choose("mode", 2) == 0 {
		nl, vl := 1+Choose("nl", 8), Choose("vl", 3)
		a := in{name: string(Bytes("an", nl)), b: Bytes("av", vl)}
		c := in{name: string(Bytes("cn", 1)), b: Bytes("cv", nl+vl-1)}
		Assert(add(x, a) == nil, "accepted")
		Assert(add(y, c) == nil, "accepted")
		Reach("name")
		eq := nl == 1
		if eq {
			eq = same(a, c)
		}
		Assert(Iff(EqBytes(out(x), out(y)), eq), "the end of the name matters")
		return
	}
	// name byte 1, length of name 1, type 1, length 4
	total := []int{7, 8, 39, 256, 512, 65536}[Choose("total", 6)]
	vl := []int{0, 1, 250}[Choose("vl", 3)]
	b := make([]byte, total-7)
	if len(b) > 0 {
		b[len(b)-1] = U8("last")
	}
	v := Bytes("v", vl)
	n1, n2 := string(Bytes("n", 1)), string(Bytes("n", 1))
	Assume(n1 < n2)
	Assert(add(x, in{name: n1, b: v}) == nil, "accepted")
	Assert(add(x, in{name: n2, b: b}) == nil, "accepted")
	// the value of the first input followed by the second as it might be encoded
	w := append([]byte{}, v...)
	w = append(w, Bytes("w", 7)...)
	w = append(w, b...)
	Assert(add(y, in{name: n1, b: w}) == nil, "accepted")
	Reach("value")
	Assert(Not(EqBytes(out(x), out(y))), "two inputs never look like one longer one")
}
