// Package c09: seeds and randomness streams are deterministic functions of their inputs.
package c09

import (
	"encoding/binary"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/PlatONnetwork/tecdsa/poly"
	"github.com/PlatONnetwork/tecdsa/rand"
	"github.com/PlatONnetwork/tecdsa/seed"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/oracle"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
	"golang.org/x/crypto/chacha20"
)

// stream is the first n bytes of the ChaCha20 keystream of a key
func stream(key []byte, n int) []byte {
	c, err := chacha20.NewUnauthenticatedCipher(key, make([]byte, 12))
	if err != nil {
		panic(err)
	}
	out := make([]byte, n)
	c.XORKeyStream(out, out)
	return out
}

func read(s *seed.Seed, n int) []byte {
	out := make([]byte, n)
	s.Rng().FillUint8(out)
	return out
}

func xmd(in []byte, dst string) []byte {
	r, err := seed.ExpandMessageXmd(in, []byte(dst), 32)
	if err != nil {
		panic(err)
	}
	return r
}

// the stream of a key consumed by 0..3 (thorough: 0..4) reads, each of any kind: 32- and 64-bit integers, and buffers of 0, 1, 3, 32, 63..65 or 300 bytes filled, XORed in
// place or XORed into another buffer, all with arbitrary previous contents
//
//verif:paths=30000
func H_reads() {
	key := Bytes("key", 32)
	r := rand.NewChaCha20(key)
	want := stream(key, 700)
	at := 0
	n := Choose("reads", Tier(4, 5))
	for i := 0; i < n; i++ {
		switch k := Choose("read", 6); k {
		case 0:
			Assert(r.Uint32() == binary.BigEndian.Uint32(want[at:]), "32-bit integer")
			at += 4
		case 1:
			Assert(r.Uint64() == binary.BigEndian.Uint64(want[at:]), "64-bit integer")
			at += 8
		default:
			sizes := []int{0, 3, 65}
			if n < 3 {
				sizes = []int{0, 1, 3, 32, 63, 64, 65, 300}
			}
			m := sizes[Choose("size", len(sizes))]
			b := Bytes("old", m)
			old := append([]byte{}, b...)
			x := make([]byte, m)
			for j := range x {
				x[j] = old[j] ^ want[at+j]
			}
			switch k {
			case 2:
				r.FillUint8(b)
				Assert(EqBytes(b, want[at:at+m]), "filled buffer")
			case 3:
				r.XORKeyStream(b, b)
				Assert(EqBytes(b, x), "buffer XORed in place")
			case 4:
				d := Bytes("destination", m)
				r.XORKeyStream(d, b)
				Assert(EqBytes(d, x), "buffer XORed into another")
				Assert(EqBytes(b, old), "source is left alone")
			case 5:
				// part of a larger buffer
				d := Bytes("destination", m+2)
				a, z := d[0], d[m+1]
				r.FillUint8(d[1 : m+1])
				Assert(EqBytes(d[1:m+1], want[at:at+m]), "filled part of a buffer")
				Assert(And(d[0] == a, d[m+1] == z), "rest of the buffer")
			}
			at += m
		}
	}
	Reach("read")
}

// two streams of the same key are independent of each other and of their key's later changes
func H_independent() {
	key := Bytes("key", 32)
	want := stream(key, 80)
	a, b := rand.NewChaCha20(key), rand.NewChaCha20(key)
	key[Choose("changed", 32)] ^= 1
	x, y := make([]byte, 40), make([]byte, 40)
	a.FillUint8(x)
	b.FillUint8(y)
	Assert(And(EqBytes(x, want[:40]), EqBytes(y, want[:40])), "both start at the beginning")
	a.FillUint8(x)
	Assert(EqBytes(x, want[40:]), "streams advance on their own")
	Reach("independent")
}

// seeds of arbitrary inputs of 0..2 and 31..33 bytes with arbitrary separators of 0..2 bytes; derivation with a second separator; the input
// changed afterwards
func H_seeds() {
	in := Bytes("input", []int{0, 1, 2, 31, 32, 33}[Choose("length", 6)])
	d, e := string(Bytes("separator", Choose("separator length", 3))), string(Bytes("separator2", Choose("separator2 length", 3)))
	s := seed.NewSeed(in, d)
	v := xmd(in, d)
	if len(in) > 0 {
		in[0] ^= 1
	}
	Assert(EqBytes(read(s, 70), stream(v, 70)), "stream of a seed")
	t := s.Derive(e)
	Assert(EqBytes(read(t, 70), stream(xmd(v, e), 70)), "stream of a derived seed")
	r := s.Rng()
	r.Uint64()
	Assert(EqBytes(read(s, 70), stream(v, 70)), "a seed can be used again")
	Assert(EqBytes(read(s.Derive(e), 70), stream(xmd(v, e), 70)), "a seed can be derived from again")
	Reach("derived")
}

// tape is a source with given bytes
type tape struct {
	b  []byte
	at int
}

func (t *tape) next(n int) []byte {
	Assume(t.at+n <= len(t.b))
	t.at += n
	return t.b[t.at-n : t.at]
}
func (t *tape) Uint32() uint32     { return binary.BigEndian.Uint32(t.next(4)) }
func (t *tape) Uint64() uint64     { return binary.BigEndian.Uint64(t.next(8)) }
func (t *tape) FillUint8(b []byte) { copy(b, t.next(len(b))) }
func (t *tape) XORKeyStream(dst, src []byte) {
	for i, k := range t.next(len(src)) {
		dst[i] = src[i] ^ k
	}
}

const makers = 4

// mk makes a seed from 32 bytes in one of the ways there are
func mk(how int, in []byte, sep string) *seed.Seed {
	switch how {
	case 0:
		return seed.FromBytes(in)
	case 1:
		t := &tape{b: append(append([]byte{}, in...), 1, 2, 3)}
		s := seed.FromRng(t)
		Assert(t.at == 32, "FromRng takes 32 bytes")
		return s
	case 2:
		t := &tape{b: append(append([]byte{}, in...), 1, 2, 3)}
		s := seed.FromRandomness(t)
		Assert(t.at == 32, "FromRandomness takes 32 bytes")
		return s
	}
	return seed.FromBytes(in).Derive(sep)
}

// seeds made in any two ways from two arbitrary 32-byte inputs (and separators of 1 byte) are the same exactly when made in the same way from the same input
func H_ways() {
	a, b := Choose("a", makers), Choose("b", makers)
	x, y := Bytes("x", 32), Bytes("y", 32)
	d, e := string(Bytes("d", 1)), string(Bytes("e", 1))
	same := EqBytes(x, y)
	if a == 3 {
		same = And(same, d == e)
	}
	same = And(same, a == b)
	Assert(Iff(EqBytes(read(mk(a, x, d), 32), read(mk(b, y, e), 32)), same), "seeds agree exactly when made alike")
	Reach("compared")
}

// FromBytes of arbitrary inputs of different lengths among 1, 31, 32, 33, 63..65 and 100 bytes
func H_bytes() {
	l := []int{1, 31, 32, 33, 63, 64, 65, 100}
	x, y := Bytes("x", l[Choose("lx", len(l))]), Bytes("y", l[Choose("ly", len(l))])
	same := len(x) == len(y)
	if same {
		same = EqBytes(x, y)
	}
	Assert(Iff(EqBytes(read(seed.FromBytes(x), 32), read(seed.FromBytes(y), 32)), same), "seeds agree exactly for the same bytes")
	Reach("compared")
}

// words are the first n in-range words of the tape and how many words that takes (-1: more than there are)
func words(b []byte, n int) ([]S, int) {
	var r []S
	i := 0
	for ; len(r) < n; i++ {
		if 32*(i+1) > len(b) {
			return r, -1
		}
		if inRange(b[32*i : 32*i+32]) {
			r = append(r, SBytes(b[32*i:32*i+32]))
		}
	}
	return r, i
}

// inRange reports whether a big-endian word is below the group order
func inRange(b []byte) bool {
	q := []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe,
		0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41}
	less, equal := false, true
	for i := range q {
		less = Or(less, And(equal, b[i] < q[i]))
		equal = And(equal, b[i] == q[i])
	}
	return less
}

// a random scalar and random polynomials of 0..3 coefficients, with and without a given constant, from an arbitrary stream of up to 3 (thorough: 5)
// words, any of them out of range
func H_random() {
	b := Bytes("tape", 32*Tier(3, 5))
	t := &tape{b: append([]byte{}, b...)}
	n := Choose("coefficients", 4)
	how := Choose("kind", 3)
	var got []S
	k := n
	switch how {
	case 0:
		k = 1
		got = []S{SVal(curve.Scalar.Random(curve.K256, t))}
	case 1:
		got = Coeffs(poly.Poly.Random(curve.K256, n, t), n)
	case 2:
		c := NewS("constant")
		p, err := poly.Poly.RandomWithConstant(MkScalar(c), n, t)
		if n == 0 {
			Assert(err != nil && p == nil && t.at == 0, "polynomial without coefficients")
			Reach("refused")
			return
		}
		Assert(err == nil, "polynomial made")
		got = Coeffs(p, n)
		Assert(got[0].Eq(c), "constant term")
		got, k = got[1:], n-1
	}
	want, used := words(b, k)
	Assert(used >= 0, "enough words")
	if used < 0 {
		return
	}
	Assert(EqS(got, want), "successive in-range words")
	Assert(t.at == 32*used, "words taken")
	Reach("random")
}

// a scalar from an arbitrary seed is the first in-range word of its stream, up to 2 words out of range
func H_fromSeed() {
	RngFull()
	in := Bytes("input", 4)
	b := read(seed.FromBytes(in), 96)
	want, used := words(b, 1)
	Assume(used >= 0)
	Assert(SVal(curve.Scalar.FromSeed(curve.K256, seed.FromBytes(in))).Eq(want[0]), "first in-range word")
	Reach("scalar")
}
