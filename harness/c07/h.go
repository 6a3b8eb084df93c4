// Package c07: message expansion is standard XMD with SHA-256 for every length.
package c07

import (
	"crypto/sha256"

	"github.com/PlatONnetwork/tecdsa/seed"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/oracle"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
)

func cat(bs ...[]byte) []byte {
	r := []byte{}
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func hash(bs ...[]byte) []byte {
	h := sha256.Sum256(cat(bs...))
	return h[:]
}

// standard is RFC 9380, 5.3.1 and 5.3.3, written from its text
func standard(msg, dst []byte, n int) []byte {
	if len(dst) > 255 {
		dst = hash([]byte("H2C-OVERSIZE-DST-"), dst)
	}
	prime := cat(dst, []byte{byte(len(dst))})
	b0 := hash(make([]byte, 64), msg, []byte{byte(n >> 8), byte(n)}, []byte{0}, prime)
	var out []byte
	prev := make([]byte, 32)
	for i := 1; 32*(i-1) < n; i++ {
		x := make([]byte, 32)
		for j := range x {
			x[j] = b0[j] ^ prev[j]
		}
		prev = hash(x, []byte{byte(i)}, prime)
		out = append(out, prev...)
	}
	if len(out) > n {
		out = out[:n]
	}
	return out
}

func check(msg, dst []byte, n int) {
	m, d := cat(msg), cat(dst)
	out, err := seed.ExpandMessageXmd(msg, dst, n)
	Assert(EqBytes(m, msg), "message is left alone")
	Assert(EqBytes(d, dst), "separator is left alone")
	if n < 0 || n > 255*32 {
		Assert(err != nil && out == nil, "length that cannot be expressed")
		Reach("length refused")
		return
	}
	Assert(err == nil, "length is accepted")
	if err != nil {
		return
	}
	Assert(len(out) == n, "length of the output")
	Assert(EqBytes(out, standard(msg, dst, n)), "output is that of the standard")
	Reach("expanded")
}

// arbitrary messages of 0..3 bytes and around 64 bytes and arbitrary separators of 0..2 bytes and around 255 bytes; lengths 0, 1,
// 31..34, 48 and 96 bytes
func H_inputs() {
	msg := Bytes("msg", []int{0, 1, 2, 3, 63, 64, 65, 130}[Choose("msg length", 8)])
	dst := Bytes("dst", []int{0, 1, 2, 31, 32, 254, 255, 256, 257, 300, 511, 512}[Choose("dst length", 12)])
	check(msg, dst, []int{0, 1, 31, 32, 33, 34, 48, 96}[Choose("length", 8)])
}

// arbitrary messages of 0..200, 255..257, 1000, 4096 and 65535..65537 bytes with a 3-byte separator
func H_messages() {
	n := Choose("msg length", 209)
	if n > 200 {
		n = []int{255, 256, 257, 1000, 4096, 65535, 65536, 65537}[n-201]
	}
	check(Bytes("msg", n), Bytes("dst", 3), 48)
}

// arbitrary separators of 0..520, 1000, 4096 and 65535..65537 bytes with a 3-byte message
func H_separators() {
	n := Choose("dst length", 526)
	if n > 520 {
		n = []int{1000, 4096, 65535, 65536, 65537}[n-521]
	}
	check(Bytes("msg", 3), Bytes("dst", n), 48)
}

// every output length 0..300 and those around each multiple of 256 and around the limit (thorough: 0..8200), and lengths the standard cannot
// express, with an arbitrary 2-byte message and 3-byte separator
//
//verif:paths=9000
func H_lengths() {
	msg, dst := Bytes("msg", 2), Bytes("dst", 3)
	var ns []int
	for n := 0; n <= 8200; n++ {
		if n <= 300 || (n+2)%256 <= 4 || n > 8150 && n < 8164 || Thorough() {
			ns = append(ns, n)
		}
	}
	ns = append(ns, -1, -31, -32, -8160, -1<<63, 8192, 16384, 65535, 65536, 65537, 65536+32, 1<<32, 1<<32+32, 1<<63-1)
	check(msg, dst, ns[Choose("length", len(ns))])
}

// any output length outside 0..8160
func H_refused() {
	n := Int("n", -1<<40, 1<<40)
	Assume(Or(n < 0, n > 255*32))
	out, err := seed.ExpandMessageXmd(Bytes("msg", 1), Bytes("dst", 1), n)
	Assert(err != nil && out == nil, "length that cannot be expressed")
	Reach("refused")
}

// two expansions of arbitrary messages of 0..2 bytes with arbitrary separators of 0..2 (and 255, 256) bytes to lengths among 32, 33, 64 that agree in the
// first 32 bytes have the same message, separator and length
func H_distinct() {
	n := [2]int{}
	var m, d, o [2][]byte
	for i := range n {
		t := string(rune('a' + i))
		m[i] = Bytes(t+" msg", Choose(t+" msg length", 3))
		d[i] = Bytes(t+" dst", []int{0, 1, 2, 255, 256}[Choose(t+" dst length", 5)])
		n[i] = []int{32, 33, 64, 288}[Choose(t+" length", 4)]
		out, err := seed.ExpandMessageXmd(m[i], d[i], n[i])
		Assert(err == nil, "expanded")
		if err != nil {
			return
		}
		o[i] = out[:32]
	}
	same := n[0] == n[1] && len(m[0]) == len(m[1]) && len(d[0]) == len(d[1])
	if same {
		same = And(EqBytes(m[0], m[1]), EqBytes(d[0], d[1]))
	}
	Assert(Iff(EqBytes(o[0], o[1]), same), "outputs agree exactly for the same inputs")
	Reach("compared")
}
