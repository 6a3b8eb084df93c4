// Package c22: key derivation follows the generalised BIP32 scheme for all paths.
package c22

import (
	"crypto/hmac"
	"crypto/sha512"

	"github.com/PlatONnetwork/tecdsa/key"
	"github.com/PlatONnetwork/tecdsa/sign"
	"github.com/PlatONnetwork/tecdsa/zz_verif/hstub"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/oracle"
	. "github.com/PlatONnetwork/tecdsa/zz_verif/vsym"
)

func mac(k []byte, m []byte) []byte {
	h := hmac.New(sha512.New, k)
	h.Write(m)
	return h.Sum(nil)
}

// next is the big-endian successor of an index, one byte longer when it overflows
func next(b []byte) []byte {
	r := append([]byte{}, b...)
	for i := len(r) - 1; i >= 0; i-- {
		r[i]++
		if r[i] != 0 {
			return r
		}
	}
	return append([]byte{1}, r...)
}

type node struct {
	k     P
	chain []byte
	off   S
}

// child derives one step; at most retries unsuitable hash outputs are passed over
func child(n node, idx []byte, retries int, f func(k, m []byte) []byte) node {
	for {
		o := f(n.chain, append(n.k.Compressed(), idx...))
		off := SBytes(o[:32])
		c := n.k.Add(G().Mul(off))
		ok := And(EqBytes(off.Bytes(), o[:32]), Not(c.IsInf()))
		if retries == 0 {
			Assume(ok)
		}
		if ok {
			return node{c, o[32:], n.off.Add(off)}
		}
		idx = next(idx)
		retries--
	}
}

func derive(k P, path [][]byte, retries int, f func(k, m []byte) []byte) node {
	n := node{k, make([]byte, 32), SInt(0)}
	for _, i := range path {
		n = child(n, i, retries, f)
	}
	return n
}

func dpath(path [][]byte) *key.DerivationPath {
	p := make([]key.DerivationIndex, len(path))
	for i := range p {
		p[i] = append(key.DerivationIndex{}, path[i]...)
	}
	return key.New(p)
}

// every index of 0..8 bytes (thorough 0..20): the successor is the value plus one, with carry
func H_next() {
	b := Bytes("idx", Choose("len", Tier(9, 21)))
	d := append(key.DerivationIndex{}, b...)
	n := d.Next()
	Reach("next")
	Assert(EqBytes(n, next(b)), "successor")
	Assert(EqBytes(d, b), "index unchanged")
}

// every key, paths of 0..3 elements (thorough 4) of 0, 1, 4 or 9 bytes each (equal lengths), no unsuitable hash outputs
//
//verif:paths=3000
func H_derive() {
	Generic()
	k := NewP("k")
	n := Choose("steps", Tier(4, 5))
	path := make([][]byte, n)
	l := []int{0, 1, 4, 9}[Choose("len", 4)]
	for i := range path {
		path[i] = Bytes("idx", l)
	}
	want := derive(k, path, 0, mac)
	pk := MkPoint(k)
	off, chain, err := dpath(path).DeriveTweak(pk)
	Reach("derive")
	Assert(err == nil, "no error")
	Assert(SVal(off).Eq(want.off), "tweak")
	Assert(EqBytes(chain, want.chain), "chain key")
	Assert(PVal(pk).Eq(k), "key unchanged")
	Assert(k.Add(G().Mul(SVal(off))).Eq(want.k), "the derived key is the key plus the tweak")
}

// every key, paths of 1 element (thorough 1..2; carry and overflow cases), up to two unsuitable hash outputs per step passed over
//
//verif:paths=3000
func H_retry() {
	Generic()
	k := NewP("k")
	idx := [][]byte{{1, 2, 3, 4}, {0x7f, 0xff, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xff}, {}, {0, 0xfe}}[Choose("idx", 5)]
	path := [][]byte{idx, {0, 0, 0, 9}}[:1+Choose("steps", Tier(1, 2))]
	if k.Compressed()[0] == 2 {
		Reach("even")
	}
	want := derive(k, path, 2, mac)
	off, chain, err := dpath(path).DeriveTweak(MkPoint(k))
	Reach("retry")
	Assert(err == nil, "no error")
	Assert(SVal(off).Eq(want.off), "tweak")
	Assert(EqBytes(chain, want.chain), "chain key")
}

func tailMac(k, m []byte) []byte { return hstub.Tail(m) }

// a transparent hash in place of SHA-512: left halves from 2^256-3 on, up to three successors (the last one overflows)
//
//verif:paths=3000
func H_retryOrder() {
	hstub.Install()
	defer hstub.Remove()
	k := NewP("k")
	idx := make([]byte, 64)
	for i := range idx {
		idx[i] = 0xff
	}
	d := Choose("back", 4)
	idx[63] = byte(0xff - d)
	path := [][]byte{idx}
	want := derive(k, path, 5, tailMac)
	off, chain, err := dpath(path).DeriveTweak(MkPoint(k))
	if hstub.Used == 0 {
		return
	}
	Reach("retry")
	Assert(err == nil, "no error")
	Assert(SVal(off).Eq(want.off), "tweak")
	Assert(EqBytes(chain, want.chain), "chain key")
}

// a transparent hash in place of SHA-512: left halves just below the order are used, not passed over
func H_retryRange() {
	hstub.Install()
	defer hstub.Remove()
	Generic()
	k := NewP("k")
	d := 1 + Choose("below", 3)
	idx := append(SInt(uint64(d)).Neg().Bytes(), make([]byte, 32)...)
	path := [][]byte{idx}
	want := derive(k, path, 0, tailMac)
	off, chain, err := dpath(path).DeriveTweak(MkPoint(k))
	if hstub.Used == 0 {
		return
	}
	Reach("range")
	Assert(err == nil, "no error")
	Assert(SVal(off).Eq(want.off), "tweak")
	Assert(EqBytes(chain, want.chain), "chain key")
}

// a transparent hash in place of SHA-512: the child of the given index is the identity
func H_retryIdentity() {
	hstub.Install()
	defer hstub.Remove()
	t := NewS("t")
	Assume(Not(t.IsZero()))
	Assume(Not(t.Add(SInt(1)).IsZero()))
	k := G().Mul(t.Neg())
	idx := t.Bytes()
	for i := 0; i < 32; i++ {
		idx = append(idx, 0xff)
	}
	path := [][]byte{idx}
	want := derive(k, path, 1, tailMac)
	off, chain, err := dpath(path).DeriveTweak(MkPoint(k))
	if hstub.Used == 0 {
		return
	}
	Reach("identity")
	Assert(err == nil, "no error")
	Assert(SVal(off).Eq(want.off), "tweak")
	Assert(EqBytes(chain, want.chain), "chain key")
}

// every key and 32-bit index, paths of 1..3 indices: BIP32 public derivation
//
//verif:paths=3000
func H_bip32() {
	Generic()
	k := NewP("k")
	n := 1 + Choose("steps", 3)
	is := make([]uint32, n)
	path := make([][]byte, n)
	for i := range is {
		v := U32("i")
		is[i] = v
		path[i] = []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
	}
	want := derive(k, path, 0, mac)
	off, chain, err := key.NewBip32(is).DeriveTweak(MkPoint(k))
	Reach("bip32")
	Assert(err == nil, "no error")
	Assert(SVal(off).Eq(want.off), "tweak")
	Assert(EqBytes(chain, want.chain), "chain key")
}

// every master key (as its 33-byte encoding), paths of 0..2 four-byte indices
//
//verif:paths=3000
func H_derivePublicKey() {
	Generic()
	k := NewP("k")
	if k.Compressed()[0] == 2 {
		Reach("even")
	}
	path := make([][]byte, Choose("steps", 3))
	for i := range path {
		path[i] = Bytes("idx", 4)
	}
	want := derive(k, path, 0, mac)
	m := &key.MasterEcdsaPublicKey{PublicKey: MkPoint(k).Serialize()}
	r, err := sign.DerivePublicKey(m, dpath(path))
	Reach("derive")
	Assert(err == nil, "no error")
	if err != nil {
		return
	}
	Assert(EqBytes(r.PublicKey, want.k.Compressed()), "derived public key")
	Assert(EqBytes(r.ChainKey, want.chain), "chain key")
	Assert(EqBytes(m.PublicKey, k.Compressed()), "master key unchanged")
}

// malformed master keys (lengths other than 33, tags other than 2 and 3): an error, no crash
func H_badMaster() {
	n := []int{0, 1, 32, 33, 34, 65}[Choose("len", 6)]
	b := Bytes("b", n)
	if n == 33 {
		z := true
		for i := range b {
			z = And(z, b[i] == 0)
		}
		Assume(And(b[0] != 2, b[0] != 3, Not(z)))
	}
	_, err := sign.DerivePublicKey(&key.MasterEcdsaPublicKey{PublicKey: b}, key.NewBip32([]uint32{1}))
	Reach("bad")
	Assert(err != nil, "rejected")
}
