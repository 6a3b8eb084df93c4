package main

import (
	"encoding/binary"
	"math/big"
	"math/bits"
)

// plain affine secp256k1 arithmetic, used only for concrete points
type ecPoint struct{ x, y *big.Int }

func hexInt(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }

var ecG = ecPoint{hexInt("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"), hexInt("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")}

func (p ecPoint) inf() bool { return p.x == nil }

func ecAdd(a, b ecPoint) ecPoint {
	if a.inf() {
		return b
	}
	if b.inf() {
		return a
	}
	l := new(big.Int)
	if a.x.Cmp(b.x) == 0 {
		s := new(big.Int).Add(a.y, b.y)
		if s.Mod(s, modP).Sign() == 0 {
			return ecPoint{}
		}
		n := new(big.Int).Mul(a.x, a.x)
		n.Mul(n, big.NewInt(3))
		d := new(big.Int).Lsh(a.y, 1)
		d.ModInverse(d, modP)
		l.Mul(n, d)
	} else {
		n := new(big.Int).Sub(b.y, a.y)
		d := new(big.Int).Sub(b.x, a.x)
		d.Mod(d, modP)
		d.ModInverse(d, modP)
		l.Mul(n, d)
	}
	l.Mod(l, modP)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.x)
	x.Sub(x, b.x)
	x.Mod(x, modP)
	y := new(big.Int).Sub(a.x, x)
	y.Mul(y, l)
	y.Sub(y, a.y)
	y.Mod(y, modP)
	return ecPoint{x, y}
}
func ecMul(p ecPoint, k *big.Int) ecPoint {
	r := ecPoint{}
	k = new(big.Int).Mod(k, modQ)
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = ecAdd(r, r)
		if k.Bit(i) == 1 {
			r = ecAdd(r, p)
		}
	}
	return r
}
func onCurve(x, y *big.Int) bool {
	l := new(big.Int).Mul(y, y)
	r := new(big.Int).Mul(x, x)
	r.Mul(r, x)
	r.Add(r, big.NewInt(7))
	l.Sub(l, r)
	return l.Mod(l, modP).Sign() == 0
}

// chachaBlock is the RFC 8439 block function
func chachaBlock(key, nonce []byte, ctr uint32) [64]byte {
	var s, w [16]uint32
	s[0], s[1], s[2], s[3] = 0x61707865, 0x3320646e, 0x79622d32, 0x6b206574
	for i := 0; i < 8; i++ {
		s[4+i] = binary.LittleEndian.Uint32(key[4*i:])
	}
	s[12] = ctr
	for i := 0; i < 3; i++ {
		s[13+i] = binary.LittleEndian.Uint32(nonce[4*i:])
	}
	w = s
	q := func(a, b, c, d int) {
		w[a] += w[b]
		w[d] = bits.RotateLeft32(w[d]^w[a], 16)
		w[c] += w[d]
		w[b] = bits.RotateLeft32(w[b]^w[c], 12)
		w[a] += w[b]
		w[d] = bits.RotateLeft32(w[d]^w[a], 8)
		w[c] += w[d]
		w[b] = bits.RotateLeft32(w[b]^w[c], 7)
	}
	for i := 0; i < 10; i++ {
		q(0, 4, 8, 12)
		q(1, 5, 9, 13)
		q(2, 6, 10, 14)
		q(3, 7, 11, 15)
		q(0, 5, 10, 15)
		q(1, 6, 11, 12)
		q(2, 7, 8, 13)
		q(3, 4, 9, 14)
	}
	var out [64]byte
	for i := range w {
		binary.LittleEndian.PutUint32(out[4*i:], w[i]+s[i])
	}
	return out
}
