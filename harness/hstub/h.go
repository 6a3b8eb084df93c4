// Package hstub replaces SHA-512 by a transparent function, so that hash
// outputs which are infeasible to hit with the real one can be produced.
package hstub

import (
	"crypto"
	"crypto/sha512"
	"hash"
)

// Used counts the digests the stub has produced
var Used int

type stub struct{ buf []byte }

func (s *stub) Write(b []byte) (int, error) {
	s.buf = append(s.buf, b...)
	return len(b), nil
}

// Sum is the last 64 bytes written
func (s *stub) Sum(b []byte) []byte {
	Used++
	return append(append([]byte{}, b...), Tail(s.buf)...)
}
func (s *stub) Reset()         { s.buf = nil }
func (s *stub) Size() int      { return 64 }
func (s *stub) BlockSize() int { return 128 }

// Tail is the last 64 bytes of b
func Tail(b []byte) []byte {
	r := make([]byte, 64)
	if len(b) > 64 {
		b = b[len(b)-64:]
	}
	copy(r[64-len(b):], b)
	return r
}

// Install makes crypto.SHA512.New give the stub
func Install() {
	Used = 0
	crypto.RegisterHash(crypto.SHA512, func() hash.Hash { return &stub{} })
}

func Remove() { crypto.RegisterHash(crypto.SHA512, sha512.New) }

// NewHMAC is HMAC over any hash (used by the engine when the hash is the stub)
func NewHMAC(f func() hash.Hash, key []byte) hash.Hash {
	m := &mac{f: f, ipad: make([]byte, 128), opad: make([]byte, 128)}
	if len(key) > 128 {
		h := f()
		h.Write(key)
		key = h.Sum(nil)
	}
	copy(m.ipad, key)
	copy(m.opad, key)
	for i := range m.ipad {
		m.ipad[i] ^= 0x36
		m.opad[i] ^= 0x5c
	}
	return m
}

type mac struct {
	f          func() hash.Hash
	ipad, opad []byte
	buf        []byte
}

func (m *mac) Write(b []byte) (int, error) {
	m.buf = append(m.buf, b...)
	return len(b), nil
}
func (m *mac) Sum(b []byte) []byte {
	i := m.f()
	i.Write(m.ipad)
	i.Write(m.buf)
	o := m.f()
	o.Write(m.opad)
	o.Write(i.Sum(nil))
	return o.Sum(b)
}
func (m *mac) Reset()         { m.buf = nil }
func (m *mac) Size() int      { return 64 }
func (m *mac) BlockSize() int { return 128 }
