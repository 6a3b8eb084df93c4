prop="C02"; pkg="curve"
edits=[("curve/k256_scalar.go","	copy(r[:len(bytes)], common.ReverseBytes(bytes))\n","	copy(r[:len(bytes)&^1], common.ReverseBytes(bytes))\n")]
needs="wide decoding of an odd number of bytes whose first byte is not zero"
breaks="the most significant byte of odd-length wide encodings is ignored"
demo='''package curve

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	for n := 1; n <= 64; n++ {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(0x91 + i)
		}
		s, err := Scalar.FromBytesWide(K256, b)
		if err != nil {
			t.Fatal(err)
		}
		w := new(big.Int).Mod(new(big.Int).SetBytes(b), GroupOrder)
		if new(big.Int).SetBytes(s.Serialize()).Cmp(w) != 0 {
			t.Fatalf("length %d", n)
		}
	}
}
'''
