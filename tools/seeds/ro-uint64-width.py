prop="C08"; pkg="ro"
edits=[("ro/ro.go","	binary.BigEndian.PutUint64(input[:], i)\n","	binary.BigEndian.PutUint32(input[4:], uint32(i))\n")]
needs="two integer inputs that agree in their low 32 bits"
breaks="integer inputs that differ only above bit 31 give the same output"
demo='''package ro

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	f := func(v uint64) []byte {
		o := NewRandomOracle("d")
		o.AddUint64("i", v)
		b, err := o.OutputByteString(32)
		if err != nil {
			t.Fatal(err)
		}
		return b
	}
	if bytes.Equal(f(5), f(5+1<<40)) {
		t.Fatal("different inputs, same output")
	}
}
'''
