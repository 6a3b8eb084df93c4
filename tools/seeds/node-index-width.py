prop="C04"; pkg="curve"
edits=[("curve/k256_point.go","	s64 := uint64(scalar + 1)","	s64 := uint64(uint16(scalar) + 1)")]
needs="multiplication by a node index of 65535 or more"
breaks="multiplying a point by a node index above 65534 gives the multiple of the index modulo 65536"
demo='''package curve

import (
	"testing"

	"github.com/PlatONnetwork/tecdsa/common"
)

func TestDemo(t *testing.T) {
	g := Point.GeneratorG(K256)
	for _, i := range []int{0, 1, 65534, 65535, 65536, 1 << 20} {
		w := g.Clone().ScalarMul(g, Scalar.FromUint64(K256, uint64(i)+1))
		if g.Clone().MulByNodeIndex(common.NodeIndex(i)).Equal(w) != 1 {
			t.Fatalf("index %d", i)
		}
	}
}
'''
