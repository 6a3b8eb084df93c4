prop="C11"; pkg="poly"
edits=[("poly/lagrange.go","""		tmp = tmp.Mul(tmp, x.Sub(x, value))
		numerator[i-1] = numerator[i-1].Mul(numerator[i-1], tmp)""","""		if diff := x.Sub(x, value); diff.IsZero() == 0 {
			tmp = tmp.Mul(tmp, diff)
		}
		numerator[i-1] = numerator[i-1].Mul(numerator[i-1], tmp)""")]
needs="interpolation at a position that is itself one of the sampled nodes (not the first)"
breaks="the coefficients no longer reproduce the value at a sampled position"
demo='''package poly

import (
	"testing"

	"github.com/PlatONnetwork/tecdsa/common"
	"github.com/PlatONnetwork/tecdsa/curve"
)

func TestDemo(t *testing.T) {
	p := Poly.New(curve.K256, []curve.EccScalar{curve.Scalar.FromUint64(curve.K256, 7), curve.Scalar.FromUint64(curve.K256, 5), curve.Scalar.FromUint64(curve.K256, 3)})
	nodes := []common.NodeIndex{0, 2, 5}
	var ys []curve.EccScalar
	for _, n := range nodes {
		ys = append(ys, p.EvaluateAt(curve.Scalar.FromNodeIndex(curve.K256, n)))
	}
	for v := 0; v < 8; v++ {
		x := curve.Scalar.FromNodeIndex(curve.K256, common.NodeIndex(v))
		l, err := Lagrange.AtValue(x, nodes)
		if err != nil {
			t.Fatal(err)
		}
		y, err := l.InterpolateScalar(ys)
		if err != nil || y.Equal(p.EvaluateAt(x)) != 1 {
			t.Fatalf("wrong value at node %d", v)
		}
	}
}
'''
