// Package vsym is the input/assertion interface of the verification harnesses.
// Under the symbolic engine every exported function of this package is given a
// symbolic meaning; compiled natively it replays concrete inputs and computes
// the oracle with plain math/big arithmetic, independently of the code under test.
package vsym

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"reflect"
	"strings"
	"unsafe"

	"github.com/PlatONnetwork/tecdsa/curve"
	"github.com/coinbase/kryptology/pkg/core/curves/native"
)

var (
	q, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
	p, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
)

type assumeFailed struct{}
type assertFailed struct{ msg string }

type state struct {
	seed   string
	model  map[string]string
	seen   map[string]int
	events []string
	reach  []string
	failed []string
	inputs []string
}

var st = &state{seen: map[string]int{}}

func uniq(name string) string {
	n := st.seen[name]
	st.seen[name] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

// Derive is the shared pseudo-random input generator (also implemented by the engine).
func Derive(seed, name string, n int) []byte {
	var out []byte
	for i := 0; len(out) < n; i++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("%s|%s|%d", seed, name, i)))
		out = append(out, h[:]...)
	}
	return out[:n]
}

func input(name, kind string, gen func(nm string) *big.Int) *big.Int {
	nm := uniq(name)
	var v *big.Int
	if s, ok := st.model[nm]; ok {
		i := strings.IndexByte(s, ':')
		v, _ = new(big.Int).SetString(s[i+1:], 16)
	}
	if v == nil {
		v = gen(nm)
	}
	st.inputs = append(st.inputs, nm+"="+kind+":"+v.Text(16))
	return v
}

func genInt(bits int) func(string) *big.Int {
	return func(nm string) *big.Int {
		d := Derive(st.seed, nm, 9)
		v := new(big.Int).SetBytes(d[1:])
		if d[0]&3 == 0 {
			v.And(v, big.NewInt(3))
		}
		return v.And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1)))
	}
}
func genFF(m *big.Int) func(string) *big.Int {
	return func(nm string) *big.Int {
		d := Derive(st.seed, nm, 49)
		v := new(big.Int).SetBytes(d[1:])
		if d[0] < 16 {
			v.And(v, big.NewInt(3))
		}
		return v.Mod(v, m)
	}
}

func U64(name string) uint64 { return input(name, "u64", genInt(64)).Uint64() }
func U32(name string) uint32 { return uint32(input(name, "u32", genInt(32)).Uint64()) }
func U8(name string) uint8   { return uint8(input(name, "u8", genInt(8)).Uint64()) }
func Bool(name string) bool  { return input(name, "bool", genInt(1)).Sign() != 0 }

// Int is a symbolic integer in [lo,hi]
func Int(name string, lo, hi int) int {
	v := input(name, "int", func(nm string) *big.Int {
		d := Derive(st.seed, nm, 8)
		v := new(big.Int).SetBytes(d)
		v.Mod(v, big.NewInt(int64(hi-lo+1)))
		return v.Add(v, big.NewInt(int64(lo)))
	})
	r := int(int64(v.Uint64()))
	if v.Sign() < 0 {
		r = int(v.Int64())
	}
	if r < lo || r > hi {
		panic(assumeFailed{})
	}
	return r
}

// Bytes is a symbolic byte string of concrete length n
func Bytes(name string, n int) []byte {
	v := input(name, "bytes", func(nm string) *big.Int {
		d := Derive(st.seed, nm, n+1)
		if d[0] < 16 {
			return new(big.Int)
		}
		if d[0] < 32 {
			for i := range d {
				d[i] = 0xff
			}
		}
		return new(big.Int).SetBytes(d[1:])
	})
	b := make([]byte, n)
	v.FillBytes(b)
	return b
}

// Choose enumerates 0..n-1 exhaustively
func Choose(name string, n int) int {
	v := input(name, "choose", func(nm string) *big.Int {
		v := new(big.Int).SetBytes(Derive(st.seed, nm, 8))
		return v.Mod(v, big.NewInt(int64(n)))
	})
	r := int(v.Int64())
	if r < 0 || r >= n {
		panic(assumeFailed{})
	}
	return r
}

func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}
func Assert(c bool, msg string) {
	st.events = append(st.events, fmt.Sprintf("A:%s:%v", msg, c))
	if !c {
		st.failed = append(st.failed, msg)
	}
}
func Reach(label string) {
	st.reach = append(st.reach, label)
	st.events = append(st.events, "R:"+label)
}

// Observe adds a value to the trace compared between the engine and the native run
func Observe(name string, b []byte) {
	st.events = append(st.events, fmt.Sprintf("O:%s:%x", name, b))
}

// Generic restricts symbolic points to non-identity ones (recorded as an assumption)
func Generic() {}

// RngFull makes rejection in scalar sampling explicit
func RngFull()       {}
func Thorough() bool { return os.Getenv("VERIF_THOROUGH") == "1" }

// Tier returns a in the quick tier and b in the thorough one
func Tier(a, b int) int {
	if Thorough() {
		return b
	}
	return a
}

// Non-forking boolean connectives
func And(a ...bool) bool {
	r := true
	for _, x := range a {
		r = r && x
	}
	return r
}
func Or(a ...bool) bool {
	r := false
	for _, x := range a {
		r = r || x
	}
	return r
}
func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// Panics reports whether f panics
func Panics(f func()) (r bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(assumeFailed); ok {
				panic(e)
			}
			r = true
		}
	}()
	f()
	return false
}

// ---- scalars modulo the group order ----

type S struct{ v *big.Int }

func mkS(v *big.Int) S { return S{new(big.Int).Mod(v, q)} }
func (a S) g() *big.Int {
	if a.v == nil {
		return new(big.Int)
	}
	return a.v
}
func NewS(name string) S { return mkS(input(name, "S", genFF(q))) }
func SInt(v uint64) S    { return mkS(new(big.Int).SetUint64(v)) }
func SHex(h string) S {
	v, ok := new(big.Int).SetString(h, 16)
	if !ok {
		panic("SHex")
	}
	return mkS(v)
}

// SBytes is the big-endian integer of b reduced modulo the group order
func SBytes(b []byte) S   { return mkS(new(big.Int).SetBytes(b)) }
func (a S) Add(b S) S     { return mkS(new(big.Int).Add(a.g(), b.g())) }
func (a S) Sub(b S) S     { return mkS(new(big.Int).Sub(a.g(), b.g())) }
func (a S) Mul(b S) S     { return mkS(new(big.Int).Mul(a.g(), b.g())) }
func (a S) Neg() S        { return mkS(new(big.Int).Neg(a.g())) }
func (a S) Eq(b S) bool   { return a.g().Cmp(b.g()) == 0 }
func (a S) IsZero() bool  { return a.g().Sign() == 0 }
func (a S) Bytes() []byte { return a.g().FillBytes(make([]byte, 32)) }
func (a S) Inv() S {
	if a.IsZero() {
		return a
	}
	return S{new(big.Int).ModInverse(a.g(), q)}
}

// ---- base field ----

type F struct{ v *big.Int }

func mkF(v *big.Int) F { return F{new(big.Int).Mod(v, p)} }
func (a F) g() *big.Int {
	if a.v == nil {
		return new(big.Int)
	}
	return a.v
}
func NewF(name string) F  { return mkF(input(name, "F", genFF(p))) }
func FInt(v uint64) F     { return mkF(new(big.Int).SetUint64(v)) }
func FHex(h string) F     { v, _ := new(big.Int).SetString(h, 16); return mkF(v) }
func FBytes(b []byte) F   { return mkF(new(big.Int).SetBytes(b)) }
func (a F) Add(b F) F     { return mkF(new(big.Int).Add(a.g(), b.g())) }
func (a F) Sub(b F) F     { return mkF(new(big.Int).Sub(a.g(), b.g())) }
func (a F) Mul(b F) F     { return mkF(new(big.Int).Mul(a.g(), b.g())) }
func (a F) Neg() F        { return mkF(new(big.Int).Neg(a.g())) }
func (a F) Eq(b F) bool   { return a.g().Cmp(b.g()) == 0 }
func (a F) IsZero() bool  { return a.g().Sign() == 0 }
func (a F) Bytes() []byte { return a.g().FillBytes(make([]byte, 32)) }
func (a F) Inv() F {
	if a.IsZero() {
		return a
	}
	return F{new(big.Int).ModInverse(a.g(), p)}
}
func (a F) IsSquare() bool { return a.IsZero() || big.Jacobi(a.g(), p) == 1 }

// ---- points ----

type P struct{ x, y *big.Int }

var gx, _ = new(big.Int).SetString("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16)
var gy, _ = new(big.Int).SetString("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 16)

func G() P   { return P{gx, gy} }
func Inf() P { return P{} }

// NewP is a symbolic group element (natively d*G for the discrete logarithm d in the model)
func NewP(name string) P { return G().Mul(mkS(input(name, "P", genFF(q)))) }
func (a P) IsInf() bool  { return a.x == nil }
func (a P) Neg() P {
	if a.x == nil {
		return a
	}
	return P{a.x, new(big.Int).Mod(new(big.Int).Neg(a.y), p)}
}
func (a P) Sub(b P) P { return a.Add(b.Neg()) }
func (a P) Eq(b P) bool {
	if a.x == nil || b.x == nil {
		return a.x == nil && b.x == nil
	}
	return a.x.Cmp(b.x) == 0 && a.y.Cmp(b.y) == 0
}
func (a P) Add(b P) P {
	if a.x == nil {
		return b
	}
	if b.x == nil {
		return a
	}
	l := new(big.Int)
	if a.x.Cmp(b.x) == 0 {
		s := new(big.Int).Add(a.y, b.y)
		if s.Mod(s, p).Sign() == 0 {
			return P{}
		}
		n := new(big.Int).Mul(a.x, a.x)
		n.Mul(n, big.NewInt(3))
		d := new(big.Int).Lsh(a.y, 1)
		d.Mod(d, p)
		l.Mul(n, d.ModInverse(d, p))
	} else {
		n := new(big.Int).Sub(b.y, a.y)
		d := new(big.Int).Sub(b.x, a.x)
		d.Mod(d, p)
		l.Mul(n, d.ModInverse(d, p))
	}
	l.Mod(l, p)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.x)
	x.Sub(x, b.x)
	x.Mod(x, p)
	y := new(big.Int).Sub(a.x, x)
	y.Mul(y, l)
	y.Sub(y, a.y)
	y.Mod(y, p)
	return P{x, y}
}
func (a P) Mul(k S) P {
	r := P{}
	v := k.g()
	for i := v.BitLen() - 1; i >= 0; i-- {
		r = r.Add(r)
		if v.Bit(i) == 1 {
			r = r.Add(a)
		}
	}
	return r
}

// Compressed is the SEC1 compressed form (33 zero bytes for the identity, the encoding of this code base)
func (a P) Compressed() []byte {
	b := make([]byte, 33)
	if a.x == nil {
		return b
	}
	b[0] = 2 + byte(a.y.Bit(0))
	a.x.FillBytes(b[1:])
	return b
}

// X and Y are the affine coordinates (0,0 for the identity)
func (a P) X() F {
	if a.x == nil {
		return F{}
	}
	return F{a.x}
}
func (a P) Y() F {
	if a.x == nil {
		return F{}
	}
	return F{a.y}
}

// XS is the x coordinate reduced modulo the group order
func (a P) XS() S { return mkS(a.X().g()) }

func OnCurve(x, y F) bool {
	return y.Mul(y).Eq(x.Mul(x).Mul(x).Add(FInt(7)))
}

// ---- conversion to and from the representation of the code under test ----

func findField(v interface{}) *native.Field {
	rv := reflect.ValueOf(v)
	for rv.Kind() == reflect.Ptr {
		if rv.IsNil() {
			panic("vsym: nil value")
		}
		if f, ok := rv.Interface().(*native.Field); ok {
			return f
		}
		rv = rv.Elem()
	}
	c := reflect.New(rv.Type()).Elem()
	c.Set(rv)
	for i := 0; i < c.NumField(); i++ {
		f := c.Field(i)
		if f.Type() == reflect.TypeOf((*native.Field)(nil)) {
			return *(**native.Field)(unsafe.Pointer(f.UnsafeAddr()))
		}
	}
	panic("vsym: no field element")
}
func findPoint(v interface{}) *native.EllipticPoint {
	rv := reflect.ValueOf(v)
	for rv.Kind() == reflect.Ptr {
		if rv.IsNil() {
			panic("vsym: nil value")
		}
		rv = rv.Elem()
	}
	c := reflect.New(rv.Type()).Elem()
	c.Set(rv)
	for i := 0; i < c.NumField(); i++ {
		f := c.Field(i)
		if f.Type() == reflect.TypeOf((*native.EllipticPoint)(nil)) {
			return *(**native.EllipticPoint)(unsafe.Pointer(f.UnsafeAddr()))
		}
	}
	panic("vsym: no point")
}

func MkScalar(s S) curve.EccScalar {
	r := curve.Scalar.Zero(curve.K256)
	findField(r).SetBigInt(s.g())
	return r
}
func SVal(s curve.EccScalar) S { return mkS(findField(s).BigInt()) }

func MkField(s F) curve.EccFieldElement {
	r := curve.Field.Zero(curve.K256)
	findField(r).SetBigInt(s.g())
	return r
}
func FVal(s curve.EccFieldElement) F { return mkF(findField(s).BigInt()) }

func MkPoint(a P) curve.EccPoint {
	r := curve.Point.Identity(curve.K256)
	e := findPoint(r)
	if a.x != nil {
		e.X.SetBigInt(a.x)
		e.Y.SetBigInt(a.y)
		e.Z.SetOne()
	}
	return r
}
func PVal(pt curve.EccPoint) P {
	e := findPoint(pt)
	z := e.Z.BigInt()
	if z.Sign() == 0 {
		return P{}
	}
	z.ModInverse(z, p)
	x := new(big.Int).Mul(e.X.BigInt(), z)
	y := new(big.Int).Mul(e.Y.BigInt(), z)
	return P{x.Mod(x, p), y.Mod(y, p)}
}

// PCoords gives the raw affine coordinates held by a point value (which may be off the curve)
func PCoords(pt curve.EccPoint) (F, F, bool) {
	a := PVal(pt)
	return a.X(), a.Y(), a.x == nil
}

// Scalar and Point are symbolic values of the code under test
func Scalar(name string) curve.EccScalar { return MkScalar(NewS(name)) }
func Point(name string) curve.EccPoint   { return MkPoint(NewP(name)) }

// ---- fields of structures (unexported ones included), by name or, when renamed, by position ----

func fieldOf(ptr interface{}, name string, idx int) reflect.Value {
	rv := reflect.ValueOf(ptr).Elem()
	f := rv.FieldByName(name)
	if !f.IsValid() {
		f = rv.Field(idx)
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

// SetF stores v into a field of *ptr
func SetF(ptr interface{}, name string, idx int, v interface{}) {
	f := fieldOf(ptr, name, idx)
	if v == nil {
		f.Set(reflect.Zero(f.Type()))
		return
	}
	f.Set(reflect.ValueOf(v))
}

// GetF reads a field of *ptr
func GetF(ptr interface{}, name string, idx int) interface{} { return fieldOf(ptr, name, idx).Interface() }
