package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"go/types"
	"hash"
	"math/big"
	"strings"
)

type intrinsic func(p *Path, fr *frame, a []Value) (Value, bool)

var intrinsics = map[string]intrinsic{}

const (
	nat  = "github.com/coinbase/kryptology/pkg/core/curves/native"
	kry  = "github.com/coinbase/kryptology/pkg/core/curves/native/k256"
	repo = "github.com/PlatONnetwork/tecdsa"
)

func reg(name string, f intrinsic) { intrinsics[name] = f }

// ---- field helpers ----

func sfield(v Value) *StructV {
	p, _ := v.(Ptr)
	if p == nil {
		panic(rtPanic("invalid memory address or nil pointer dereference"))
	}
	return (*p).(*StructV)
}

func fieldSort(p *Path, s *StructV) Sort {
	if ar, ok := s.f[2].(Iface); ok && ar.t != nil {
		n := ar.t.String()
		if strings.Contains(n, "k256Fq") {
			return SFQ
		}
		if strings.Contains(n, "k256Fp") {
			return SFP
		}
	}
	panic(rtPanic("invalid memory address or nil pointer dereference (field without arithmetic)"))
}

// fval reads a field element
func fval(p *Path, v Value) *Term {
	s := sfield(v)
	return fvalIn(p, s, Sort{})
}
func fvalIn(p *Path, s *StructV, want Sort) *Term {
	switch x := s.f[0].(type) {
	case *Term:
		return x
	case *ArrayV:
		for _, e := range x.e {
			if e != (Int{64, 0}) {
				panic(unsupported("raw field limbs"))
			}
		}
		st := want
		if ar, ok := s.f[2].(Iface); ok && ar.t != nil {
			st = fieldSort(p, s)
		} else if !st.isFF() {
			panic(unsupported("field element of unknown field"))
		}
		return p.c.FFi(st, 0)
	}
	panic(unsupported(fmt.Sprintf("field value %T", s.f[0])))
}
func fset(v Value, t *Term) { sfield(v).f[0] = t }

func (p *Path) isZeroFF(t *Term) Value {
	c := p.c
	// Z coordinate shape
	if t.op == OIte && t.sort.K == KFP && t.args[1].isC(0) && t.args[2].isC(1) {
		cond := t.args[0]
		if _, k := p.known(cond); !k && p.generic {
			p.assumed["symbolic points are not the point at infinity"]++
			p.assume(c.Not(cond))
			return false
		}
		return norm(cond)
	}
	return norm(c.Eq(t, c.FFi(t.sort, 0)))
}

func b2i(p *Path, v Value) Value { // bool -> int 1/0
	switch x := v.(type) {
	case bool:
		if x {
			return i64(1)
		}
		return i64(0)
	case *Term:
		return norm(p.c.Ite(x, p.c.BVu(64, 1), p.c.BVu(64, 0)))
	}
	panic("b2i")
}

func (p *Path) bytesLE(t *Term) []Value { // little-endian 32 bytes of FF term
	bv := p.c.F2B(t)
	out := make([]Value, 32)
	for i := 0; i < 32; i++ {
		out[i] = norm(p.c.Extract(bv, 8*i+7, 8*i))
	}
	return out
}

func revVals(b []Value) []Value {
	out := make([]Value, len(b))
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	return out
}

func arrOf(v Value) *ArrayV {
	p, _ := v.(Ptr)
	if p == nil {
		panic(rtPanic("invalid memory address or nil pointer dereference"))
	}
	return (*p).(*ArrayV)
}

func errVal(p *Path, msg string) Iface {
	// a fmt-style error: use errors.errorString
	return p.eng.mkError(msg)
}

func concreteBytes(b []Value) ([]byte, bool) {
	out := make([]byte, len(b))
	for i, x := range b {
		c, ok := x.(Int)
		if !ok {
			return nil, false
		}
		out[i] = byte(c.V)
	}
	return out, true
}
func bytesVals(b []byte) []Value {
	out := make([]Value, len(b))
	for i, x := range b {
		out[i] = Int{8, uint64(x)}
	}
	return out
}
func mkSlice(b []Value) SliceV {
	return SliceV{arr: &ArrayV{e: b}, n: len(b), cap: len(b)}
}

// ---- big.Int ----

func bigOf(p *Path, v Value) BigV {
	s := sfield(v)
	if b, ok := s.f[1].(BigV); ok {
		return b
	}
	return BigV{c: new(big.Int)}
}
func bigSet(v Value, b BigV) Value {
	if b.t != nil && b.t.isConst() {
		b = BigV{c: new(big.Int).Set(b.t.c)}
	}
	s := sfield(v)
	s.f[1] = b
	s.f[0] = b.c != nil && b.c.Sign() < 0
	return v
}
func (p *Path) newBig(b BigV) Value {
	s := new(Value)
	*s = &StructV{f: []Value{false, SliceV{}}}
	bigSet(Ptr(s), b)
	return Ptr(s)
}
func (p *Path) bigTerm(b BigV, w int) *Term {
	if b.t != nil {
		if b.t.sort.W > w {
			panic(unsupported("big width"))
		}
		return p.c.Zext(b.t, w)
	}
	if b.c.Sign() < 0 || b.c.BitLen() > w {
		panic(unsupported("big sign/width"))
	}
	return p.c.BV(w, b.c)
}
func bigW(b BigV) int {
	if b.t != nil {
		return b.t.sort.W
	}
	return b.c.BitLen()
}

func bigBin(f func(z, x, y *big.Int), sym func(p *Path, x, y BigV) *Term) intrinsic {
	return func(p *Path, fr *frame, a []Value) (Value, bool) {
		x, y := bigOf(p, a[1]), bigOf(p, a[2])
		if x.c != nil && y.c != nil {
			z := new(big.Int)
			func() {
				defer func() {
					if r := recover(); r != nil {
						panic(targetPanic{v: Iface{types.Typ[types.String], fmt.Sprint(r)}})
					}
				}()
				f(z, x.c, y.c)
			}()
			return bigSet(a[0], BigV{c: z}), true
		}
		if sym == nil {
			panic(unsupported("symbolic big.Int operation"))
		}
		return bigSet(a[0], BigV{t: sym(p, x, y)}), true
	}
}

// ---- hashing ----

type hashObj struct {
	alg     string // sha256, sha512
	size    int
	blk     int
	buf     []Value
	key     []Value // hmac
	mac     bool
	hmacBuf []Value
}

func (h *hashObj) sum(p *Path) []Value {
	if cb, ok := concreteBytes(h.buf); ok {
		if !h.mac {
			var s []byte
			if h.alg == "sha256" {
				x := sha256.Sum256(cb)
				s = x[:]
			} else {
				x := sha512.Sum512(cb)
				s = x[:]
			}
			p.c.noteHash(h.alg, cb, s)
			return bytesVals(s)
		}
		if kb, ok := concreteBytes(h.key); ok {
			var m hash.Hash
			if h.alg == "sha256" {
				m = hmac.New(sha256.New, kb)
			} else {
				m = hmac.New(sha512.New, kb)
			}
			m.Write(cb)
			s := m.Sum(nil)
			p.c.noteHash(fmt.Sprintf("hmac-%s-%d", h.alg, len(h.key)), append(append([]byte{}, kb...), cb...), s)
			return bytesVals(s)
		}
	}
	name := h.alg
	in := h.buf
	if h.mac {
		name = fmt.Sprintf("hmac-%s-%d", h.alg, len(h.key))
		in = append(append([]Value{}, h.key...), h.buf...)
	}
	if len(in) == 0 {
		panic(unsupported("hash of nothing"))
	}
	t := p.c.Hash(name, p.catBytes(in), h.size*8)
	out := make([]Value, h.size)
	for i := range out {
		hi := h.size*8 - 1 - 8*i
		out[i] = norm(p.c.Extract(t, hi, hi-7))
	}
	return out
}

func (h *hashObj) call(p *Path, fr *frame, m string, a []Value) Value {
	switch m {
	case "Write":
		s := p.settle(a[0].(SliceV))
		h.buf = append(append([]Value{}, h.buf...), s.vals()...)
		return TupleV{i64(s.n), Iface{}}
	case "Sum":
		var pre []Value
		if s, ok := a[0].(SliceV); ok && s.arr != nil {
			pre = p.settle(s).vals()
		}
		return mkSlice(append(append([]Value{}, pre...), h.sum(p)...))
	case "Reset":
		h.buf = nil
		return nil
	case "Size":
		return i64(h.size)
	case "BlockSize":
		return i64(h.blk)
	}
	panic(unsupported("hash method " + m))
}

func newHash(alg string) *hashObj {
	if alg == "sha256" {
		return &hashObj{alg: alg, size: 32, blk: 64}
	}
	return &hashObj{alg: alg, size: 64, blk: 128}
}

var natType types.Type = types.NewNamed(types.NewTypeName(0, nil, "nativeHash", nil), types.NewStruct(nil, nil), nil)

// ---- chacha ----

type chachaObj struct {
	key   []Value
	nonce []Value
	pos   int
	cache map[int][]Value
}

func (o *chachaObj) call(p *Path, fr *frame, m string, a []Value) Value {
	panic(unsupported("chacha method " + m))
}

func (o *chachaObj) byteAt(p *Path, i int) Value {
	b := i / 64
	if o.cache == nil {
		o.cache = map[int][]Value{}
	}
	if blk, ok := o.cache[b]; ok {
		return blk[i%64]
	}
	var vals []Value
	if kb, ok := concreteBytes(o.key); ok {
		nb, _ := concreteBytes(o.nonce)
		x := chachaBlock(kb, nb, uint32(b))
		vals = bytesVals(x[:])
	} else {
		nb, ok := concreteBytes(o.nonce)
		if !ok {
			panic(unsupported("symbolic nonce"))
		}
		name := "chacha20"
		for _, x := range nb {
			if x != 0 {
				name = "chacha20-" + hex.EncodeToString(nb)
			}
		}
		t := p.c.KS(name, p.catBytes(o.key), b)
		vals = make([]Value, 64)
		for j := range vals {
			hi := 511 - 8*j
			vals[j] = norm(p.c.Extract(t, hi, hi-7))
		}
	}
	o.cache[b] = vals
	return vals[i%64]
}

// isKSword: a 256-bit word read straight from a keystream
func isKSword(t *Term) bool {
	return t.op == OExtract && t.args[0].op == OKS && t.sort.W == 256
}

func isKSpieces(t *Term) bool {
	if isKSword(t) {
		return true
	}
	if t.op == OConcat {
		for _, a := range t.args {
			if !(a.op == OExtract && a.args[0].op == OKS || a.op == OKS) {
				return false
			}
		}
		return true
	}
	return false
}

// ---- points ----

// point struct: X,Y,Z,Params,Arithmetic
func ptDL(p *Path, v Value) *Term {
	s := sfield(v)
	x, y, z := fval(p, s.f[0]), fval(p, s.f[1]), fval(p, s.f[2])
	return p.dlOf(x, y, z)
}

func (p *Path) dlOf(x, y, z *Term) *Term {
	c := p.c
	if z.isC(0) {
		return c.FFi(SFQ, 0)
	}
	if x.op == OPX && y.op == OPY {
		d := y.args[0]
		if z.isC(1) || p.isZof(z, d) {
			if x == c.PX(d) || samePM(x.args[0], d) {
				return d
			}
		}
	}
	if d := c.dlMatch(x, y); d != nil && p.isZof(z, d) {
		return d
	}
	if z.op == OIte && x.isConst() && y.isConst() {
		// concrete coordinates of a base combination whose Z is symbolic cannot occur
		if v, ok := p.known(z.args[0]); ok && !v {
			return c.DL(x, y)
		}
	}
	if z.isC(1) {
		if d := c.dlMatch(x, y); d != nil {
			return d
		}
		return c.DL(x, y)
	}
	if z.op == OIte && z.args[1].isC(0) && z.args[2].isC(1) {
		if v, ok := p.known(z.args[0]); ok {
			if v {
				return c.FFi(SFQ, 0)
			}
			return p.dlOf(x, y, z.args[2])
		}
	}
	if z.isConst() {
		zi := c.FInv(z)
		return p.dlOf(c.FMul(x, zi), c.FMul(y, zi), c.FFi(SFP, 1))
	}
	panic(unsupported("projective point with symbolic Z"))
}

// dlMatch rewrites (PX(d), ite(c, PY(d), -PY(d))) to ite(c, d, -d)
func (c *Ctx) dlMatch(x, y *Term) *Term {
	if x.op != OPX {
		return nil
	}
	if y.op == OPY && samePM(x.args[0], y.args[0]) {
		return y.args[0]
	}
	if y.op == FNeg {
		if d := c.dlMatch(x, y.args[0]); d != nil {
			return c.FNeg(d)
		}
		return nil
	}
	if y.op == OIte {
		a := c.dlMatch(x, y.args[1])
		b := c.dlMatch(x, y.args[2])
		if a != nil && b != nil {
			return c.Ite(y.args[0], a, b)
		}
	}
	return nil
}

func (p *Path) zOf(d *Term) *Term {
	c := p.c
	if _, _, ok := c.concretePoint(d); ok {
		if c.canon(d).isC(0) {
			return c.FFi(SFP, 0)
		}
		return c.FFi(SFP, 1)
	}
	e := c.Eq(d, c.FFi(SFQ, 0))
	if v, ok := p.known(e); ok {
		if v {
			return c.FFi(SFP, 0)
		}
		return c.FFi(SFP, 1)
	}
	return c.Ite(e, c.FFi(SFP, 0), c.FFi(SFP, 1))
}
func (p *Path) isZof(z, d *Term) bool {
	if z.isC(1) {
		return true
	}
	if z.op != OIte || !z.args[1].isC(0) || !z.args[2].isC(1) {
		return false
	}
	zero := p.c.FFi(SFQ, 0)
	return z.args[0] == p.c.Eq(d, zero) || z.args[0] == p.c.Eq(p.c.FNeg(d), zero) || z.args[0] == p.c.Eq(p.c.canon(d), zero) || z.args[0] == p.c.Eq(p.c.canon(p.c.FNeg(d)), zero)
}

// ptSetDL writes the coordinates of d into the existing field objects
func ptSetDL(p *Path, v Value, d *Term) {
	s := sfield(v)
	c := p.c
	d = c.canon(d)
	fset(s.f[0], c.PX(d))
	fset(s.f[1], c.PY(d))
	fset(s.f[2], p.zOf(d))
}

func setRoot(c *Ctx, w *Term) (*Term, *Term) { // isSq, root
	// w = PX(d)^3 + 7: the principal root is chi(y)*y
	if d := cubeOf(c, w); d != nil {
		y := c.PY(d)
		chi := c.IsSq(y)
		return c.True(), c.Ite(chi, y, c.FNeg(y))
	}
	return c.IsSq(w), c.SqrtT(w)
}

func cubeOf(c *Ctx, w *Term) *Term {
	pl := c.poly(w)
	if pl == nil || len(pl.m) != 2 {
		return nil
	}
	k, ok := pl.m[""]
	if !ok || k.c.Int64() != 7 || !k.c.IsInt64() {
		return nil
	}
	for key, m := range pl.m {
		if key == "" {
			continue
		}
		if len(m.atoms) == 3 && m.atoms[0] == m.atoms[1] && m.atoms[1] == m.atoms[2] && m.c.Cmp(big1) == 0 {
			t := c.byID[m.atoms[0]]
			if t != nil && t.op == OPX {
				return t.args[0]
			}
		}
	}
	return nil
}

func init() {
	F := "(*" + nat + ".Field)."
	bin := func(name string, f func(p *Path, a, b *Term) *Term) {
		reg(F+name, func(p *Path, fr *frame, a []Value) (Value, bool) {
			sfield(a[0])
			x := fval(p, a[1])
			y := fvalIn(p, sfield(a[2]), x.sort)
			fset(a[0], f(p, x, y))
			return a[0], true
		})
	}
	bin("Add", func(p *Path, x, y *Term) *Term { return p.c.FAdd(x, y) })
	bin("Sub", func(p *Path, x, y *Term) *Term { return p.c.FSub(x, y) })
	bin("Mul", func(p *Path, x, y *Term) *Term { return p.c.FMul(x, y) })
	un := func(name string, f func(p *Path, a *Term) *Term) {
		reg(F+name, func(p *Path, fr *frame, a []Value) (Value, bool) {
			sfield(a[0])
			fset(a[0], f(p, fval(p, a[1])))
			return a[0], true
		})
	}
	un("Double", func(p *Path, x *Term) *Term { return p.c.FAdd(x, x) })
	un("Square", func(p *Path, x *Term) *Term { return p.c.FMul(x, x) })
	un("Neg", func(p *Path, x *Term) *Term { return p.c.FNeg(x) })
	reg(F+"Set", func(p *Path, fr *frame, a []Value) (Value, bool) {
		d, s := sfield(a[0]), sfield(a[1])
		d.f[0] = copyVal(s.f[0])
		d.f[1], d.f[2] = s.f[1], s.f[2]
		return a[0], true
	})
	reg(F+"SetZero", func(p *Path, fr *frame, a []Value) (Value, bool) {
		s := sfield(a[0])
		if ar, ok := s.f[2].(Iface); ok && ar.t != nil {
			fset(a[0], p.c.FFi(fieldSort(p, s), 0))
		} else if t, ok := s.f[0].(*Term); ok {
			fset(a[0], p.c.FFi(t.sort, 0))
		}
		return a[0], true
	})
	reg(F+"SetOne", func(p *Path, fr *frame, a []Value) (Value, bool) {
		fset(a[0], p.c.FFi(fieldSort(p, sfield(a[0])), 1))
		return a[0], true
	})
	reg(F+"SetUint64", func(p *Path, fr *frame, a []Value) (Value, bool) {
		fset(a[0], p.c.B2F(fieldSort(p, sfield(a[0])), p.term(a[1])))
		return a[0], true
	})
	reg(F+"SetLimbs", func(p *Path, fr *frame, a []Value) (Value, bool) {
		ar := arrOf(a[1])
		fset(a[0], p.c.B2F(fieldSort(p, sfield(a[0])), p.catBytes(revVals(ar.e))))
		return a[0], true
	})
	reg(F+"SetBytes", func(p *Path, fr *frame, a []Value) (Value, bool) {
		s := fieldSort(p, sfield(a[0]))
		u := p.catBytes(revVals(arrOf(a[1]).e))
		m := p.c.BV(256, s.mod())
		ok := p.c.Ult(u, m)
		if _, k := p.known(ok); !k && !p.rngFull && isKSpieces(u) {
			p.assumed["keystream words drawn for scalars are below the group order (first draw accepted)"]++
			p.assume(ok)
		}
		if p.boolOf(norm(ok)) {
			fset(a[0], p.c.B2F(s, u))
			return TupleV{a[0], Iface{}}, true
		}
		return TupleV{Ptr(nil), errVal(p, "invalid byte sequence")}, true
	})
	reg(F+"SetBytesWide", func(p *Path, fr *frame, a []Value) (Value, bool) {
		u := p.catBytes(revVals(arrOf(a[1]).e))
		fset(a[0], p.c.B2F(fieldSort(p, sfield(a[0])), u))
		return a[0], true
	})
	reg(F+"SetBigInt", func(p *Path, fr *frame, a []Value) (Value, bool) {
		s := fieldSort(p, sfield(a[0]))
		if a[1].(Ptr) == nil {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		b := bigOf(p, a[1])
		if b.c != nil {
			fset(a[0], p.c.FF(s, b.c))
		} else {
			fset(a[0], p.c.B2F(s, b.t))
		}
		return a[0], true
	})
	reg(F+"Bytes", func(p *Path, fr *frame, a []Value) (Value, bool) {
		return &ArrayV{e: p.bytesLE(fval(p, a[0]))}, true
	})
	reg(F+"BigInt", func(p *Path, fr *frame, a []Value) (Value, bool) {
		return p.newBig(BigV{t: p.c.F2B(fval(p, a[0]))}), true
	})
	reg(F+"Equal", func(p *Path, fr *frame, a []Value) (Value, bool) {
		x := fval(p, a[0])
		y := fvalIn(p, sfield(a[1]), x.sort)
		return b2i(p, norm(p.c.Eq(x, y))), true
	})
	reg(F+"IsZero", func(p *Path, fr *frame, a []Value) (Value, bool) {
		s := sfield(a[0])
		if _, ok := s.f[0].(*ArrayV); ok {
			return i64(1), true
		}
		return b2i(p, p.isZeroFF(fval(p, a[0]))), true
	})
	reg(F+"IsNonZero", func(p *Path, fr *frame, a []Value) (Value, bool) {
		return b2i(p, norm(p.c.Not(p.term(p.isZeroFF(fval(p, a[0])))))), true
	})
	reg(F+"IsOne", func(p *Path, fr *frame, a []Value) (Value, bool) {
		x := fval(p, a[0])
		return b2i(p, norm(p.c.Eq(x, p.c.FFi(x.sort, 1)))), true
	})
	reg(F+"Cmp", func(p *Path, fr *frame, a []Value) (Value, bool) {
		// compares Montgomery representations
		x := fval(p, a[0])
		y := fvalIn(p, sfield(a[1]), x.sort)
		r := new(big.Int).Lsh(big1, 256)
		rt := p.c.FF(x.sort, r)
		u, v := p.c.F2B(p.c.FMul(x, rt)), p.c.F2B(p.c.FMul(y, rt))
		one, mone := p.c.BVu(64, 1), p.c.BV(64, big.NewInt(-1))
		return norm(p.c.Ite(p.c.Ult(u, v), mone, p.c.Ite(p.c.Eq(u, v), p.c.BVu(64, 0), one))), true
	})
	reg(F+"Sqrt", func(p *Path, fr *frame, a []Value) (Value, bool) {
		w := fval(p, a[1])
		if w.sort != SFP {
			panic(unsupported("scalar field sqrt"))
		}
		sq, root := setRoot(p.c, w)
		if root.op == OIte {
			if p.boolOf(norm(root.args[0])) {
				root = root.args[1]
			} else {
				root = root.args[2]
			}
		}
		if sq.isConst() {
			if sq.isTrue() {
				fset(a[0], root)
			}
			return TupleV{a[0], sq.isTrue()}, true
		}
		// receiver keeps its old value for non squares
		if p.boolOf(norm(sq)) {
			fset(a[0], root)
			return TupleV{a[0], true}, true
		}
		return TupleV{a[0], false}, true
	})
	reg(F+"Invert", func(p *Path, fr *frame, a []Value) (Value, bool) {
		x := fval(p, a[1])
		old := fvalIn(p, sfield(a[0]), x.sort)
		z := p.c.Eq(x, p.c.FFi(x.sort, 0))
		if v, k := p.known(z); k {
			if v {
				return TupleV{a[0], false}, true
			}
			fset(a[0], p.c.FInv(x))
			return TupleV{a[0], true}, true
		}
		// receiver keeps its value when the argument is zero
		if old.isC(0) || old == x {
			fset(a[0], p.c.FInv(x)) // inv(0) is 0 = old value
		} else {
			fset(a[0], p.c.Ite(z, old, p.c.FInv(x)))
		}
		return TupleV{a[0], norm(p.c.Not(z))}, true
	})
	reg(F+"Exp", func(p *Path, fr *frame, a []Value) (Value, bool) {
		b, e := fval(p, a[1]), fval(p, a[2])
		if !e.isConst() {
			panic(unsupported("symbolic exponent"))
		}
		fset(a[0], p.c.Pow(b, e.c))
		return a[0], true
	})
	reg(F+"CMove", func(p *Path, fr *frame, a []Value) (Value, bool) {
		x := fval(p, a[1])
		y := fvalIn(p, sfield(a[2]), x.sort)
		switch ch := a[3].(type) {
		case Int:
			if ch.V == 0 {
				fset(a[0], x)
			} else if ch.V == 1 {
				fset(a[0], y)
			} else {
				panic(unsupported("cmove choice"))
			}
		case *Term:
			fset(a[0], p.c.Ite(p.c.Eq(ch, p.c.BVu(64, 0)), x, y))
		}
		return a[0], true
	})
	for _, n := range []string{"Raw", "SetRaw"} {
		n := n
		reg(F+n, func(p *Path, fr *frame, a []Value) (Value, bool) { panic(unsupported("Field." + n)) })
	}

	// curve arithmetic
	A := "(" + kry + ".k256PointArithmetic)."
	addI := func(p *Path, fr *frame, a []Value) (Value, bool) {
		d := p.c.FAdd(ptDL(p, a[2]), ptDL(p, a[3]))
		ptSetDL(p, a[1], d)
		return nil, true
	}
	dblI := func(p *Path, fr *frame, a []Value) (Value, bool) {
		x := ptDL(p, a[2])
		ptSetDL(p, a[1], p.c.FAdd(x, x))
		return nil, true
	}
	affI := func(p *Path, fr *frame, a []Value) (Value, bool) {
		// (X:Y:Z) -> (X/Z : Y/Z : 1); infinity gives zeros
		s := sfield(a[2])
		x, y, z := fval(p, s.f[0]), fval(p, s.f[1]), fval(p, s.f[2])
		o := sfield(a[1])
		if z.isC(1) {
			fset(o.f[0], x)
			fset(o.f[1], y)
			fset(o.f[2], z)
		} else {
			d := p.dlOf(x, y, z)
			ptSetDL(p, a[1], d)
		}
		o.f[3], o.f[4] = s.f[3], s.f[4]
		return nil, true
	}
	for _, pre := range []string{A, "(*" + kry + ".k256PointArithmetic)."} {
		reg(pre+"Add", addI)
		reg(pre+"Double", dblI)
		reg(pre+"ToAffine", affI)
		reg(pre+"Hash", func(p *Path, fr *frame, a []Value) (Value, bool) { panic(unsupported("native hash to curve")) })
	}
	P := "(*" + nat + ".EllipticPoint)."
	fresh := func(p *Path, dst, src Value) {
		// Set semantics: fresh field objects
		d, s := sfield(dst), sfield(src)
		for i := 0; i < 3; i++ {
			n := new(Value)
			*n = copyVal(Value(sfield(s.f[i])))
			d.f[i] = Ptr(n)
		}
		d.f[3], d.f[4] = s.f[3], s.f[4]
	}
	reg(P+"Mul", func(p *Path, fr *frame, a []Value) (Value, bool) {
		d := p.c.FMul(ptDL(p, a[1]), fval(p, a[2]))
		recv := sfield(a[0])
		// p.Identity() zeroes the old fields in place, then every Add/Double makes fresh ones
		for i := 0; i < 3; i++ {
			fset(recv.f[i], p.c.FFi(SFP, 0))
		}
		fresh(p, a[0], a[0])
		ptSetDL(p, a[0], d)
		return a[0], true
	})
	reg(P+"SumOfProducts", func(p *Path, fr *frame, a []Value) (Value, bool) {
		ps, ss := a[1].(SliceV), a[2].(SliceV)
		if ps.n != ss.n {
			return TupleV{Ptr(nil), errVal(p, "length mismatch")}, true
		}
		d := p.c.FFi(SFQ, 0)
		for i := 0; i < ps.n; i++ {
			d = p.c.FAdd(d, p.c.FMul(ptDL(p, ps.vals()[i]), fval(p, ss.vals()[i])))
		}
		recv := sfield(a[0])
		for i := 0; i < 3; i++ {
			fset(recv.f[i], p.c.FFi(SFP, 0))
		}
		fresh(p, a[0], a[0])
		ptSetDL(p, a[0], d)
		return TupleV{a[0], Iface{}}, true
	})
	reg(P+"Equal", func(p *Path, fr *frame, a []Value) (Value, bool) {
		return b2i(p, norm(p.c.Eq(ptDL(p, a[0]), ptDL(p, a[1])))), true
	})
	for _, n := range []string{"Random", "Hash"} {
		n := n
		reg(P+n, func(p *Path, fr *frame, a []Value) (Value, bool) { panic(unsupported("EllipticPoint." + n)) })
	}

	// ---- math/big ----
	B := "(*math/big.Int)."
	reg("math/big.NewInt", func(p *Path, fr *frame, a []Value) (Value, bool) {
		switch x := a[0].(type) {
		case Int:
			return p.newBig(BigV{c: big.NewInt(x.signed())}), true
		}
		panic(unsupported("big.NewInt symbolic"))
	})
	reg(B+"SetBytes", func(p *Path, fr *frame, a []Value) (Value, bool) {
		s := a[1].(SliceV)
		if s.soff != nil {
			s = p.settle(s)
		}
		if cb, ok := concreteBytes(s.vals()); ok {
			return bigSet(a[0], BigV{c: new(big.Int).SetBytes(cb)}), true
		}
		return bigSet(a[0], BigV{t: p.catBytes(s.vals())}), true
	})
	reg(B+"SetString", func(p *Path, fr *frame, a []Value) (Value, bool) {
		s, ok := a[1].(string)
		if !ok {
			panic(unsupported("big.SetString symbolic"))
		}
		v, good := new(big.Int).SetString(s, p.intOf(a[2]))
		if !good {
			return TupleV{Ptr(nil), false}, true
		}
		bigSet(a[0], BigV{c: v})
		return TupleV{a[0], true}, true
	})
	reg(B+"Set", func(p *Path, fr *frame, a []Value) (Value, bool) { return bigSet(a[0], bigOf(p, a[1])), true })
	reg(B+"SetInt64", func(p *Path, fr *frame, a []Value) (Value, bool) {
		return bigSet(a[0], BigV{c: big.NewInt(a[1].(Int).signed())}), true
	})
	reg(B+"SetUint64", func(p *Path, fr *frame, a []Value) (Value, bool) {
		if t, ok := a[1].(*Term); ok {
			return bigSet(a[0], BigV{t: t}), true
		}
		return bigSet(a[0], BigV{c: new(big.Int).SetUint64(a[1].(Int).V)}), true
	})
	reg(B+"Add", bigBin(func(z, x, y *big.Int) { z.Add(x, y) }, func(p *Path, x, y BigV) *Term {
		w := bigW(x)
		if bigW(y) > w {
			w = bigW(y)
		}
		w++
		w = (w + 7) / 8 * 8
		return p.c.BVAdd(p.bigTerm(x, w), p.bigTerm(y, w))
	}))
	reg(B+"Sub", bigBin(func(z, x, y *big.Int) { z.Sub(x, y) }, func(p *Path, x, y BigV) *Term {
		w := bigW(x)
		if bigW(y) > w {
			w = bigW(y)
		}
		w = (w + 7) / 8 * 8
		u, v := p.bigTerm(x, w), p.bigTerm(y, w)
		if !p.decide(p.c.Ule(v, u)) {
			panic(unsupported("negative symbolic big.Int"))
		}
		return p.c.BVSub(u, v)
	}))
	mod := bigBin(func(z, x, y *big.Int) { z.Mod(x, y) }, func(p *Path, x, y BigV) *Term {
		if y.c != nil && x.t != nil {
			if _, h := rng(x.t); h.Cmp(y.c) < 0 {
				return x.t
			}
			if y.c.Cmp(modQ) == 0 {
				return p.c.F2B(p.c.B2F(SFQ, x.t))
			}
			if y.c.Cmp(modP) == 0 {
				return p.c.F2B(p.c.B2F(SFP, x.t))
			}
			if x.t.sort.W >= y.c.BitLen() {
				return p.c.divrem(OBUrem, x.t, p.c.BV(x.t.sort.W, y.c))
			}
		}
		panic(unsupported("big.Mod"))
	})
	reg(B+"Mod", mod)
	reg(B+"Rem", mod)
	div := bigBin(func(z, x, y *big.Int) { z.Div(x, y) }, func(p *Path, x, y BigV) *Term {
		if y.c != nil && x.t != nil && y.c.Sign() > 0 && y.c.BitLen() <= x.t.sort.W {
			return p.c.divrem(OBUdiv, x.t, p.c.BV(x.t.sort.W, y.c))
		}
		panic(unsupported("big.Div"))
	})
	reg(B+"Div", div)
	reg(B+"Quo", div)
	reg(B+"Mul", bigBin(func(z, x, y *big.Int) { z.Mul(x, y) }, nil))
	reg(B+"Rsh", func(p *Path, fr *frame, a []Value) (Value, bool) {
		x := bigOf(p, a[1])
		k := p.intOf(a[2])
		if x.c != nil {
			return bigSet(a[0], BigV{c: new(big.Int).Rsh(x.c, uint(k))}), true
		}
		return bigSet(a[0], BigV{t: p.c.Lshr(x.t, p.c.BVu(x.t.sort.W, uint64(k)))}), true
	})
	reg(B+"Lsh", func(p *Path, fr *frame, a []Value) (Value, bool) {
		x := bigOf(p, a[1])
		k := p.intOf(a[2])
		if x.c != nil {
			return bigSet(a[0], BigV{c: new(big.Int).Lsh(x.c, uint(k))}), true
		}
		return bigSet(a[0], BigV{t: p.c.Concat(x.t, p.c.BVu(k, 0))}), true
	})
	reg(B+"Sign", func(p *Path, fr *frame, a []Value) (Value, bool) {
		x := bigOf(p, a[0])
		if x.c != nil {
			return mk(64, uint64(int64(x.c.Sign()))), true
		}
		return norm(p.c.Ite(p.c.Eq(x.t, p.c.BVu(x.t.sort.W, 0)), p.c.BVu(64, 0), p.c.BVu(64, 1))), true
	})
	reg(B+"Cmp", func(p *Path, fr *frame, a []Value) (Value, bool) {
		x, y := bigOf(p, a[0]), bigOf(p, a[1])
		if x.c != nil && y.c != nil {
			return mk(64, uint64(int64(x.c.Cmp(y.c)))), true
		}
		w := bigW(x)
		if bigW(y) > w {
			w = bigW(y)
		}
		u, v := p.bigTerm(x, w), p.bigTerm(y, w)
		return norm(p.c.Ite(p.c.Ult(u, v), p.c.BV(64, big.NewInt(-1)), p.c.Ite(p.c.Eq(u, v), p.c.BVu(64, 0), p.c.BVu(64, 1)))), true
	})
	reg(B+"Bit", func(p *Path, fr *frame, a []Value) (Value, bool) {
		x := bigOf(p, a[0])
		k := p.intOf(a[1])
		if x.c != nil {
			return mk(64, uint64(x.c.Bit(k))), true
		}
		if k >= x.t.sort.W {
			return mk(64, 0), true
		}
		return norm(p.c.Zext(p.c.Extract(x.t, k, k), 64)), true
	})
	reg(B+"BitLen", func(p *Path, fr *frame, a []Value) (Value, bool) {
		x := bigOf(p, a[0])
		if x.c != nil {
			return i64(x.c.BitLen()), true
		}
		r := p.c.BVu(64, 0)
		for i := 0; i < x.t.sort.W; i++ {
			r = p.c.Ite(p.c.Eq(p.c.Extract(x.t, i, i), p.c.BVu(1, 1)), p.c.BVu(64, uint64(i+1)), r)
		}
		return norm(r), true
	})
	reg(B+"Uint64", func(p *Path, fr *frame, a []Value) (Value, bool) {
		x := bigOf(p, a[0])
		if x.c != nil {
			return mk(64, x.c.Uint64()), true
		}
		return norm(p.c.Zext(x.t, 64)), true
	})
	reg(B+"Bytes", func(p *Path, fr *frame, a []Value) (Value, bool) {
		x := bigOf(p, a[0])
		if x.c != nil {
			b := x.c.Bytes()
			return mkSlice(bytesVals(b)), true
		}
		w := (x.t.sort.W + 7) / 8 * 8
		t := p.c.Zext(x.t, w)
		n := w / 8
		out := make([]Value, n)
		for i := range out {
			hi := w - 1 - 8*i
			out[i] = norm(p.c.Extract(t, hi, hi-7))
		}
		s := mkSlice(out)
		s.soff = p.c.LZ(t)
		return s, true
	})
	reg(B+"FillBytes", func(p *Path, fr *frame, a []Value) (Value, bool) {
		x := bigOf(p, a[0])
		s := p.settle(a[1].(SliceV))
		w := s.n * 8
		if x.c != nil && x.c.BitLen() > w {
			panic(targetPanic{v: Iface{types.Typ[types.String], "math/big: buffer too small to fit value"}})
		}
		if x.t != nil && x.t.sort.W > w {
			if p.decide(p.c.Eq(p.c.Extract(x.t, x.t.sort.W-1, w), p.c.BVu(x.t.sort.W-w, 0))) {
				x = BigV{t: p.c.Extract(x.t, w-1, 0)}
			} else {
				panic(targetPanic{v: Iface{types.Typ[types.String], "math/big: buffer too small to fit value"}})
			}
		}
		if w == 0 {
			return s, true
		}
		t := p.bigTerm(x, w)
		for i := 0; i < s.n; i++ {
			hi := w - 1 - 8*i
			s.arr.e[s.off+i] = norm(p.c.Extract(t, hi, hi-7))
		}
		return s, true
	})

	// ---- hashes ----
	reg("crypto/sha256.New", func(p *Path, fr *frame, a []Value) (Value, bool) {
		return Iface{natType, newHash("sha256")}, true
	})
	reg("crypto/sha512.New", func(p *Path, fr *frame, a []Value) (Value, bool) {
		return Iface{natType, newHash("sha512")}, true
	})
	reg("crypto/sha256.Sum256", func(p *Path, fr *frame, a []Value) (Value, bool) {
		h := newHash("sha256")
		h.buf = p.settle(a[0].(SliceV)).vals()
		return &ArrayV{e: h.sum(p)}, true
	})
	reg("crypto/sha512.Sum512", func(p *Path, fr *frame, a []Value) (Value, bool) {
		h := newHash("sha512")
		h.buf = p.settle(a[0].(SliceV)).vals()
		return &ArrayV{e: h.sum(p)}, true
	})
	reg("crypto.RegisterHash", func(p *Path, fr *frame, a []Value) (Value, bool) {
		p.aux[fmt.Sprintf("hash%d", p.intOf(a[0]))] = a[1]
		return nil, true
	})
	reg("(crypto.Hash).New", func(p *Path, fr *frame, a []Value) (Value, bool) {
		if f, ok := p.aux[fmt.Sprintf("hash%d", p.intOf(a[0]))]; ok {
			return p.callValue(fr, f, nil), true
		}
		switch p.intOf(a[0]) {
		case 5:
			return Iface{natType, newHash("sha256")}, true
		case 7:
			return Iface{natType, newHash("sha512")}, true
		}
		panic(unsupported("crypto.Hash.New"))
	})
	reg("crypto/hmac.New", func(p *Path, fr *frame, a []Value) (Value, bool) {
		h, ok := p.callValue(fr, a[0], nil).(Iface).v.(*hashObj)
		if !ok {
			for _, pk := range p.eng.prog.AllPackages() {
				if strings.HasSuffix(pk.Pkg.Path(), "zz_verif/hstub") {
					return p.call(fr, pk.Func("NewHMAC"), a, nil), true
				}
			}
			panic(unsupported("hmac over an unknown hash"))
		}
		key := p.settle(a[1].(SliceV)).vals()
		m := newHash(h.alg)
		m.mac = true
		m.key = append([]Value{}, key...)
		if len(key) > m.blk {
			k := newHash(h.alg)
			k.buf = key
			m.key = k.sum(p)
		}
		return Iface{natType, m}, true
	})
	reg("crypto/hmac.Equal", func(p *Path, fr *frame, a []Value) (Value, bool) {
		return p.bytesEq(p.settle(a[0].(SliceV)).vals(), p.settle(a[1].(SliceV)).vals()), true
	})
	reg("crypto/subtle.ConstantTimeCompare", func(p *Path, fr *frame, a []Value) (Value, bool) {
		return b2i(p, p.bytesEq(p.settle(a[0].(SliceV)).vals(), p.settle(a[1].(SliceV)).vals())), true
	})

	// ---- chacha ----
	reg("golang.org/x/crypto/chacha20.NewUnauthenticatedCipher", func(p *Path, fr *frame, a []Value) (Value, bool) {
		k, n := p.settle(a[0].(SliceV)), p.settle(a[1].(SliceV))
		if k.n != 32 {
			return TupleV{Ptr(nil), errVal(p, "chacha20: wrong key size")}, true
		}
		if n.n != 12 {
			if n.n != 24 {
				return TupleV{Ptr(nil), errVal(p, "chacha20: wrong nonce size")}, true
			}
			panic(unsupported("xchacha"))
		}
		s := new(Value)
		*s = &chachaObj{key: append([]Value{}, k.vals()...), nonce: append([]Value{}, n.vals()...)}
		return TupleV{Ptr(s), Iface{}}, true
	})
	reg("(*golang.org/x/crypto/chacha20.Cipher).XORKeyStream", func(p *Path, fr *frame, a []Value) (Value, bool) {
		sp, _ := a[0].(Ptr)
		if sp == nil {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		o := (*sp).(*chachaObj)
		d, s := p.settle(a[1].(SliceV)), p.settle(a[2].(SliceV))
		if s.n == 0 {
			return nil, true
		}
		if d.n < s.n {
			panic(targetPanic{v: Iface{types.Typ[types.String], "chacha20: output smaller than input"}})
		}
		for i := 0; i < s.n; i++ {
			k := o.byteAt(p, o.pos)
			o.pos++
			sv := s.arr.e[s.off+i]
			var r Value
			if ki, ok := k.(Int); ok {
				if si, ok := sv.(Int); ok {
					r = mk(8, ki.V^si.V)
				}
			}
			if r == nil {
				r = norm(p.c.bitwise(OBXor, p.term(k), p.term(sv)))
			}
			d.arr.e[d.off+i] = r
		}
		return nil, true
	})
	reg("(*golang.org/x/crypto/chacha20.Cipher).SetCounter", func(p *Path, fr *frame, a []Value) (Value, bool) {
		o := (*(a[0].(Ptr))).(*chachaObj)
		o.pos = p.intOf(a[1]) * 64
		return nil, true
	})

	// ---- small library ----
	reg("bytes.Equal", func(p *Path, fr *frame, a []Value) (Value, bool) {
		return p.bytesEq(p.settle(a[0].(SliceV)).vals(), p.settle(a[1].(SliceV)).vals()), true
	})
	reg("bytes.Compare", func(p *Path, fr *frame, a []Value) (Value, bool) {
		x, y := p.settle(a[0].(SliceV)).vals(), p.settle(a[1].(SliceV)).vals()
		if cx, ok := concreteBytes(x); ok {
			if cy, ok := concreteBytes(y); ok {
				return mk(64, uint64(int64(bytes.Compare(cx, cy)))), true
			}
		}
		eq := p.term(p.bytesEq(x, y))
		lt := p.term(p.bytesLess(x, y))
		return norm(p.c.Ite(eq, p.c.BVu(64, 0), p.c.Ite(lt, p.c.BV(64, big.NewInt(-1)), p.c.BVu(64, 1)))), true
	})
	reg("encoding/hex.DecodeString", func(p *Path, fr *frame, a []Value) (Value, bool) {
		s, ok := a[0].(string)
		if !ok {
			panic(unsupported("hex of symbolic string"))
		}
		b, err := hex.DecodeString(s)
		if err != nil {
			return TupleV{mkSlice(bytesVals(b)), errVal(p, err.Error())}, true
		}
		return TupleV{mkSlice(bytesVals(b)), Iface{}}, true
	})
	reg("encoding/hex.EncodeToString", func(p *Path, fr *frame, a []Value) (Value, bool) {
		s := p.settle(a[0].(SliceV)).vals()
		if cb, ok := concreteBytes(s); ok {
			return hex.EncodeToString(cb), true
		}
		var out []Value
		for _, x := range s {
			t := p.term(x)
			for _, n := range []*Term{p.c.Extract(t, 7, 4), p.c.Extract(t, 3, 0)} {
				z := p.c.Zext(n, 8)
				out = append(out, norm(p.c.Ite(p.c.Ult(z, p.c.BVu(8, 10)), p.c.BVAdd(z, p.c.BVu(8, '0')), p.c.BVAdd(z, p.c.BVu(8, 'a'-10)))))
			}
		}
		return mkStr(out), true
	})
	sprintf := func(p *Path, fr *frame, format string, av Value) string {
		var args []interface{}
		if s, ok := av.(SliceV); ok {
			for _, v := range s.vals() {
				args = append(args, p.hostArg(fr, v.(Iface)))
			}
		}
		return fmt.Sprintf(format, args...)
	}
	reg("fmt.Sprintf", func(p *Path, fr *frame, a []Value) (Value, bool) {
		return p.sprintfVal(fr, a[0], a[1]), true
	})
	reg("fmt.Sprint", func(p *Path, fr *frame, a []Value) (Value, bool) {
		var args []interface{}
		for _, v := range a[0].(SliceV).vals() {
			args = append(args, p.hostArg(fr, v.(Iface)))
		}
		return fmt.Sprint(args...), true
	})
	reg("fmt.Errorf", func(p *Path, fr *frame, a []Value) (Value, bool) {
		return errVal(p, sprintf(p, fr, a[0].(string), a[1])), true
	})
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln"} {
		reg(n, func(p *Path, fr *frame, a []Value) (Value, bool) { return TupleV{i64(0), Iface{}}, true })
	}
	for _, n := range []string{"log.Println", "log.Printf", "log.Print"} {
		reg(n, func(p *Path, fr *frame, a []Value) (Value, bool) { return nil, true })
	}
	// pkg/errors
	pe := "github.com/pkg/errors."
	reg(pe+"New", func(p *Path, fr *frame, a []Value) (Value, bool) {
		s, ok := a[0].(string)
		if !ok {
			s = "?"
		}
		return errVal(p, s), true
	})
	reg(pe+"Errorf", func(p *Path, fr *frame, a []Value) (Value, bool) {
		return errVal(p, sprintf(p, fr, a[0].(string), a[1])), true
	})
	wrap := func(p *Path, fr *frame, a []Value) (Value, bool) {
		if a[0].(Iface).t == nil {
			return Iface{}, true
		}
		return errVal(p, "wrapped"), true
	}
	for _, n := range []string{"Wrap", "Wrapf", "WithMessage", "WithMessagef", "WithStack"} {
		reg(pe+n, wrap)
	}
	// hashing symbolic input to a point: an ideal hash with a uniform discrete logarithm
	// (concrete input runs the real code; the map itself is the subject of C06)
	reg("(github.com/PlatONnetwork/tecdsa/curve.point).HashToPoint", func(p *Path, fr *frame, a []Value) (Value, bool) {
		in, dst := p.bytesOf(a[2]), p.bytesOf(a[3])
		_, ok := concreteBytes(in)
		if db, ok2 := concreteBytes(dst); ok2 && ok || !ok2 || len(db) == 0 || len(in) == 0 || p.noH2P {
			return nil, false
		} else {
			p.c.ideal["hashing to a point is an ideal hash"] = true
			t := p.c.Hash("h2p-"+hex.EncodeToString(db), p.catBytes(in), 384)
			return TupleV{p.mkPoint(fr, p.c.B2F(SFQ, t)), Iface{}}, true
		}
	})
	// contract of MulByNodeIndex, decided by C04: a harness that says so multiplies by the index plus one in one step
	reg("(*"+repo+"/curve.Secp256k1Point).MulByNodeIndex", func(p *Path, fr *frame, a []Value) (Value, bool) {
		i := p.term(a[1])
		if !p.h.contract || i.isConst() {
			return nil, false
		}
		p.c.ideal["MulByNodeIndex multiplies by the index plus one (decided by C04)"] = true
		q := sfield(a[0]).f[0]
		k := p.c.B2F(SFQ, p.c.BVAdd(i, p.c.BVu(64, 1)))
		return p.mkPoint(fr, p.c.FMul(ptDL(p, q), k)), true
	})
	reg("(*sync.Once).Do", func(p *Path, fr *frame, a []Value) (Value, bool) {
		k := a[0].(Ptr)
		if p.once[k] {
			return nil, true
		}
		p.once[k] = true
		p.callValue(fr, a[1], nil)
		return nil, true
	})
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		reg(n, func(p *Path, fr *frame, a []Value) (Value, bool) { return nil, true })
	}
	reg("sync/atomic.AddUint64", func(p *Path, fr *frame, a []Value) (Value, bool) {
		s := a[0].(Ptr)
		v := mk(64, (*s).(Int).V+a[1].(Int).V)
		*s = v
		return v, true
	})
	reg("sync/atomic.LoadInt64", func(p *Path, fr *frame, a []Value) (Value, bool) { return *(a[0].(Ptr)), true })
	reg("sync/atomic.AddInt64", func(p *Path, fr *frame, a []Value) (Value, bool) {
		s := a[0].(Ptr)
		v := mk(64, (*s).(Int).V+a[1].(Int).V)
		*s = v
		return v, true
	})
	for _, d := range []struct {
		n string
		w int
	}{{"64", 64}, {"32", 32}, {"", 64}} {
		d := d
		lenOf := func(p *Path, v Value) *Term {
			t := p.term(v)
			w := t.sort.W
			r := p.c.BVu(64, 0)
			for i := 0; i < w; i++ {
				r = p.c.Ite(p.c.Eq(p.c.Extract(t, i, i), p.c.BVu(1, 1)), p.c.BVu(64, uint64(i+1)), r)
			}
			return r
		}
		reg("math/bits.Len"+d.n, func(p *Path, fr *frame, a []Value) (Value, bool) {
			return norm(lenOf(p, a[0])), true
		})
		reg("math/bits.LeadingZeros"+d.n, func(p *Path, fr *frame, a []Value) (Value, bool) {
			return norm(p.c.BVSub(p.c.BVu(64, uint64(d.w)), lenOf(p, a[0]))), true
		})
	}
}

// hostArg converts a formatting argument; symbolic parts become "?"
func (p *Path) hostArg(fr *frame, v Iface) interface{} {
	if v.t == nil {
		return nil
	}
	switch x := v.v.(type) {
	case Int:
		_, signed, _ := intWidth(v.t)
		if signed {
			return x.signed()
		}
		return x.V
	case string:
		return x
	case bool:
		return x
	}
	return "?"
}

// sprintfVal is exact for concrete arguments; symbolic integers are enumerated
func (p *Path) sprintfVal(fr *frame, f Value, av Value) Value {
	format, ok := f.(string)
	if !ok {
		panic(unsupported("symbolic format"))
	}
	var vals []Value
	if s, ok := av.(SliceV); ok {
		vals = s.vals()
	}
	sym := false
	for _, v := range vals {
		switch v.(Iface).v.(type) {
		case *SymStr:
			sym = true
		}
	}
	if !sym {
		var args []interface{}
		for _, v := range vals {
			iv := v.(Iface)
			if t, ok := iv.v.(*Term); ok {
				u := mk(t.sort.W, p.concretize(t))
				iv.v = u
			}
			args = append(args, p.hostArg(fr, iv))
		}
		return fmt.Sprintf(format, args...)
	}
	// piecewise for symbolic strings
	var out []Value
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			out = append(out, Int{8, uint64(format[i])})
			continue
		}
		i++
		if format[i] == '%' {
			out = append(out, Int{8, '%'})
			continue
		}
		iv := vals[k].(Iface)
		k++
		switch x := iv.v.(type) {
		case *SymStr:
			out = append(out, x.b...)
		case *Term:
			u := mk(x.sort.W, p.concretize(x))
			iv.v = u
			out = append(out, strBytes(fmt.Sprintf("%"+string(format[i]), p.hostArg(fr, iv)))...)
		default:
			out = append(out, strBytes(fmt.Sprintf("%"+string(format[i]), p.hostArg(fr, iv)))...)
		}
	}
	return mkStr(out)
}
