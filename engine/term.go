package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// ---- sorts ----

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KFQ
	KFP
)

type Sort struct {
	K Kind
	W int
}

var (
	SBool = Sort{KBool, 0}
	SFQ   = Sort{KFQ, 0}
	SFP   = Sort{KFP, 0}
)

func SBV(w int) Sort { return Sort{KBV, w} }

var (
	modQ, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
	modP, _ = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
	big0    = big.NewInt(0)
	big1    = big.NewInt(1)
)

func (s Sort) mod() *big.Int {
	if s.K == KFQ {
		return modQ
	}
	return modP
}
func (s Sort) isFF() bool { return s.K == KFQ || s.K == KFP }

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OBAdd
	OBSub
	OBMul
	OBAnd
	OBOr
	OBXor
	OBNot
	OBShl
	OBLshr
	OBAshr
	OBUdiv
	OBUrem
	OBSdiv
	OBSrem
	OUlt
	OUle
	OSlt
	OSle
	OExtract
	OConcat
	OSext
	FAdd
	FMul
	FNeg
	FInv
	OB2F
	OF2B
	OPX
	OPY
	OHash
	OKS
	OLZ
	OSqrt
	OIsSq
	OPow
	ODL
)

type Term struct {
	op   Op
	sort Sort
	args []*Term
	c    *big.Int
	name string
	i, j int
	id   int
	pl   *poly
	plN  bool // poly computation attempted
	keyS string
	hs   *[16]byte
}

type Ctx struct {
	knownH    func(*Term) (bool, bool) // what the path condition settles
	tab       map[string]*Term
	next      int
	repr      map[string]*Term
	oblig     [][2]*Term // pairs claimed equal (distinct == false) by normaliser, to be discharged
	obligN    [][2]*Term // pairs claimed always distinct
	obSeen    map[[2]int]bool
	base      map[int][2]*big.Int         // base point symbols: id -> coordinates
	ptTab     map[string]*Term            // "x,y" -> dlog term
	f2bConst  map[int]map[string]*big.Int // constants the integer of a field term is compared with
	ideal     map[string]bool             // idealised assumptions used
	maxPoly   int
	supp      map[int]map[int]bool
	coordMode bool
	byID      map[int]*Term
	conc      map[string][]concHash // hashes computed on concrete inputs, by algorithm
}

// concHash is one concrete hash computation
type concHash struct{ in, out *Term }

func (c *Ctx) noteHash(name string, in, out []byte) {
	if c.conc == nil {
		c.conc = map[string][]concHash{}
	}
	if len(in) == 0 {
		return
	}
	o := c.BV(8*len(out), new(big.Int).SetBytes(out))
	for _, h := range c.conc[name] {
		if h.out == o {
			return
		}
	}
	c.conc[name] = append(c.conc[name], concHash{c.BV(8*len(in), new(big.Int).SetBytes(in)), o})
}

func NewCtx() *Ctx {
	return &Ctx{tab: map[string]*Term{}, repr: map[string]*Term{}, obSeen: map[[2]int]bool{}, base: map[int][2]*big.Int{}, ptTab: map[string]*Term{}, ideal: map[string]bool{}, maxPoly: 4000, supp: map[int]map[int]bool{}, byID: map[int]*Term{}}
}

func (c *Ctx) mk(op Op, s Sort, args []*Term, k *big.Int, name string, i, j int) *Term {
	var sb strings.Builder
	sb.WriteByte(byte(op) + 'A')
	sb.WriteByte(byte(s.K) + '0')
	sb.WriteString(strconv.Itoa(s.W))
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	if k != nil {
		sb.WriteByte('#')
		sb.WriteString(k.Text(62))
	}
	if name != "" {
		sb.WriteByte('$')
		sb.WriteString(name)
	}
	if i != 0 || j != 0 {
		sb.WriteByte('@')
		sb.WriteString(strconv.Itoa(i))
		sb.WriteByte(':')
		sb.WriteString(strconv.Itoa(j))
	}
	key := sb.String()
	if t, ok := c.tab[key]; ok {
		return t
	}
	c.next++
	t := &Term{op: op, sort: s, args: args, c: k, name: name, i: i, j: j, id: c.next}
	c.tab[key] = t
	c.byID[t.id] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

var maskCache = map[int]*big.Int{}

func mask(w int) *big.Int {
	m := new(big.Int).Lsh(big1, uint(w))
	return m.Sub(m, big1)
}

func (c *Ctx) BV(w int, v *big.Int) *Term {
	x := new(big.Int).And(v, mask(w))
	return c.mk(OConst, SBV(w), nil, x, "", 0, 0)
}
func (c *Ctx) BVu(w int, v uint64) *Term { return c.BV(w, new(big.Int).SetUint64(v)) }
func (c *Ctx) Bool(b bool) *Term {
	v := big0
	if b {
		v = big1
	}
	return c.mk(OConst, SBool, nil, v, "", 0, 0)
}
func (c *Ctx) True() *Term  { return c.Bool(true) }
func (c *Ctx) False() *Term { return c.Bool(false) }
func (c *Ctx) FF(s Sort, v *big.Int) *Term {
	x := new(big.Int).Mod(v, s.mod())
	return c.mk(OConst, s, nil, x, "", 0, 0)
}
func (c *Ctx) FFi(s Sort, v int64) *Term { return c.FF(s, big.NewInt(v)) }
func (c *Ctx) Var(s Sort, name string) *Term {
	return c.mk(OVar, s, nil, nil, name, 0, 0)
}
func (t *Term) isTrue() bool  { return t.op == OConst && t.sort.K == KBool && t.c.Sign() != 0 }
func (t *Term) isFalse() bool { return t.op == OConst && t.sort.K == KBool && t.c.Sign() == 0 }
func (t *Term) isC(v int64) bool {
	return t.op == OConst && t.c.Cmp(big.NewInt(v)) == 0
}

// ---- booleans ----

func (c *Ctx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.c.Sign() == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return c.mk(ONot, SBool, []*Term{a}, nil, "", 0, 0)
}
func (c *Ctx) And(as ...*Term) *Term { return c.andor(OAnd, as) }
func (c *Ctx) Or(as ...*Term) *Term  { return c.andor(OOr, as) }
func (c *Ctx) andor(op Op, as []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.isConst() {
			if t.isTrue() == (op == OAnd) {
				return true
			}
			return false
		}
		if t.op == op {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		if seen[c.Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.Bool(op == OOr)
		}
	}
	if len(out) == 0 {
		return c.Bool(op == OAnd)
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(op, SBool, out, nil, "", 0, 0)
}
func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if c.knownH != nil && !cond.isConst() {
		if v, k := c.knownH(cond); k {
			if v {
				return a
			}
			return b
		}
	}
	if cond.isTrue() || a == b {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch %v %v", a.sort, b.sort))
	}
	if a.sort.K == KBool {
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
	}
	if a.op == OIte && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == cond {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// ite(i >= LZ(v), byte_i(v), 0) == byte_i(v)
	if a.sort.K == KBV && b.isC(0) && a.op == OExtract && a.sort.W == 8 {
		if r := c.lzGuard(cond, a); r {
			return a
		}
	}
	return c.mk(OIte, a.sort, []*Term{cond, a, b}, nil, "", 0, 0)
}

// lzGuard: cond is (LZ(v) <= i) (not i < LZ(v)) and a is byte i (msb first) of v
func (c *Ctx) lzGuard(cond *Term, a *Term) bool {
	v := a.args[0]
	w := v.sort.W
	idx := (w - 8 - a.j) / 8
	if a.j%8 != 0 {
		return false
	}
	if cond.op == OUle && cond.args[0].op == OLZ && cond.args[0].args[0] == v && cond.args[1].isConst() {
		return cond.args[1].c.Int64() <= int64(idx)
	}
	return false
}

// ---- equality ----

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True()
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch %v %v", a.sort, b.sort))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.c.Cmp(b.c) == 0)
	}
	if a.isConst() {
		a, b = b, a
	}
	switch a.sort.K {
	case KBool:
		if b.isConst() {
			if b.isTrue() {
				return a
			}
			return c.Not(a)
		}
		if a.op == ONot && b.op == ONot {
			return c.Eq(a.args[0], b.args[0])
		}
		if a == c.Not(b) {
			return c.False()
		}
	case KFQ, KFP:
		return c.eqFF(a, b)
	case KBV:
		return c.eqBV(a, b)
	}
	return c.mkEq(a, b)
}
func (c *Ctx) mkEq(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, SBool, []*Term{a, b}, nil, "", 0, 0)
}

func (c *Ctx) eqBV(a, b *Term) *Term {
	if a.op == OIte && b.isConst() && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
	}
	if a.op == OIte && b.op == OIte && a.args[1] == b.args[1] && a.args[2] == b.args[2] && a.args[1].isConst() && a.args[2].isConst() {
		return c.Eq(a.args[0], b.args[0])
	}
	if a.op == OConcat || b.op == OConcat {
		return c.eqConcat(a, b)
	}
	// single bits: everything in terms of bit == 1
	if a.sort.W == 1 {
		if a.op == OBXor && a.args[1].isConst() && b.isConst() {
			return c.Eq(a.args[0], c.bitwise(OBXor, b, a.args[1]))
		}
		if a.op == OBXor && a.args[1].isConst() && b.op == OBXor && b.args[1] == a.args[1] {
			return c.Eq(a.args[0], b.args[0])
		}
		if b.isConst() && b.c.Sign() == 0 {
			return c.Not(c.mkEq(a, c.BVu(1, 1)))
		}
	}
	if b.isConst() && a.op == OF2B {
		x := a.args[0]
		if b.c.Cmp(x.sort.mod()) >= 0 {
			return c.False()
		}
		if b.c.BitLen() > 1 {
			if c.f2bConst == nil {
				c.f2bConst = map[int]map[string]*big.Int{}
			}
			if c.f2bConst[x.id] == nil {
				c.f2bConst[x.id] = map[string]*big.Int{}
			}
			c.f2bConst[x.id][b.c.String()] = b.c
		}
		return c.Eq(x, c.FF(x.sort, b.c))
	}
	// x mod q == x exactly when x < q
	for i, x := range []*Term{a, b} {
		y := []*Term{b, a}[i]
		if x.op == OF2B && x.args[0].op == OB2F && x.args[0].args[0] == y && y.sort.W == 256 {
			return c.Ult(y, c.BV(256, x.args[0].sort.mod()))
		}
	}
	if a.op == OF2B && b.op == OF2B && a.args[0].sort == b.args[0].sort {
		return c.Eq(a.args[0], b.args[0])
	}
	if h := c.idealEq(a, b); h != nil {
		return h
	}
	// x + k1 == k2
	if b.isConst() && a.op == OBAdd && a.args[1].isConst() {
		return c.Eq(a.args[0], c.BVSub(b, a.args[1]))
	}
	return c.mkEq(a, b)
}

// hashRoot returns the OHash/OKS node a (possibly an extract of it, with >=128 bits) is
func hashRoot(t *Term) (*Term, int, int) {
	if t.op == OHash || t.op == OKS {
		return t, t.sort.W - 1, 0
	}
	if t.op == OExtract && (t.args[0].op == OHash || t.args[0].op == OKS) && t.sort.W >= 128 {
		return t.args[0], t.i, t.j
	}
	return nil, 0, 0
}

// idealEq implements the ideal-hash assumption: equal (>=128 bit) outputs iff equal inputs.
func (c *Ctx) idealEq(a, b *Term) *Term {
	if a.op == OBXor && b.op == OBXor && a.sort.W >= 128 {
		for _, t := range []*Term{a.args[0], a.args[1], b.args[0], b.args[1]} {
			if h, _, _ := hashRoot(t); h == nil {
				return nil
			}
		}
		c.ideal["exclusive ors of two hash outputs are equal only for equal outputs"] = true
		x, y := a.args[0], a.args[1]
		u, v := b.args[0], b.args[1]
		return c.Or(c.And(c.Eq(x, u), c.Eq(y, v)), c.And(c.Eq(x, v), c.Eq(y, u)))
	}
	ha, i1, j1 := hashRoot(a)
	hb, i2, j2 := hashRoot(b)
	if ha != nil && hb == nil && b.isConst() {
		for _, h := range c.conc[ha.name] {
			if h.out.sort.W == ha.sort.W && c.Extract(h.out, i1, j1) == b {
				c.ideal["collision-free hash/keystream (outputs of >=128 bits are equal only for equal inputs)"] = true
				if ha.args[0].sort != h.in.sort {
					return c.False()
				}
				return c.Eq(ha.args[0], h.in)
			}
		}
	}
	if ha == nil || hb == nil {
		return nil
	}
	if ha == hb && i1 == i2 && j1 == j2 {
		return c.True()
	}
	c.ideal["collision-free hash/keystream (outputs of >=128 bits are equal only for equal inputs)"] = true
	if ha.op != hb.op || ha.name != hb.name || i1 != i2 || j1 != j2 || ha.i != hb.i {
		return c.False()
	}
	if ha.args[0].sort != hb.args[0].sort {
		return c.False()
	}
	return c.Eq(ha.args[0], hb.args[0])
}

type piece struct{ t *Term }

func flatten(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	return []*Term{t}
}

func (c *Ctx) eqConcat(a, b *Term) *Term {
	pa := append([]*Term{}, flatten(a)...)
	pb := append([]*Term{}, flatten(b)...)
	type pr struct{ x, y *Term }
	var prs []pr
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x.sort.W == y.sort.W {
			prs = append(prs, pr{x, y})
			pa, pb = pa[1:], pb[1:]
		} else if x.sort.W > y.sort.W {
			d := x.sort.W - y.sort.W
			prs = append(prs, pr{c.Extract(x, x.sort.W-1, d), y})
			pa[0] = c.Extract(x, d-1, 0)
			pb = pb[1:]
		} else {
			d := y.sort.W - x.sort.W
			prs = append(prs, pr{x, c.Extract(y, y.sort.W-1, d)})
			pb[0] = c.Extract(y, d-1, 0)
			pa = pa[1:]
		}
	}
	// quick constant contradiction
	for _, p := range prs {
		if p.x.isConst() && p.y.isConst() && p.x.c.Cmp(p.y.c) != 0 {
			return c.False()
		}
	}
	var out []*Term
	for i := 0; i < len(prs); i++ {
		p := prs[i]
		if i+1 < len(prs) {
			if d1, ok1 := pencTag(p.x); ok1 {
				if d2, ok2 := pencTag(p.y); ok2 {
					n := prs[i+1]
					if isXB(n.x, d1) && isXB(n.y, d2) {
						e := c.Eq(d1, d2)
						if e.isFalse() {
							return e
						}
						out = append(out, e)
						i++
						continue
					}
				}
			}
		}
		e := c.Eq(p.x, p.y)
		if e.isFalse() {
			return e
		}
		out = append(out, e)
	}
	return c.And(out...)
}

// pencTag recognises ite(parity(PY(d)),3,2) and returns d.
func pencTag(t *Term) (*Term, bool) {
	if t.op != OIte || !t.args[1].isConst() || !t.args[2].isConst() {
		return nil, false
	}
	cond := t.args[0]
	a, b := t.args[1].c.Int64(), t.args[2].c.Int64()
	odd := true
	if cond.op == ONot {
		odd = false
		cond = cond.args[0]
	}
	if cond.op != OEq {
		return nil, false
	}
	x, y := cond.args[0], cond.args[1]
	if x.isConst() {
		x, y = y, x
	}
	if !y.isConst() {
		return nil, false
	}
	if y.c.Sign() == 0 {
		odd = !odd
	}
	if !odd {
		a, b = b, a
	}
	if a != 3 || b != 2 {
		return nil, false
	}
	if x.op == OExtract && x.i == 0 && x.j == 0 && x.args[0].op == OF2B && x.args[0].args[0].op == OPY {
		return x.args[0].args[0].args[0], true
	}
	return nil, false
}
func isXB(t *Term, d *Term) bool {
	if t.op != OF2B || t.args[0].op != OPX {
		return false
	}
	e := t.args[0].args[0]
	return e == d || e.keyS == d.keyS && e.keyS != "" || e.keyS != "" && e.name == "" && samePM(e, d)
}
func samePM(e, d *Term) bool {
	if e == d {
		return true
	}
	pe, pd := e.pl, d.pl
	if pe == nil || pd == nil {
		return false
	}
	return pe.key() == pd.key() || pe.neg(modQ).key() == pd.key()
}

// ---- BV ----

func (c *Ctx) bin(op Op, a, b *Term) *Term {
	return c.mk(op, a.sort, []*Term{a, b}, nil, "", 0, 0)
}
func sgn(v *big.Int, w int) *big.Int {
	if v.Bit(w-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(big1, uint(w)))
	}
	return v
}
func (c *Ctx) BVAdd(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.BV(a.sort.W, new(big.Int).Add(a.c, b.c))
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isC(0) {
		return a
	}
	if b.isConst() && a.op == OBAdd && a.args[1].isConst() {
		return c.BVAdd(a.args[0], c.BVAdd(a.args[1], b))
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.bin(OBAdd, a, b)
}
func (c *Ctx) BVSub(a, b *Term) *Term {
	if a == b {
		return c.BVu(a.sort.W, 0)
	}
	if b.isConst() {
		n := new(big.Int).Neg(b.c)
		return c.BVAdd(a, c.BV(a.sort.W, n))
	}
	// k - (k2 - x) = x + (k-k2)
	if a.isConst() && b.op == OBSub && b.args[0].isConst() {
		return c.BVAdd(b.args[1], c.BVSub(a, b.args[0]))
	}
	return c.bin(OBSub, a, b)
}
func (c *Ctx) BVMul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.BV(a.sort.W, new(big.Int).Mul(a.c, b.c))
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isC(0) {
		return b
	}
	if b.isC(1) {
		return a
	}
	return c.bin(OBMul, a, b)
}
func (c *Ctx) bitwise(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		r := new(big.Int)
		switch op {
		case OBAnd:
			r.And(a.c, b.c)
		case OBOr:
			r.Or(a.c, b.c)
		case OBXor:
			r.Xor(a.c, b.c)
		}
		return c.BV(a.sort.W, r)
	}
	if a.isConst() {
		a, b = b, a
	}
	w := a.sort.W
	if b.isConst() {
		all := b.c.Cmp(mask(w)) == 0
		switch op {
		case OBAnd:
			if b.c.Sign() == 0 {
				return b
			}
			if all {
				return a
			}
			// low-bit masks become extracts
			if bl := b.c.BitLen(); b.c.Cmp(mask(bl)) == 0 {
				return c.Concat(c.BVu(w-bl, 0), c.Extract(a, bl-1, 0))
			}
		case OBOr:
			if b.c.Sign() == 0 {
				return a
			}
			if all {
				return b
			}
		case OBXor:
			if b.c.Sign() == 0 {
				return a
			}
		}
	}
	if a == b {
		if op == OBXor {
			return c.BVu(w, 0)
		}
		return a
	}
	// or/xor of disjoint zero-extended/shifted pieces -> concat
	if op == OBOr || op == OBXor || op == OBAdd {
		if r := c.mergeDisjoint(a, b); r != nil {
			return r
		}
	}
	if a.op == OIte && b.isConst() && a.args[1].isConst() && a.args[2].isConst() {
		return c.Ite(a.args[0], c.bitwise(op, a.args[1], b), c.bitwise(op, a.args[2], b))
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return c.bin(op, a, b)
}

// mergeDisjoint merges two concats where at every position at least one is constant zero
func (c *Ctx) mergeDisjoint(a, b *Term) *Term {
	if a.op != OConcat && b.op != OConcat {
		return nil
	}
	pa := append([]*Term{}, flatten(a)...)
	pb := append([]*Term{}, flatten(b)...)
	var out []*Term
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		w := x.sort.W
		if y.sort.W < w {
			w = y.sort.W
		}
		xx, yy := x, y
		if x.sort.W > w {
			xx = c.Extract(x, x.sort.W-1, x.sort.W-w)
			pa[0] = c.Extract(x, x.sort.W-w-1, 0)
		} else {
			pa = pa[1:]
		}
		if y.sort.W > w {
			yy = c.Extract(y, y.sort.W-1, y.sort.W-w)
			pb[0] = c.Extract(y, y.sort.W-w-1, 0)
		} else {
			pb = pb[1:]
		}
		if xx.isC(0) {
			out = append(out, yy)
		} else if yy.isC(0) {
			out = append(out, xx)
		} else {
			return nil
		}
	}
	return c.Concat(out...)
}
func (c *Ctx) BVNot(a *Term) *Term {
	if a.isConst() {
		return c.BV(a.sort.W, new(big.Int).Xor(a.c, mask(a.sort.W)))
	}
	return c.mk(OBNot, a.sort, []*Term{a}, nil, "", 0, 0)
}
func (c *Ctx) Shl(a, b *Term) *Term {
	w := a.sort.W
	if b.isConst() {
		if b.c.Cmp(big.NewInt(int64(w))) >= 0 {
			return c.BVu(w, 0)
		}
		k := int(b.c.Int64())
		if k == 0 {
			return a
		}
		if a.isConst() {
			return c.BV(w, new(big.Int).Lsh(a.c, uint(k)))
		}
		return c.Concat(c.Extract(a, w-1-k, 0), c.BVu(k, 0))
	}
	return c.bin(OBShl, a, b)
}
func (c *Ctx) Lshr(a, b *Term) *Term {
	w := a.sort.W
	if b.isConst() {
		if b.c.Cmp(big.NewInt(int64(w))) >= 0 {
			return c.BVu(w, 0)
		}
		k := int(b.c.Int64())
		if k == 0 {
			return a
		}
		return c.Concat(c.BVu(k, 0), c.Extract(a, w-1, k))
	}
	return c.bin(OBLshr, a, b)
}
func (c *Ctx) Ashr(a, b *Term) *Term {
	w := a.sort.W
	if a.isConst() && b.isConst() {
		k := uint(w)
		if b.c.IsInt64() && b.c.Int64() < int64(w) {
			k = uint(b.c.Int64())
		}
		return c.BV(w, new(big.Int).Rsh(sgn(a.c, w), k))
	}
	return c.bin(OBAshr, a, b)
}
func (c *Ctx) divrem(op Op, a, b *Term) *Term {
	w := a.sort.W
	if a.isConst() && b.isConst() && b.c.Sign() != 0 {
		r := new(big.Int)
		switch op {
		case OBUdiv:
			r.Div(a.c, b.c)
		case OBUrem:
			r.Mod(a.c, b.c)
		case OBSdiv:
			r.Quo(sgn(a.c, w), sgn(b.c, w))
		case OBSrem:
			r.Rem(sgn(a.c, w), sgn(b.c, w))
		}
		return c.BV(w, r)
	}
	// unsigned by power of two
	if b.isConst() && b.c.Sign() > 0 && (op == OBUdiv || op == OBUrem) {
		k := b.c.BitLen() - 1
		if new(big.Int).Lsh(big1, uint(k)).Cmp(b.c) == 0 {
			if op == OBUdiv {
				return c.Lshr(a, c.BVu(w, uint64(k)))
			}
			if k == 0 {
				return c.BVu(w, 0)
			}
			return c.Concat(c.BVu(w-k, 0), c.Extract(a, k-1, 0))
		}
	}
	return c.bin(op, a, b)
}

// rng gives unsigned bounds
func rng(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case OConst:
		return t.c, t.c
	case OLZ:
		return big0, big.NewInt(int64(t.args[0].sort.W / 8))
	case OF2B:
		return big0, new(big.Int).Sub(t.args[0].sort.mod(), big1)
	case OIte:
		l1, h1 := rng(t.args[1])
		l2, h2 := rng(t.args[2])
		if l2.Cmp(l1) < 0 {
			l1 = l2
		}
		if h2.Cmp(h1) > 0 {
			h1 = h2
		}
		return l1, h1
	case OBSub:
		l1, h1 := rng(t.args[0])
		l2, h2 := rng(t.args[1])
		if l1.Cmp(h2) >= 0 {
			return new(big.Int).Sub(l1, h2), new(big.Int).Sub(h1, l2)
		}
	case OBAdd:
		l1, h1 := rng(t.args[0])
		l2, h2 := rng(t.args[1])
		s := new(big.Int).Add(h1, h2)
		if s.Cmp(mask(t.sort.W)) <= 0 {
			return new(big.Int).Add(l1, l2), s
		}
		// constant addend wrapping fully (x + (-k)) with lo >= k
		if t.args[1].isConst() {
			k := new(big.Int).Sub(new(big.Int).Lsh(big1, uint(t.sort.W)), t.args[1].c)
			if l1.Cmp(k) >= 0 {
				return new(big.Int).Sub(l1, k), new(big.Int).Sub(h1, k)
			}
		}
	case OConcat:
		lo, hi = big.NewInt(0), big.NewInt(0)
		for _, a := range t.args {
			l, h := rng(a)
			lo = new(big.Int).Add(new(big.Int).Lsh(lo, uint(a.sort.W)), l)
			hi = new(big.Int).Add(new(big.Int).Lsh(hi, uint(a.sort.W)), h)
		}
		return lo, hi
	}
	return big0, mask(t.sort.W)
}
func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False()
	}
	l1, h1 := rng(a)
	l2, h2 := rng(b)
	if h1.Cmp(l2) < 0 {
		return c.True()
	}
	if l1.Cmp(h2) >= 0 {
		return c.False()
	}
	if b.isConst() && a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
		return c.Ite(a.args[0], c.Ult(a.args[1], b), c.Ult(a.args[2], b))
	}
	// strip common leading zero pieces
	if a.op == OConcat && b.isConst() && a.args[0].isC(0) {
		z := a.args[0].sort.W
		r := a.sort.W - z
		if b.c.BitLen() <= r {
			return c.Ult(c.Extract(a, r-1, 0), c.BV(r, b.c))
		}
	}
	// normalise  a < b  as not (b <= a)
	return c.Not(c.mk(OUle, SBool, []*Term{b, a}, nil, "", 0, 0))
}
func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }
func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False()
	}
	w := a.sort.W
	if a.isConst() && b.isConst() {
		return c.Bool(sgn(a.c, w).Cmp(sgn(b.c, w)) < 0)
	}
	_, h1 := rng(a)
	_, h2 := rng(b)
	half := new(big.Int).Lsh(big1, uint(w-1))
	if h1.Cmp(half) < 0 && h2.Cmp(half) < 0 {
		return c.Ult(a, b)
	}
	// constant negative b with nonneg a etc.
	l1, _ := rng(a)
	l2, _ := rng(b)
	if h1.Cmp(half) < 0 && l2.Cmp(half) >= 0 {
		return c.False()
	}
	if l1.Cmp(half) >= 0 && h2.Cmp(half) < 0 {
		return c.True()
	}
	return c.Not(c.mk(OSle, SBool, []*Term{b, a}, nil, "", 0, 0))
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *Ctx) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w <= 0 {
		panic("extract width")
	}
	if w == a.sort.W {
		return a
	}
	switch a.op {
	case OConst:
		return c.BV(w, new(big.Int).Rsh(a.c, uint(lo)))
	case OExtract:
		return c.Extract(a.args[0], hi+a.j, lo+a.j)
	case OF2B:
		// the two square roots have opposite parity: pick one of d, -d for the parity of y(d)
		if y := a.args[0]; hi == 0 && lo == 0 && y.op == OPY && c.knownH != nil {
			d := y.args[0]
			n := c.canon(c.FNeg(d))
			if !n.isConst() && c.canon(d).keyS > n.keyS {
				z := c.FFi(d.sort, 0)
				v, k := c.knownH(c.Eq(d, z))
				if !k {
					v, k = c.knownH(c.Eq(n, z))
				}
				if k && !v {
					if ny := c.PY(n); !ny.isConst() {
						return c.bitwise(OBXor, c.mk(OExtract, SBV(1), []*Term{c.F2B(ny)}, nil, "", 0, 0), c.BVu(1, 1))
					}
				}
			}
		}
	case OConcat:
		var out []*Term
		pos := a.sort.W
		for _, p := range a.args {
			top := pos - 1
			bot := pos - p.sort.W
			pos = bot
			if bot > hi || top < lo {
				continue
			}
			h, l := top, bot
			if h > hi {
				h = hi
			}
			if l < lo {
				l = lo
			}
			out = append(out, c.Extract(p, h-bot, l-bot))
		}
		return c.Concat(out...)
	case OIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return c.Ite(a.args[0], c.Extract(a.args[1], hi, lo), c.Extract(a.args[2], hi, lo))
		}
	case OBXor, OBAnd, OBOr:
		return c.bitwise(a.op, c.Extract(a.args[0], hi, lo), c.Extract(a.args[1], hi, lo))
	case OBAdd, OBSub, OBMul:
		if lo == 0 && w <= 64 && a.sort.W <= 128 {
			x, y := c.Extract(a.args[0], hi, 0), c.Extract(a.args[1], hi, 0)
			switch a.op {
			case OBAdd:
				return c.BVAdd(x, y)
			case OBSub:
				return c.BVSub(x, y)
			default:
				return c.BVMul(x, y)
			}
		}
	}
	return c.mk(OExtract, SBV(w), []*Term{a}, nil, "", hi, lo)
}

func (c *Ctx) Concat(ps ...*Term) *Term {
	var out []*Term
	var run []*Term // pending constants
	flush := func() {
		if len(run) == 0 {
			return
		}
		if len(run) == 1 {
			out = append(out, run[0])
		} else {
			w, aligned := 0, true
			for _, r := range run {
				w += r.sort.W
				aligned = aligned && r.sort.W%8 == 0
			}
			v := new(big.Int)
			if aligned {
				b, o := make([]byte, w/8), 0
				for _, r := range run {
					r.c.FillBytes(b[o : o+r.sort.W/8])
					o += r.sort.W / 8
				}
				v.SetBytes(b)
			} else {
				for _, r := range run {
					v.Or(v.Lsh(v, uint(r.sort.W)), r.c)
				}
			}
			out = append(out, c.BV(w, v))
		}
		run = run[:0]
	}
	for _, p := range ps {
		for _, q := range flatten(p) {
			if q.isConst() {
				run = append(run, q)
				continue
			}
			flush()
			if n := len(out); n > 0 {
				l := out[n-1]
				// adjacent extracts
				lb, lh, ll := asExt(l)
				qb, qh, ql := asExt(q)
				if lb == qb && ll == qh+1 && lb != l && qb != q {
					out[n-1] = c.Extract(lb, lh, ql)
					continue
				}
				if m := c.joinXor(l, q); m != nil {
					out[n-1] = m
					continue
				}
			}
			out = append(out, q)
		}
	}
	flush()
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, o := range out {
		w += o.sort.W
	}
	return c.mk(OConcat, SBV(w), out, nil, "", 0, 0)
}

// joinXor joins the exclusive ors of adjacent pieces of the same two hash outputs
func (c *Ctx) joinXor(l, q *Term) *Term {
	if l.op != OBXor || q.op != OBXor {
		return nil
	}
	a, b := l.args[0], l.args[1]
	x, y := q.args[0], q.args[1]
	adj := func(s, t *Term) *Term {
		sb, sh, sl := asExt(s)
		tb, th, tl := asExt(t)
		if sb == tb && sl == th+1 && sb != s && tb != t && sb.op == OHash {
			return c.Extract(sb, sh, tl)
		}
		return nil
	}
	for i := 0; i < 2; i++ {
		if m, n := adj(a, x), adj(b, y); m != nil && n != nil {
			return c.bitwise(OBXor, m, n)
		}
		x, y = y, x
	}
	return nil
}
func asExt(t *Term) (*Term, int, int) {
	if t.op == OExtract {
		return t.args[0], t.i, t.j
	}
	return t, t.sort.W - 1, 0
}
func (c *Ctx) Zext(a *Term, w int) *Term {
	if w == a.sort.W {
		return a
	}
	if w < a.sort.W {
		return c.Extract(a, w-1, 0)
	}
	if a.isConst() {
		return c.BV(w, a.c)
	}
	return c.Concat(c.BVu(w-a.sort.W, 0), a)
}
func (c *Ctx) Sext(a *Term, w int) *Term {
	if w <= a.sort.W {
		return c.Zext(a, w)
	}
	if a.isConst() {
		return c.BV(w, sgn(a.c, a.sort.W))
	}
	_, h := rng(a)
	if h.Bit(a.sort.W-1) == 0 && h.BitLen() < a.sort.W {
		return c.Zext(a, w)
	}
	return c.mk(OSext, SBV(w), []*Term{a}, nil, "", 0, 0)
}

// ---- finite fields ----

func (c *Ctx) FAdd(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.FF(a.sort, new(big.Int).Add(a.c, b.c))
	}
	if a.isC(0) {
		return b
	}
	if b.isC(0) {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(FAdd, a.sort, []*Term{a, b}, nil, "", 0, 0)
}
func (c *Ctx) FNeg(a *Term) *Term {
	if a.isConst() {
		return c.FF(a.sort, new(big.Int).Neg(a.c))
	}
	if a.op == FNeg {
		return a.args[0]
	}
	if a.op == OPY {
		return c.PY(c.FNeg(a.args[0]))
	}
	return c.mk(FNeg, a.sort, []*Term{a}, nil, "", 0, 0)
}
func (c *Ctx) FSub(a, b *Term) *Term {
	if a == b {
		return c.FFi(a.sort, 0)
	}
	return c.FAdd(a, c.FNeg(b))
}
func (c *Ctx) FMul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.FF(a.sort, new(big.Int).Mul(a.c, b.c))
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isC(0) {
		return b
	}
	if b.isC(1) {
		return a
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return c.mk(FMul, a.sort, []*Term{a, b}, nil, "", 0, 0)
}
func (c *Ctx) FInv(a *Term) *Term {
	if a.isConst() {
		if a.c.Sign() == 0 {
			return a
		}
		return c.FF(a.sort, new(big.Int).ModInverse(a.c, a.sort.mod()))
	}
	a = c.canon(a)
	if a.isConst() {
		return c.FInv(a)
	}
	if a.op == FInv {
		return a.args[0]
	}
	return c.mk(FInv, a.sort, []*Term{a}, nil, "", 0, 0)
}

func (c *Ctx) B2F(s Sort, u *Term) *Term {
	if u.isConst() {
		return c.FF(s, u.c)
	}
	// strip leading zeros
	if u.op == OConcat && u.args[0].isC(0) {
		return c.B2F(s, c.Concat(u.args[1:]...))
	}
	if u.op == OF2B {
		if u.args[0].sort == s {
			return u.args[0]
		}
	}
	if u.op == OIte && u.args[1].isConst() && u.args[2].isConst() {
		return c.Ite(u.args[0], c.B2F(s, u.args[1]), c.B2F(s, u.args[2]))
	}
	if u.op == OBAdd {
		_, h0 := rng(u.args[0])
		_, h1 := rng(u.args[1])
		if new(big.Int).Add(h0, h1).BitLen() <= u.sort.W {
			return c.FAdd(c.B2F(s, u.args[0]), c.B2F(s, u.args[1]))
		}
	}
	return c.mk(OB2F, s, []*Term{u}, nil, "", 0, 0)
}
func (c *Ctx) F2B(x *Term) *Term {
	if x.isConst() {
		return c.BV(256, x.c)
	}
	x = c.canon(x)
	if x.isConst() {
		return c.BV(256, x.c)
	}
	// value known to be in range: zero-extended short bitvector
	if x.op == OB2F && x.args[0].sort.W < 256 {
		return c.Zext(x.args[0], 256)
	}
	if x.op == OIte {
		return c.Ite(x.args[0], c.F2B(x.args[1]), c.F2B(x.args[2]))
	}
	return c.mk(OF2B, SBV(256), []*Term{x}, nil, "", 0, 0)
}

// point coordinates of discrete log d
func (c *Ctx) PX(d *Term) *Term { return c.coord(OPX, d) }
func (c *Ctx) PY(d *Term) *Term { return c.coord(OPY, d) }
func (c *Ctx) coord(op Op, d *Term) *Term {
	d = c.canon(d)
	if x, y, ok := c.concretePoint(d); ok {
		if op == OPX {
			return c.FF(SFP, x)
		}
		return c.FF(SFP, y)
	}
	if d.op == ODL {
		_ = d
	}
	return c.mk(op, SFP, []*Term{d}, nil, "", 0, 0)
}

// concretePoint: d is linear in known base points with constant coefficients
func (c *Ctx) concretePoint(d *Term) (x, y *big.Int, ok bool) {
	p := c.poly(d)
	if p == nil {
		return nil, nil, false
	}
	if len(p.m) > 8 {
		return nil, nil, false
	}
	acc := ecPoint{}
	for _, t := range p.m {
		switch len(t.atoms) {
		case 0:
			acc = ecAdd(acc, ecMul(ecG, t.c))
		case 1:
			b, isb := c.base[t.atoms[0]]
			if !isb {
				return nil, nil, false
			}
			acc = ecAdd(acc, ecMul(ecPoint{b[0], b[1]}, t.c))
		default:
			return nil, nil, false
		}
	}
	if acc.inf() {
		return big0, big0, true
	}
	c.ptTab[acc.x.String()+","+acc.y.String()] = d
	return acc.x, acc.y, true
}

// pointFromConst gives the dlog term of a concrete on-curve point
func (c *Ctx) pointFromConst(x, y *big.Int) *Term {
	k := x.String() + "," + y.String()
	if t, ok := c.ptTab[k]; ok {
		return t
	}
	if x.Cmp(ecG.x) == 0 && y.Cmp(ecG.y) == 0 {
		return c.FFi(SFQ, 1)
	}
	ny := new(big.Int).Sub(modP, y)
	if t, ok := c.ptTab[x.String()+","+ny.String()]; ok {
		return c.FNeg(t)
	}
	v := c.Var(SFQ, "dl!"+x.Text(16))
	// choose even y as the base
	if y.Bit(0) == 0 {
		c.base[v.id] = [2]*big.Int{x, y}
		c.ptTab[k] = v
		return v
	}
	c.base[v.id] = [2]*big.Int{x, ny}
	c.ptTab[x.String()+","+ny.String()] = v
	return c.FNeg(v)
}

func usesBase(c *Ctx, p *poly) bool {
	for _, t := range p.m {
		for _, a := range t.atoms {
			if _, ok := c.base[a]; ok {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) eqFF(a, b *Term) *Term {
	if a.op == OIte && b.isConst() && a.args[1].isConst() && a.args[2].isConst() {
		return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
	}
	if a.op == OPX && b.op == OPX {
		x, y := a.args[0], b.args[0]
		return c.Or(c.Eq(x, y), c.Eq(x, c.FNeg(y)))
	}
	if (a.op == OPX || a.op == OPY) && b.isC(0) {
		return c.Eq(a.args[0], c.FFi(SFQ, 0))
	}
	if a.op == FNeg && b.op == FNeg {
		return c.Eq(a.args[0], b.args[0])
	}
	pa, pb := c.poly(a), c.poly(b)
	if pa != nil && pb != nil {
		m := a.sort.mod()
		d := pa.add(pb.neg(m), m)
		if len(d.m) == 0 {
			c.noteEq(a, b)
			return c.True()
		}
		if a.sort.K == KFQ && len(c.base) > 0 {
			// points known by their coordinates
			if x1, y1, ok := c.concretePoint(a); ok {
				if x2, y2, ok := c.concretePoint(b); ok && (usesBase(c, pa) || usesBase(c, pb)) {
					return c.Bool(x1.Cmp(x2) == 0 && y1.Cmp(y2) == 0)
				}
			}
		}
		if len(d.m) == 2 {
			// the difference of two atoms
			var ts []*Term
			var cs []*big.Int
			for _, t := range d.m {
				if len(t.atoms) == 1 {
					ts = append(ts, c.byID[t.atoms[0]])
					cs = append(cs, t.c)
				}
			}
			if len(ts) == 2 && ts[0] != nil && ts[1] != nil && ts[0].op == OB2F && ts[1].op == OB2F && new(big.Int).Mod(new(big.Int).Add(cs[0], cs[1]), m).Sign() == 0 && !(a == ts[0] && b == ts[1]) && !(a == ts[1] && b == ts[0]) {
				return c.Eq(ts[0], ts[1])
			}
		}
		if len(d.m) == 1 {
			if t, ok := d.m[""]; ok && t.c.Sign() != 0 {
				c.noteNe(a, b)
				return c.False()
			}
		}
	}
	if a.op == OB2F && b.op == OB2F && a.args[0].sort == b.args[0].sort {
		if a.args[0].sort.W > 256 && hasHash(a.args[0]) && hasHash(b.args[0]) {
			c.ideal["wide reduction of >=384 bits of hash output is collision free"] = true
			return c.Eq(a.args[0], b.args[0])
		}
		if a.args[0].sort.W < 256 {
			return c.Eq(a.args[0], b.args[0])
		}
	}
	if a.op == OB2F && a.args[0].sort.W < 256 && b.isConst() {
		if b.c.BitLen() > a.args[0].sort.W {
			return c.False()
		}
		return c.Eq(a.args[0], c.BV(a.args[0].sort.W, b.c))
	}
	return c.mkEq(a, b)
}

func hasHash(t *Term) bool {
	for _, p := range flatten(t) {
		if h, _, _ := hashRoot(p); h != nil {
			return true
		}
	}
	return false
}

func (c *Ctx) noteEq(a, b *Term) {
	if a == b {
		return
	}
	k := [2]int{a.id, b.id}
	if a.id > b.id {
		k = [2]int{b.id, a.id}
	}
	if c.obSeen[k] {
		return
	}
	c.obSeen[k] = true
	c.oblig = append(c.oblig, [2]*Term{a, b})
}
func (c *Ctx) noteNe(a, b *Term) {
	k := [2]int{-a.id, -b.id}
	if c.obSeen[k] {
		return
	}
	c.obSeen[k] = true
	c.obligN = append(c.obligN, [2]*Term{a, b})
}

// canon returns the representative of all terms with the same polynomial normal form.
// Every identification is recorded as an obligation the solver must discharge on the raw terms.
func (c *Ctx) canon(t *Term) *Term {
	if t.keyS == "" {
		p := c.poly(t)
		if p == nil {
			t.keyS = "t" + strconv.Itoa(t.id)
		} else {
			t.keyS = strconv.Itoa(int(t.sort.K)) + p.key()
			if len(p.m) == 0 && !t.isConst() {
				z := c.FFi(t.sort, 0)
				c.noteEq(t, z)
				return z
			}
			if len(p.m) == 1 && !t.isConst() {
				if k, ok := p.m[""]; ok {
					z := c.FF(t.sort, k.c)
					c.noteEq(t, z)
					return z
				}
			}
		}
	}
	if r, ok := c.repr[t.keyS]; ok {
		if r != t {
			c.noteEq(r, t)
		}
		return r
	}
	c.repr[t.keyS] = t
	return t
}

// ---- polynomial normal forms (a heuristic guide; never trusted without the solver) ----

type mono struct {
	atoms []int
	c     *big.Int
}
type poly struct {
	m map[string]*mono
	k string
}

func monoKey(a []int) string {
	if len(a) == 0 {
		return ""
	}
	var sb strings.Builder
	for _, x := range a {
		sb.WriteString(strconv.FormatInt(int64(x), 36))
		sb.WriteByte('.')
	}
	return sb.String()
}
func (p *poly) key() string {
	if p.k != "" {
		return p.k
	}
	ks := make([]string, 0, len(p.m))
	for k := range p.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	sb.WriteByte('p')
	for _, k := range ks {
		sb.WriteString(k)
		sb.WriteByte('=')
		sb.WriteString(p.m[k].c.Text(62))
		sb.WriteByte(';')
	}
	p.k = sb.String()
	return p.k
}
func (p *poly) neg(m *big.Int) *poly {
	r := &poly{m: make(map[string]*mono, len(p.m))}
	for k, t := range p.m {
		r.m[k] = &mono{t.atoms, new(big.Int).Sub(m, t.c)}
	}
	return r
}
func (p *poly) add(q *poly, m *big.Int) *poly {
	r := &poly{m: make(map[string]*mono, len(p.m)+len(q.m))}
	for k, t := range p.m {
		r.m[k] = t
	}
	for k, t := range q.m {
		if o, ok := r.m[k]; ok {
			v := new(big.Int).Add(o.c, t.c)
			if v.Cmp(m) >= 0 {
				v.Sub(v, m)
			}
			if v.Sign() == 0 {
				delete(r.m, k)
			} else {
				r.m[k] = &mono{t.atoms, v}
			}
		} else {
			r.m[k] = t
		}
	}
	return r
}
func (p *poly) mul(q *poly, m *big.Int) *poly {
	r := &poly{m: map[string]*mono{}}
	for _, t := range p.m {
		for _, u := range q.m {
			at := mergeInts(t.atoms, u.atoms)
			k := monoKey(at)
			v := new(big.Int).Mul(t.c, u.c)
			v.Mod(v, m)
			if o, ok := r.m[k]; ok {
				v.Add(v, o.c)
				if v.Cmp(m) >= 0 {
					v.Sub(v, m)
				}
			}
			if v.Sign() == 0 {
				delete(r.m, k)
			} else {
				r.m[k] = &mono{at, v}
			}
		}
	}
	return r
}
func mergeInts(a, b []int) []int {
	out := make([]int, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i] <= b[j] {
			out = append(out, a[i])
			i++
		} else {
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	return append(out, b[j:]...)
}

func (c *Ctx) poly(t *Term) *poly {
	if t.plN {
		return t.pl
	}
	t.plN = true
	m := t.sort.mod()
	var r *poly
	switch t.op {
	case OConst:
		r = &poly{m: map[string]*mono{}}
		if t.c.Sign() != 0 {
			r.m[""] = &mono{nil, t.c}
		}
	case FAdd:
		a, b := c.poly(t.args[0]), c.poly(t.args[1])
		if a != nil && b != nil {
			r = a.add(b, m)
		}
	case FMul:
		a, b := c.poly(t.args[0]), c.poly(t.args[1])
		if a != nil && b != nil && len(a.m)*len(b.m) <= c.maxPoly {
			r = a.mul(b, m)
		}
	case FNeg:
		a := c.poly(t.args[0])
		if a != nil {
			r = a.neg(m)
		}
	}
	if r == nil {
		at := []int{t.id}
		r = &poly{m: map[string]*mono{monoKey(at): {at, big1}}}
	}
	if len(r.m) > c.maxPoly {
		at := []int{t.id}
		r = &poly{m: map[string]*mono{monoKey(at): {at, big1}}}
	}
	t.pl = r
	return r
}

// ---- opaque functions ----

func (c *Ctx) Hash(alg string, in *Term, outBits int) *Term {
	return c.mk(OHash, SBV(outBits), []*Term{in}, nil, alg, 0, 0)
}
func (c *Ctx) KS(alg string, key *Term, blk int) *Term {
	return c.mk(OKS, SBV(512), []*Term{key}, nil, alg, blk, 0)
}
func (c *Ctx) LZ(v *Term) *Term {
	if v.isConst() {
		n := (v.c.BitLen() + 7) / 8
		return c.BVu(64, uint64(v.sort.W/8-n))
	}
	return c.mk(OLZ, SBV(64), []*Term{v}, nil, "", 0, 0)
}

// square root view: IsSq(w) and, if so, Sqrt(w)^2 = w (kryptology returns w^((p+1)/4))
func (c *Ctx) IsSq(w *Term) *Term {
	if w.isConst() {
		return c.Bool(w.c.Sign() == 0 || big.Jacobi(w.c, modP) == 1)
	}
	w = c.canon(w)
	return c.mk(OIsSq, SBool, []*Term{w}, nil, "", 0, 0)
}
func (c *Ctx) SqrtT(w *Term) *Term {
	if w.isConst() {
		e := new(big.Int).Add(modP, big1)
		e.Rsh(e, 2)
		return c.FF(w.sort, new(big.Int).Exp(w.c, e, modP))
	}
	w = c.canon(w)
	return c.mk(OSqrt, w.sort, []*Term{w}, nil, "", 0, 0)
}
func (c *Ctx) Pow(x *Term, e *big.Int) *Term {
	if x.isConst() {
		return c.FF(x.sort, new(big.Int).Exp(x.c, e, x.sort.mod()))
	}
	if e.BitLen() <= 6 {
		r := c.FFi(x.sort, 1)
		for i := e.BitLen() - 1; i >= 0; i-- {
			r = c.FMul(r, r)
			if e.Bit(i) == 1 {
				r = c.FMul(r, x)
			}
		}
		return r
	}
	x = c.canon(x)
	return c.mk(OPow, x.sort, []*Term{x}, e, "", 0, 0)
}
func (c *Ctx) DL(x, y *Term) *Term {
	if x.op == OPX && y.op == OPY {
		e := y.args[0]
		if isXBpx(c, x, e) {
			return e
		}
	}
	if x.isConst() && y.isConst() {
		return c.pointFromConst(x.c, y.c)
	}
	return c.mk(ODL, SFQ, []*Term{x, y}, nil, "", 0, 0)
}
func isXBpx(c *Ctx, x *Term, e *Term) bool {
	return x == c.PX(e) || samePM(x.args[0], e)
}
