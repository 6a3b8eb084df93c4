package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// concInputs makes every harness input concrete (validation of the interpreter against native runs)
type concInputs struct {
	seed  string
	model map[string]string
}

func derive(seed, name string, n int) []byte {
	var out []byte
	for i := 0; len(out) < n; i++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("%s|%s|%d", seed, name, i)))
		out = append(out, h[:]...)
	}
	return out[:n]
}

func (p *Path) uniq(name string) string {
	n := p.inSeen[name]
	p.inSeen[name] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

// newInput makes a symbolic input (or its concrete stand-in)
func (p *Path) newInput(name, kind string, s Sort, gen func(nm string) *big.Int) *Term {
	nm := p.uniq(name)
	if p.conc != nil {
		v := gen(nm)
		var t *Term
		if s.isFF() {
			t = p.c.FF(s, v)
		} else if s.K == KBool {
			t = p.c.Bool(v.Sign() != 0)
		} else {
			t = p.c.BV(s.W, v)
		}
		p.inputs = append(p.inputs, inputDecl{name: nm, kind: kind, t: t})
		return t
	}
	t := p.c.Var(s, nm)
	p.inputs = append(p.inputs, inputDecl{name: nm, kind: kind, t: t})
	return t
}

func (p *Path) genInt(bits int) func(string) *big.Int {
	return func(nm string) *big.Int {
		d := derive(p.conc.seed, nm, 9)
		v := new(big.Int).SetBytes(d[1:])
		if d[0]&3 == 0 {
			v.And(v, big.NewInt(3))
		}
		return v.And(v, mask(bits))
	}
}
func (p *Path) genFF(m *big.Int) func(string) *big.Int {
	return func(nm string) *big.Int {
		d := derive(p.conc.seed, nm, 49)
		v := new(big.Int).SetBytes(d[1:])
		if d[0] < 16 {
			v.And(v, big.NewInt(3))
		}
		return v.Mod(v, m)
	}
}

func (p *Path) event(f string, a ...interface{}) {
	if p.conc != nil {
		p.events = append(p.events, fmt.Sprintf(f, a...))
	}
}

// wrap a term in an opaque oracle value (S, F or P)
func orc(t *Term) Value { return &StructV{f: []Value{t, Ptr(nil)}} }

func (p *Path) orcTerm(v Value, s Sort) *Term {
	st := v.(*StructV)
	if t, ok := st.f[0].(*Term); ok {
		return t
	}
	return p.c.FFi(s, 0)
}

func (p *Path) bytesOf(v Value) []Value { return p.settle(v.(SliceV)).vals() }

func (p *Path) wordBytes(t *Term) Value { // 256-bit BV -> 32 big-endian bytes
	n := t.sort.W / 8
	out := make([]Value, n)
	for i := range out {
		hi := t.sort.W - 1 - 8*i
		out[i] = norm(p.c.Extract(t, hi, hi-7))
	}
	return mkSlice(out)
}

func (p *Path) bytesToFF(s Sort, b []Value) *Term {
	if len(b) == 0 {
		return p.c.FFi(s, 0)
	}
	return p.c.B2F(s, p.catBytes(b))
}

// findNative locates the field element / point inside an implementation value
func (p *Path) findNative(v Value, suffix string) Ptr {
	x, ok := v.(Iface)
	if !ok || x.t == nil {
		panic(rtPanic("vsym: nil value"))
	}
	t := x.t
	val := x.v
	for {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			q, _ := val.(Ptr)
			if q == nil {
				panic(rtPanic("vsym: nil value"))
			}
			if pt.Elem().String() == nat+suffix {
				return q
			}
			t, val = pt.Elem(), *q
			continue
		}
		break
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(unsupported("vsym: value of " + t.String()))
	}
	sv := val.(*StructV)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Type().String() == "*"+nat+suffix {
			q, _ := sv.f[i].(Ptr)
			if q == nil {
				panic(rtPanic("vsym: nil value"))
			}
			return q
		}
	}
	panic(rtPanic("vsym: no field element"))
}

func (p *Path) repoCall(fr *frame, v string, method string, args ...Value) Value {
	// calls curve.<v>.<method>(args) on the package-level value v
	g := p.eng.curvePkg.Var(v)
	if g == nil {
		panic(unsupported("curve." + v))
	}
	recv := *p.global(g)
	f := p.findMethod(deref(g.Type()), method)
	if f == nil {
		panic(unsupported("curve." + v + "." + method))
	}
	return p.call(fr, f, append([]Value{copyVal(recv)}, args...), nil)
}

func (p *Path) curveK256() Value {
	c := p.eng.curvePkg.Const("K256")
	return p.constVal(c.Value)
}

func (p *Path) mkScalar(fr *frame, t *Term) Value {
	r := p.repoCall(fr, "Scalar", "Zero", p.curveK256())
	fset(p.findNative(r, ".Field"), t)
	return r
}
func (p *Path) mkPoint(fr *frame, d *Term) Value {
	r := p.repoCall(fr, "Point", "Identity", p.curveK256())
	q := p.findNative(r, ".EllipticPoint")
	ptSetDL(p, q, d)
	return r
}

func (p *Path) vsymCall(fr *frame, fn *ssa.Function, a []Value) Value {
	c := p.c
	name := fn.Name()
	if r := fn.Signature.Recv(); r != nil {
		name = types.TypeString(r.Type(), func(*types.Package) string { return "" }) + "." + name
	} else if fn.Parent() != nil {
		return p.callBody(fr, fn, a, nil)
	}
	str := func(v Value) string {
		s, ok := v.(string)
		if !ok {
			panic(unsupported("vsym: symbolic name"))
		}
		return s
	}
	ov := func(nm string) *big.Int {
		if p.conc != nil {
			if s, ok := p.conc.model[nm]; ok {
				for i := 0; i < len(s); i++ {
					if s[i] == ':' {
						v, _ := new(big.Int).SetString(s[i+1:], 16)
						return v
					}
				}
			}
		}
		return nil
	}
	with := func(g func(string) *big.Int) func(string) *big.Int {
		return func(nm string) *big.Int {
			if v := ov(nm); v != nil {
				return v
			}
			return g(nm)
		}
	}
	S := func(i int) *Term { return p.orcTerm(a[i], SFQ) }
	F := func(i int) *Term { return p.orcTerm(a[i], SFP) }
	switch name {
	case "U64":
		return norm(p.newInput(str(a[0]), "u64", SBV(64), with(p.genInt(64))))
	case "U32":
		return norm(p.newInput(str(a[0]), "u32", SBV(32), with(p.genInt(32))))
	case "U8":
		return norm(p.newInput(str(a[0]), "u8", SBV(8), with(p.genInt(8))))
	case "Bool":
		return norm(p.newInput(str(a[0]), "bool", SBool, with(p.genInt(1))))
	case "Int":
		lo, hi := p.intOf(a[1]), p.intOf(a[2])
		t := p.newInput(str(a[0]), "int", SBV(64), with(func(nm string) *big.Int {
			v := new(big.Int).SetBytes(derive(p.conc.seed, nm, 8))
			v.Mod(v, big.NewInt(int64(hi-lo+1)))
			return v.Add(v, big.NewInt(int64(lo)))
		}))
		p.assume(c.And(c.Sle(c.BV(64, big.NewInt(int64(lo))), t), c.Sle(t, c.BV(64, big.NewInt(int64(hi))))))
		return norm(t)
	case "Bytes":
		n := p.intOf(a[1])
		if n == 0 {
			p.uniq(str(a[0]))
			return SliceV{arr: &ArrayV{}}
		}
		t := p.newInput(str(a[0]), "bytes", SBV(8*n), with(func(nm string) *big.Int {
			d := derive(p.conc.seed, nm, n+1)
			if d[0] < 16 {
				return new(big.Int)
			}
			if d[0] < 32 {
				for i := range d {
					d[i] = 0xff
				}
			}
			return new(big.Int).SetBytes(d[1:])
		}))
		return p.wordBytes(t)
	case "Choose":
		n := p.intOf(a[1])
		nm := p.uniq(str(a[0]))
		var k int
		if p.conc != nil {
			v := ov(nm)
			if v == nil {
				v = new(big.Int).SetBytes(derive(p.conc.seed, nm, 8))
				v.Mod(v, big.NewInt(int64(n)))
			}
			k = int(v.Int64())
		} else {
			k = p.choose(n)
		}
		p.inputs = append(p.inputs, inputDecl{name: nm, kind: "choose", cv: k})
		return i64(k)
	case "Assume":
		p.assume(p.term(a[0]))
		return nil
	case "Assert":
		t := p.term(a[0])
		msg := str(a[1])
		if v, ok := p.known(t); ok {
			t = c.Bool(v)
		}
		p.event("A:%s:%v", msg, t.isTrue())
		if t.isTrue() {
			p.obls = append(p.obls, oblig{cond: t, msg: msg})
			return nil
		}
		p.obls = append(p.obls, oblig{cond: t, pc: append([]*Term{}, p.pc...), msg: msg, pos: p.stackPos(fr)})
		return nil
	case "Reach":
		p.reached[str(a[0])] = len(p.pc)
		p.event("R:%s", str(a[0]))
		return nil
	case "Observe":
		if p.conc != nil {
			cb, ok := concreteBytes(p.bytesOf(a[1]))
			if !ok {
				p.event("O:%s:?", str(a[0]))
			} else {
				p.event("O:%s:%x", str(a[0]), cb)
			}
		}
		return nil
	case "Generic":
		p.generic = true
		return nil
	case "RngFull":
		p.rngFull = true
		return nil
	case "Thorough":
		return p.eng.thorough
	case "Tier":
		if p.eng.thorough {
			return a[1]
		}
		return a[0]
	case "And", "Or":
		var ts []*Term
		for _, v := range a[0].(SliceV).vals() {
			ts = append(ts, p.term(v))
		}
		if name == "And" {
			return norm(c.And(ts...))
		}
		return norm(c.Or(ts...))
	case "Not":
		return norm(c.Not(p.term(a[0])))
	case "Implies":
		return norm(c.Implies(p.term(a[0]), p.term(a[1])))
	case "Iff":
		return norm(c.Eq(p.term(a[0]), p.term(a[1])))
	case "Panics":
		return p.callBody(fr, fn, a, nil)

	case "NewS":
		return orc(p.newInput(str(a[0]), "S", SFQ, with(p.genFF(modQ))))
	case "SInt":
		return orc(c.B2F(SFQ, p.term(a[0])))
	case "SHex", "FHex":
		v, ok := new(big.Int).SetString(str(a[0]), 16)
		if !ok {
			panic(unsupported("hex"))
		}
		if name == "SHex" {
			return orc(c.FF(SFQ, v))
		}
		return orc(c.FF(SFP, v))
	case "SBytes":
		return orc(p.bytesToFF(SFQ, p.bytesOf(a[0])))
	case "S.Add", "S.Sub", "S.Mul", "F.Add", "F.Sub", "F.Mul":
		s := SFQ
		if name[0] == 'F' {
			s = SFP
		}
		x, y := p.orcTerm(a[0], s), p.orcTerm(a[1], s)
		switch name[2:] {
		case "Add":
			return orc(c.FAdd(x, y))
		case "Sub":
			return orc(c.FSub(x, y))
		}
		return orc(c.FMul(x, y))
	case "S.Neg":
		return orc(c.FNeg(S(0)))
	case "F.Neg":
		return orc(c.FNeg(F(0)))
	case "S.Eq":
		return norm(c.Eq(S(0), S(1)))
	case "F.Eq":
		return norm(c.Eq(F(0), F(1)))
	case "S.IsZero":
		return norm(c.Eq(S(0), c.FFi(SFQ, 0)))
	case "F.IsZero":
		return norm(c.Eq(F(0), c.FFi(SFP, 0)))
	case "S.Bytes":
		return p.wordBytes(c.F2B(S(0)))
	case "F.Bytes":
		return p.wordBytes(c.F2B(F(0)))
	case "S.Inv":
		return orc(c.FInv(S(0)))
	case "F.Inv":
		return orc(c.FInv(F(0)))
	case "F.IsSquare":
		w := F(0)
		if w.isC(0) {
			return true
		}
		sq, _ := setRoot(c, w)
		return norm(sq)
	case "NewF":
		return orc(p.newInput(str(a[0]), "F", SFP, with(p.genFF(modP))))
	case "FInt":
		return orc(c.B2F(SFP, p.term(a[0])))
	case "FBytes":
		return orc(p.bytesToFF(SFP, p.bytesOf(a[0])))

	case "G":
		return orc(c.FFi(SFQ, 1))
	case "Inf":
		return orc(c.FFi(SFQ, 0))
	case "NewP":
		return orc(p.newInput(str(a[0]), "P", SFQ, with(p.genFF(modQ))))
	case "P.IsInf":
		return norm(c.Eq(S(0), c.FFi(SFQ, 0)))
	case "P.Neg":
		return orc(c.FNeg(S(0)))
	case "P.Sub":
		return orc(c.FSub(S(0), S(1)))
	case "P.Add":
		return orc(c.FAdd(S(0), S(1)))
	case "P.Mul":
		return orc(c.FMul(S(0), S(1)))
	case "P.Eq":
		return norm(c.Eq(S(0), S(1)))
	case "P.X":
		return orc(c.PX(S(0)))
	case "P.Y":
		return orc(c.PY(S(0)))
	case "P.XS":
		return orc(c.B2F(SFQ, c.F2B(c.PX(S(0)))))
	case "P.Compressed":
		d := c.canon(S(0))
		if p.boolOf(p.isZeroFF(p.zOf(d))) {
			out := make([]Value, 33)
			for i := range out {
				out[i] = Int{8, 0}
			}
			return mkSlice(out)
		}
		y := c.F2B(c.PY(d))
		tag := norm(c.Ite(c.Eq(c.Extract(y, 0, 0), c.BVu(1, 1)), c.BVu(8, 3), c.BVu(8, 2)))
		x := p.wordBytes(c.F2B(c.PX(d))).(SliceV)
		return mkSlice(append([]Value{tag}, x.vals()...))
	case "OnCurve":
		x, y := F(0), F(1)
		return norm(c.Eq(c.FMul(y, y), c.FAdd(c.FMul(c.FMul(x, x), x), c.FFi(SFP, 7))))

	case "MkScalar":
		return p.mkScalar(fr, S(0))
	case "Scalar":
		return p.mkScalar(fr, p.newInput(str(a[0]), "S", SFQ, with(p.genFF(modQ))))
	case "SVal":
		return orc(fval(p, p.findNative(a[0], ".Field")))
	case "SetF", "GetF":
		i := a[0].(Iface)
		pt, ok := i.t.(*types.Pointer)
		if !ok {
			panic(unsupported("SetF of a non-pointer"))
		}
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			panic(unsupported("SetF of a non-structure"))
		}
		k := -1
		for j := 0; j < st.NumFields(); j++ {
			if st.Field(j).Name() == str(a[1]) {
				k = j
			}
		}
		if k < 0 {
			k = int(a[2].(Int).V)
		}
		sv := (*i.v.(Ptr)).(*StructV)
		ft := st.Field(k).Type()
		_, isI := ft.Underlying().(*types.Interface)
		if name == "GetF" {
			if isI {
				return sv.f[k]
			}
			return Iface{t: ft, v: copyVal(sv.f[k])}
		}
		v := a[3].(Iface)
		switch {
		case isI:
			sv.f[k] = v
		case v.t == nil:
			sv.f[k] = zero(ft)
		default:
			sv.f[k] = copyVal(v.v)
		}
		return nil
	case "MkField":
		r := p.repoCall(fr, "Field", "Zero", p.curveK256())
		fset(p.findNative(r, ".Field"), F(0))
		return r
	case "FVal":
		return orc(fval(p, p.findNative(a[0], ".Field")))
	case "MkPoint":
		return p.mkPoint(fr, c.canon(S(0)))
	case "Point":
		return p.mkPoint(fr, p.newInput(str(a[0]), "P", SFQ, with(p.genFF(modQ))))
	case "PVal":
		return orc(ptDL(p, p.findNative(a[0], ".EllipticPoint")))
	case "PCoords":
		s := sfield(p.findNative(a[0], ".EllipticPoint"))
		x, y, z := fval(p, s.f[0]), fval(p, s.f[1]), fval(p, s.f[2])
		inf := p.boolOf(p.isZeroFF(z))
		if inf {
			return TupleV{orc(c.FFi(SFP, 0)), orc(c.FFi(SFP, 0)), true}
		}
		if !z.isC(1) && !(z.op == OIte) {
			zi := c.FInv(z)
			x, y = c.FMul(x, zi), c.FMul(y, zi)
		}
		return TupleV{orc(x), orc(y), false}
	}
	panic(unsupported("vsym function " + name))
}
