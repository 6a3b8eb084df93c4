package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Model of github.com/fxamacker/cbor/v2 Marshal/Unmarshal on the item shapes this
// repository uses (ints, byte/text strings, arrays, struct maps, raw messages,
// custom marshalers), over bytes whose payload may be symbolic.

func cborHead(major int, n uint64) []Value {
	m := uint64(major) << 5
	b := func(xs ...uint64) []Value {
		var o []Value
		for _, x := range xs {
			o = append(o, Int{8, x & 0xff})
		}
		return o
	}
	switch {
	case n < 24:
		return b(m | n)
	case n < 1<<8:
		return b(m|24, n)
	case n < 1<<16:
		return b(m|25, n>>8, n)
	case n < 1<<32:
		return b(m|26, n>>24, n>>16, n>>8, n)
	}
	return b(m|27, n>>56, n>>48, n>>40, n>>32, n>>24, n>>16, n>>8, n)
}

func (p *Path) findMethod(t types.Type, name string) *ssa.Function {
	ms := p.eng.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			return p.eng.prog.MethodValue(s)
		}
	}
	return nil
}

type cborErr struct{ e Iface }

func (p *Path) cborEnc(fr *frame, t types.Type, v Value) []Value {
	if _, isI := t.Underlying().(*types.Interface); isI {
		x := v.(Iface)
		if x.t == nil {
			return []Value{Int{8, 0xf6}}
		}
		return p.cborEnc(fr, x.t, x.v)
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		q, _ := v.(Ptr)
		if q == nil {
			return []Value{Int{8, 0xf6}}
		}
		if m := p.findMethod(t, "MarshalCBOR"); m != nil {
			return p.cborCallMarshal(fr, m, v)
		}
		return p.cborEnc(fr, pt.Elem(), *q)
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Name() == "RawMessage" && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "cbor" {
		s := p.settle(v.(SliceV))
		if s.n == 0 {
			return []Value{Int{8, 0xf6}}
		}
		return append([]Value{}, s.vals()...)
	}
	if m := p.findMethod(t, "MarshalCBOR"); m != nil {
		return p.cborCallMarshal(fr, m, copyVal(v))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			b := strBytes(v)
			return append(cborHead(3, uint64(len(b))), b...)
		}
		if u.Info()&types.IsBoolean != 0 {
			if p.boolOf(v) {
				return []Value{Int{8, 0xf5}}
			}
			return []Value{Int{8, 0xf4}}
		}
		if w, signed, ok := intWidth(u); ok {
			k := mk(w, uint64(p.intOf(v)))
			if signed && k.signed() < 0 {
				return cborHead(1, uint64(-1-k.signed()))
			}
			return cborHead(0, k.V)
		}
	case *types.Slice:
		s, _ := v.(SliceV)
		s = p.settle(s)
		if s.arr == nil {
			return []Value{Int{8, 0xf6}}
		}
		if w, _, ok := intWidth(u.Elem()); ok && w == 8 {
			return append(cborHead(2, uint64(s.n)), s.vals()...)
		}
		out := cborHead(4, uint64(s.n))
		for _, e := range s.vals() {
			out = append(out, p.cborEnc(fr, u.Elem(), e)...)
		}
		return out
	case *types.Array:
		a := v.(*ArrayV)
		if w, _, ok := intWidth(u.Elem()); ok && w == 8 {
			return append(cborHead(2, uint64(len(a.e))), a.e...)
		}
		out := cborHead(4, uint64(len(a.e)))
		for _, e := range a.e {
			out = append(out, p.cborEnc(fr, u.Elem(), e)...)
		}
		return out
	case *types.Struct:
		s := v.(*StructV)
		var body []Value
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			n++
			body = append(body, cborHead(3, uint64(len(f.Name())))...)
			body = append(body, strBytes(f.Name())...)
			body = append(body, p.cborEnc(fr, f.Type(), s.f[i])...)
		}
		return append(cborHead(5, uint64(n)), body...)
	}
	panic(unsupported("cbor encode " + t.String()))
}

func (p *Path) cborCallMarshal(fr *frame, m *ssa.Function, v Value) []Value {
	r := p.call(fr, m, []Value{v}, nil).(TupleV)
	if e := r[1].(Iface); e.t != nil {
		panic(cborErr{e})
	}
	return append([]Value{}, p.settle(r[0].(SliceV)).vals()...)
}

type cborItem struct {
	major int
	val   uint64
	b     []Value // payload of strings
	kids  []*cborItem
	raw   []Value
}

func (p *Path) cborParse(b []Value, depth int) (*cborItem, []Value, string) {
	if len(b) == 0 {
		return nil, nil, "unexpected EOF"
	}
	if depth > 16 {
		return nil, nil, "cbor: exceeded max nested level"
	}
	h := uint64(p.intOf(b[0])) & 0xff
	it := &cborItem{major: int(h >> 5)}
	ai := h & 31
	rest := b[1:]
	need := 0
	switch {
	case ai < 24:
		it.val = ai
	case ai == 24:
		need = 1
	case ai == 25:
		need = 2
	case ai == 26:
		need = 4
	case ai == 27:
		need = 8
	case ai == 31:
		panic(unsupported("cbor indefinite length"))
	default:
		return nil, nil, "cbor: invalid additional information"
	}
	if need > 0 {
		if len(rest) < need {
			return nil, nil, "unexpected EOF"
		}
		for _, x := range rest[:need] {
			it.val = it.val<<8 | uint64(p.intOf(x))&0xff
		}
		rest = rest[need:]
	}
	switch it.major {
	case 0, 1, 7:
		if it.major == 7 && ai == 24 && it.val < 32 {
			return nil, nil, "cbor: invalid simple value"
		}
	case 2, 3:
		if uint64(len(rest)) < it.val {
			return nil, nil, "unexpected EOF"
		}
		it.b = rest[:it.val]
		rest = rest[it.val:]
	case 4, 5, 6:
		n := it.val
		if it.major == 5 {
			n *= 2
		}
		if it.major == 6 {
			n = 1
		}
		if n > 100000 {
			return nil, nil, "cbor: too many elements"
		}
		for i := uint64(0); i < n; i++ {
			k, r, e := p.cborParse(rest, depth+1)
			if e != "" {
				return nil, nil, e
			}
			it.kids = append(it.kids, k)
			rest = r
		}
	}
	it.raw = b[:len(b)-len(rest)]
	return it, rest, ""
}

// cborDec assigns an item to the slot of static type t; returns an error text
func (p *Path) cborDec(fr *frame, t types.Type, slot Ptr, it *cborItem) (Iface, string) {
	null := it.major == 7 && (it.val == 22 || it.val == 23)
	if _, isI := t.Underlying().(*types.Interface); isI {
		x := (*slot).(Iface)
		if x.t == nil {
			if null {
				return Iface{}, ""
			}
			panic(unsupported("cbor decode into nil interface"))
		}
		if null {
			*slot = Iface{}
			return Iface{}, ""
		}
		tmp := new(Value)
		*tmp = x.v
		return p.cborDec(fr, x.t, tmp, it)
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if null {
			*slot = Ptr(nil)
			return Iface{}, ""
		}
		q, _ := (*slot).(Ptr)
		if q == nil {
			q = new(Value)
			*q = zero(pt.Elem())
			*slot = q
		}
		return p.cborDec(fr, pt.Elem(), q, it)
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Name() == "RawMessage" && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "cbor" {
		*slot = mkSlice(append([]Value{}, it.raw...))
		return Iface{}, ""
	}
	if m := p.findMethod(types.NewPointer(t), "UnmarshalCBOR"); m != nil {
		r := p.call(fr, m, []Value{slot, mkSlice(append([]Value{}, it.raw...))}, nil)
		return r.(Iface), ""
	}
	bad := func() (Iface, string) {
		return Iface{}, fmt.Sprintf("cbor: cannot unmarshal major %d into %v", it.major, t)
	}
	if null {
		switch t.Underlying().(type) {
		case *types.Slice:
			*slot = SliceV{}
		}
		return Iface{}, ""
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, signed, ok := intWidth(u); ok {
			switch it.major {
			case 0:
				lim := new(big.Int).Lsh(big1, uint(w))
				if signed {
					lim.Rsh(lim, 1)
				}
				if new(big.Int).SetUint64(it.val).Cmp(lim) >= 0 {
					return bad()
				}
				*slot = mk(w, it.val)
				return Iface{}, ""
			case 1:
				if !signed || it.val>>(uint(w)-1) != 0 {
					return bad()
				}
				*slot = mk(w, ^it.val)
				return Iface{}, ""
			}
			return bad()
		}
		if u.Info()&types.IsString != 0 && it.major == 3 {
			*slot = mkStr(it.b)
			return Iface{}, ""
		}
		if u.Info()&types.IsBoolean != 0 && it.major == 7 && (it.val == 20 || it.val == 21) {
			*slot = it.val == 21
			return Iface{}, ""
		}
		return bad()
	case *types.Slice:
		if w, _, ok := intWidth(u.Elem()); ok && w == 8 && it.major == 2 {
			*slot = mkSlice(append([]Value{}, it.b...))
			return Iface{}, ""
		}
		if it.major != 4 {
			return bad()
		}
		s, _ := (*slot).(SliceV)
		if s.arr == nil || s.cap < len(it.kids) {
			a := &ArrayV{e: make([]Value, len(it.kids))}
			for i := range a.e {
				a.e[i] = zero(u.Elem())
			}
			s = SliceV{arr: a, n: len(it.kids), cap: len(it.kids)}
		}
		s.n = len(it.kids)
		*slot = s
		var first Iface
		var fs string
		for i, k := range it.kids {
			e, es := p.cborDec(fr, u.Elem(), &s.arr.e[s.off+i], k)
			if first.t == nil && fs == "" {
				first, fs = e, es
			}
		}
		return first, fs
	case *types.Array:
		a := (*slot).(*ArrayV)
		if w, _, ok := intWidth(u.Elem()); ok && w == 8 && it.major == 2 {
			for i := range a.e {
				if i < len(it.b) {
					a.e[i] = it.b[i]
				} else {
					a.e[i] = Int{8, 0}
				}
			}
			return Iface{}, ""
		}
		if it.major != 4 {
			return bad()
		}
		var first Iface
		var fs string
		for i := range a.e {
			if i < len(it.kids) {
				e, es := p.cborDec(fr, u.Elem(), &a.e[i], it.kids[i])
				if first.t == nil && fs == "" {
					first, fs = e, es
				}
			} else {
				a.e[i] = zero(u.Elem())
			}
		}
		return first, fs
	case *types.Struct:
		if it.major != 5 {
			return bad()
		}
		s := (*slot).(*StructV)
		var first Iface
		var fs string
		for i := 0; i+1 < len(it.kids); i += 2 {
			k := it.kids[i]
			if k.major != 3 {
				continue
			}
			name, ok := mkStr(k.b).(string)
			if !ok {
				panic(unsupported("cbor symbolic key"))
			}
			for j := 0; j < u.NumFields(); j++ {
				if u.Field(j).Exported() && u.Field(j).Name() == name {
					e, es := p.cborDec(fr, u.Field(j).Type(), &s.f[j], it.kids[i+1])
					if first.t == nil && fs == "" {
						first, fs = e, es
					}
				}
			}
		}
		return first, fs
	}
	panic(unsupported("cbor decode " + t.String()))
}

func init() {
	reg("github.com/fxamacker/cbor/v2.Marshal", func(p *Path, fr *frame, a []Value) (res Value, ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if ce, is := r.(cborErr); is {
					res, ok = TupleV{SliceV{}, ce.e}, true
					return
				}
				panic(r)
			}
		}()
		x := a[0].(Iface)
		var b []Value
		if x.t == nil {
			b = []Value{Int{8, 0xf6}}
		} else {
			b = p.cborEnc(fr, x.t, x.v)
		}
		return TupleV{mkSlice(b), Iface{}}, true
	})
	reg("github.com/fxamacker/cbor/v2.Unmarshal", func(p *Path, fr *frame, a []Value) (Value, bool) {
		data := append([]Value{}, p.settle(a[0].(SliceV)).vals()...)
		x := a[1].(Iface)
		pt, isP := x.t.Underlying().(*types.Pointer)
		if !isP {
			return errVal(p, "cbor: Unmarshal(non-pointer)"), true
		}
		if len(data) == 0 {
			return errVal(p, "EOF"), true
		}
		it, rest, e := p.cborParse(data, 0)
		if e != "" {
			return errVal(p, e), true
		}
		if len(rest) != 0 {
			return errVal(p, "cbor: extraneous data"), true
		}
		q, _ := x.v.(Ptr)
		if q == nil {
			return errVal(p, "cbor: Unmarshal(nil)"), true
		}
		ev, es := p.cborDec(fr, pt.Elem(), q, it)
		if es != "" {
			return errVal(p, es), true
		}
		return ev, true
	})
}
