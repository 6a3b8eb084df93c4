package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- values of the symbolic interpreter ----

type Value interface{}

// Int is a concrete integer of width W (bits), stored truncated
type Int struct {
	W uint8
	V uint64
}

type StructV struct{ f []Value }
type ArrayV struct{ e []Value }

// Ptr points at a slot
type Ptr = *Value

// SliceV: off/n/cap are Int(64) or *Term(BV64)
type SliceV struct {
	arr  *ArrayV
	off  int
	n    int
	cap  int
	soff *Term // when non-nil the slice starts at off+soff and has length n-soff (symbolic leading offset)
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

// SymStr is a string with symbolic bytes
type SymStr struct{ b []Value }

type MapV struct {
	keys []Value
	vals []Value
	t    *types.Map
}

type TupleV []Value

// BigV is the content of a big.Int (kept in slot 1 of the struct); non-negative value term or concrete
type BigV struct {
	c *big.Int
	t *Term // BV(w)
}

// NativeObj is a host object with methods callable from the interpreted code
type NativeObj interface {
	call(p *Path, fr *frame, m string, args []Value) Value
}

type mapIter struct {
	m  *MapV
	i  int
	st []Value // string iteration
	s  Value
}

func mk(w int, v uint64) Int {
	if w < 64 {
		v &= (1 << uint(w)) - 1
	}
	return Int{uint8(w), v}
}
func i64(v int) Int { return Int{64, uint64(v)} }

func (i Int) signed() int64 {
	s := 64 - uint(i.W)
	return int64(i.V<<s) >> s
}

// intWidth returns (width, signed, ok)
func intWidth(t types.Type) (int, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func (p *Path) term(v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case Int:
		return p.c.BVu(int(x.W), x.V)
	case bool:
		return p.c.Bool(x)
	}
	panic(unsupported(fmt.Sprintf("term of %T", v)))
}

// norm turns constant BV<=64/Bool terms back into concrete values
func norm(t *Term) Value {
	if t.isConst() {
		switch t.sort.K {
		case KBool:
			return t.c.Sign() != 0
		case KBV:
			if t.sort.W <= 64 {
				return Int{uint8(t.sort.W), t.c.Uint64()}
			}
		}
	}
	return t
}

func zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		if t.Kind() == types.UntypedNil {
			return nil
		}
		if t.Info()&types.IsBoolean != 0 {
			return false
		}
		if t.Info()&types.IsString != 0 {
			return ""
		}
		if w, _, ok := intWidth(t); ok {
			return Int{uint8(w), 0}
		}
		if t.Info()&types.IsFloat != 0 {
			return float64(0)
		}
		return nil
	case *types.Pointer:
		return Ptr(nil)
	case *types.Struct:
		s := &StructV{f: make([]Value, t.NumFields())}
		for i := range s.f {
			s.f[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		a := &ArrayV{e: make([]Value, t.Len())}
		for i := range a.e {
			a.e[i] = zero(t.Elem())
		}
		return a
	case *types.Slice:
		return SliceV{}
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Signature:
		return nil
	case *types.Chan:
		return nil
	case *types.Tuple:
		r := make(TupleV, t.Len())
		for i := range r {
			r[i] = zero(t.At(i).Type())
		}
		return r
	}
	panic(unsupported("zero of " + t.String()))
}

// copyVal copies aggregates (value semantics)
func copyVal(v Value) Value {
	switch x := v.(type) {
	case *StructV:
		n := &StructV{f: make([]Value, len(x.f))}
		for i, e := range x.f {
			n.f[i] = copyVal(e)
		}
		return n
	case *ArrayV:
		n := &ArrayV{e: make([]Value, len(x.e))}
		for i, e := range x.e {
			n.e[i] = copyVal(e)
		}
		return n
	}
	return v
}

// store writes v into the slot keeping the identity of nested aggregates
func store(slot Ptr, v Value) {
	switch x := v.(type) {
	case *StructV:
		if d, ok := (*slot).(*StructV); ok && len(d.f) == len(x.f) {
			if d == x {
				return
			}
			for i := range d.f {
				store(&d.f[i], x.f[i])
			}
			return
		}
		*slot = copyVal(v)
		return
	case *ArrayV:
		if d, ok := (*slot).(*ArrayV); ok && len(d.e) == len(x.e) {
			if d == x {
				return
			}
			for i := range d.e {
				store(&d.e[i], x.e[i])
			}
			return
		}
		*slot = copyVal(v)
		return
	}
	*slot = v
}

// ---- errors used for control ----

type pathAbort struct {
	kind string // "infeasible", "unsupported", "limit"
	msg  string
}

func unsupported(s string) pathAbort { return pathAbort{"unsupported", s} }

type targetPanic struct {
	v     Iface
	where string
}

func panicText(v Iface) string {
	switch x := v.v.(type) {
	case string:
		return x
	case *StructV:
		return fmt.Sprintf("%v value", v.t)
	}
	return fmt.Sprintf("%v", v.t)
}

var rtErrType types.Type // runtime error stand-in (implements error)

func rtPanic(msg string) targetPanic {
	return targetPanic{v: Iface{types.Typ[types.String], "runtime error: " + msg}}
}

func valStr(v Value) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case Int:
		return strconv.FormatUint(x.V, 10)
	case *Term:
		return x.short()
	case SliceV:
		return fmt.Sprintf("slice[%d]", x.n)
	case string:
		return strconv.Quote(x)
	}
	return fmt.Sprintf("%T", v)
}

func (t *Term) short() string {
	s := t.String()
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

func (t *Term) String() string {
	var sb strings.Builder
	t.write(&sb, 0)
	return sb.String()
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OBAdd: "bvadd", OBSub: "bvsub", OBMul: "bvmul", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", OBShl: "shl", OBLshr: "lshr", OBAshr: "ashr", OBUdiv: "udiv", OBUrem: "urem", OBSdiv: "sdiv", OBSrem: "srem", OUle: "ule", OUlt: "ult", OSle: "sle", OSlt: "slt", OExtract: "extract", OConcat: "++", OSext: "sext", FAdd: "+", FMul: "*", FNeg: "-", FInv: "inv", OB2F: "b2f", OF2B: "f2b", OPX: "PX", OPY: "PY", OHash: "hash", OKS: "ks", OLZ: "lz", OSqrt: "sqrt", OIsSq: "issq", OPow: "pow", ODL: "dl"}

func (t *Term) write(sb *strings.Builder, d int) {
	if sb.Len() > 4000 {
		sb.WriteString("…")
		return
	}
	switch t.op {
	case OConst:
		if t.sort.K == KBool {
			fmt.Fprintf(sb, "%v", t.c.Sign() != 0)
			return
		}
		s := t.c.Text(16)
		if len(s) > 12 {
			s = s[:5] + ".." + s[len(s)-4:]
		}
		sb.WriteString("#" + s)
		return
	case OVar:
		sb.WriteString(t.name)
		return
	}
	if d > 12 {
		fmt.Fprintf(sb, "@%d", t.id)
		return
	}
	sb.WriteByte('(')
	sb.WriteString(opNames[t.op])
	if t.op == OExtract {
		fmt.Fprintf(sb, "[%d:%d]", t.i, t.j)
	}
	if t.name != "" {
		sb.WriteString(":" + t.name)
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		a.write(sb, d+1)
	}
	sb.WriteByte(')')
}
