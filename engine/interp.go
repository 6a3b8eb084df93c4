package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"reflect"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	p        *Path
	fn       *ssa.Function
	env      map[ssa.Value]Value
	block    *ssa.BasicBlock
	prev     *ssa.BasicBlock
	defers   []*deferred
	result   Value
	panicVal *targetPanic
	panicked bool
	caller   *frame
}

type deferred struct {
	fn   Value
	args []Value
	in   *ssa.Defer
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (fr *frame) get(v ssa.Value) Value {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		return fr.p.constVal(x)
	case *ssa.Global:
		return fr.p.global(x)
	case *ssa.Function:
		return x
	case *ssa.Builtin:
		return x
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(fmt.Sprintf("get: no value for %T %v in %v", v, v, fr.fn))
}

func (p *Path) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsBoolean != 0 {
			return constant.BoolVal(c.Value)
		}
		if b.Info()&types.IsString != 0 {
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		}
		if w, _, ok := intWidth(t); ok {
			iv := constant.ToInt(c.Value)
			if u, exact := constant.Uint64Val(iv); exact {
				return mk(w, u)
			}
			s, _ := constant.Int64Val(iv)
			return mk(w, uint64(s))
		}
		if b.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(c.Value)
			return f
		}
	}
	panic(unsupported("const " + c.String()))
}

// ---- calls ----

func (p *Path) call(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	name := p.eng.fnName(fn)
	if fn.Synthetic == "package initializer" && fn.Pkg != nil && !p.eng.initAllowed(fn.Pkg.Pkg.Path()) && p.lazy != fn.Pkg {
		return nil
	}
	if in := intrinsics[name]; in != nil {
		if r, ok := in(p, caller, args); ok {
			return r
		}
	}
	if fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "/vsym") {
		if fn.Parent() != nil {
			return p.callBody(caller, fn, args, env)
		}
		return p.vsymCall(caller, fn, args)
	}
	return p.callBody(caller, fn, args, env)
}

// callBody interprets the body of fn
func (p *Path) callBody(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	if fn.Blocks == nil {
		panic(unsupported("no body: " + p.eng.fnName(fn)))
	}
	if p.eng.denied(fn) {
		panic(unsupported("not modelled: " + p.eng.fnName(fn)))
	}
	if p.depth > 300 {
		panic(pathAbort{"limit", "recursion depth"})
	}
	p.depth++
	p.eng.cover(p, fn)
	fr := &frame{p: p, fn: fn, env: make(map[ssa.Value]Value, 16), caller: caller}
	for i, a := range fn.Params {
		fr.env[a] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = env[i]
	}
	fr.block = fn.Blocks[0]
	for fr.block != nil {
		fr.run()
	}
	p.depth--
	return fr.result
}

func (fr *frame) run() {
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r)
		}
		if tp.where == "" {
			tp.where = fr.p.stackPos(fr)
		}
		fr.p.depth = depthOf(fr)
		fr.panicked = true
		fr.panicVal = &tp
		fr.runDefers()
		fr.block = fr.fn.Recover
		if fr.block == nil {
			// recovered, no named results
			fr.result = zeroResult(fr.fn)
		}
	}()
	for {
		p := fr.p
		b := fr.block
		for _, ins := range b.Instrs {
			p.steps++
			if p.steps&1023 == 0 {
				if p.steps > p.maxSteps {
					panic(pathAbort{"limit", "steps"})
				}
				if time.Now().After(p.deadline) {
					panic(pathAbort{"limit", "time"})
				}
			}
			switch fr.visit(ins) {
			case kNext:
			case kReturn:
				fr.block = nil
				return
			case kJump:
				goto next
			}
		}
	next:
	}
}

func depthOf(fr *frame) int {
	n := 0
	for f := fr; f != nil; f = f.caller {
		n++
	}
	return n
}

func (p *Path) stackPos(fr *frame) string {
	var out []string
	for f := fr; f != nil && len(out) < 12; f = f.caller {
		out = append(out, f.fn.String())
	}
	return strings.Join(out, " < ")
}

func zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			defer func() {
				if !ok {
					r := recover()
					if tp, is := r.(targetPanic); is {
						fr.panicked = true
						fr.panicVal = &tp
						return
					}
					panic(r)
				}
			}()
			fr.p.callValue(fr, d.fn, d.args)
			ok = true
		}()
	}
	if fr.panicked {
		panic(*fr.panicVal)
	}
}

func (p *Path) callValue(fr *frame, fv Value, args []Value) Value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		return p.call(fr, f, args, nil)
	case *Closure:
		return p.call(fr, f.fn, args, f.env)
	case *ssa.Builtin:
		return p.builtin(fr, f, args, nil)
	case func(p *Path, fr *frame, args []Value) Value:
		return f(p, fr, args)
	case nil:
		panic(rtPanic("invalid memory address or nil pointer dereference (nil func)"))
	}
	panic(unsupported(fmt.Sprintf("call of %T", fv)))
}

func (fr *frame) prepareCall(c *ssa.CallCommon) (Value, []Value) {
	p := fr.p
	if c.Method == nil {
		fn := fr.get(c.Value)
		args := make([]Value, 0, len(c.Args))
		for _, a := range c.Args {
			args = append(args, fr.get(a))
		}
		return fn, args
	}
	recv := fr.get(c.Value)
	ifc, ok := recv.(Iface)
	if !ok {
		panic(unsupported(fmt.Sprintf("invoke on %T", recv)))
	}
	if ifc.t == nil {
		panic(rtPanic("invalid memory address or nil pointer dereference (nil interface)"))
	}
	args := []Value{ifc.v}
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	if no, ok := ifc.v.(NativeObj); ok {
		m := c.Method.Name()
		return func(p *Path, fr *frame, args []Value) Value {
			return no.call(p, fr, m, args[1:])
		}, args
	}
	fn := p.eng.lookupMethod(ifc.t, c.Method)
	if fn == nil {
		panic(unsupported(fmt.Sprintf("method %v on %v", c.Method, ifc.t)))
	}
	return fn, args
}

const (
	kNext = iota
	kReturn
	kJump
)

func (fr *frame) visit(instr ssa.Instruction) int {
	p := fr.p
	switch in := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.env[in] = fr.unop(in)
	case *ssa.BinOp:
		fr.env[in] = p.binop(in.Op, in.X.Type(), fr.get(in.X), fr.get(in.Y), in.Y.Type())
	case *ssa.Call:
		fn, args := fr.prepareCall(&in.Call)
		if b, ok := fn.(*ssa.Builtin); ok {
			fr.env[in] = p.builtin(fr, b, args, in.Call.Args)
		} else {
			fr.env[in] = p.callValue(fr, fn, args)
		}
	case *ssa.ChangeInterface:
		fr.env[in] = fr.get(in.X)
	case *ssa.ChangeType:
		fr.env[in] = fr.get(in.X)
	case *ssa.Convert:
		fr.env[in] = p.convert(in.Type(), in.X.Type(), fr.get(in.X))
	case *ssa.MultiConvert:
		fr.env[in] = p.convert(in.Type(), in.X.Type(), fr.get(in.X))
	case *ssa.SliceToArrayPointer:
		fr.env[in] = p.sliceToArrayPtr(in.Type(), fr.get(in.X))
	case *ssa.MakeInterface:
		fr.env[in] = Iface{in.X.Type(), copyVal(fr.get(in.X))}
	case *ssa.Extract:
		fr.env[in] = fr.get(in.Tuple).(TupleV)[in.Index]
	case *ssa.Slice:
		fr.env[in] = fr.slice(in)
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
		case 1:
			fr.result = copyVal(fr.get(in.Results[0]))
		default:
			r := make(TupleV, len(in.Results))
			for i, x := range in.Results {
				r[i] = copyVal(fr.get(x))
			}
			fr.result = r
		}
		return kReturn
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		v, _ := fr.get(in.X).(Iface)
		panic(targetPanic{v: v, where: p.stackPos(fr)})
	case *ssa.Store:
		slot, ok := fr.get(in.Addr).(Ptr)
		if !ok || slot == nil {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		store(slot, fr.get(in.Val))
	case *ssa.If:
		cv := fr.get(in.Cond)
		if t, ok := cv.(*Term); ok {
			if v, k := p.known(t); k {
				cv = v
			}
		}
		if t, ok := cv.(*Term); ok {
			if k, done := fr.tryMerge(in, t); done {
				return k
			}
		}
		succ := 1
		if p.boolOf(cv) {
			succ = 0
		}
		fr.jump(fr.block.Succs[succ])
		return kJump
	case *ssa.Jump:
		fr.jump(fr.block.Succs[0])
		return kJump
	case *ssa.Defer:
		fn, args := fr.prepareCall(&in.Call)
		fr.defers = append(fr.defers, &deferred{fn, args, in})
	case *ssa.Go:
		panic(unsupported("goroutine"))
	case *ssa.Alloc:
		s := new(Value)
		*s = zero(deref(in.Type()))
		fr.env[in] = s
	case *ssa.MakeSlice:
		n := p.intOf(fr.get(in.Len))
		cp := p.intOf(fr.get(in.Cap))
		if n < 0 || n > 1<<24 {
			panic(rtPanic("makeslice: len out of range"))
		}
		if cp < n || cp > 1<<24 {
			panic(rtPanic("makeslice: cap out of range"))
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		a := &ArrayV{e: make([]Value, cp)}
		for i := range a.e {
			a.e[i] = zero(et)
		}
		fr.env[in] = SliceV{arr: a, n: n, cap: cp}
	case *ssa.MakeMap:
		fr.env[in] = &MapV{t: in.Type().Underlying().(*types.Map)}
	case *ssa.MakeClosure:
		cl := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			cl.env = append(cl.env, fr.get(b))
		}
		fr.env[in] = cl
	case *ssa.FieldAddr:
		x, _ := fr.get(in.X).(Ptr)
		if x == nil {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		s, ok := (*x).(*StructV)
		if !ok {
			panic(unsupported(fmt.Sprintf("fieldaddr on %T (%v)", *x, in.X.Type())))
		}
		fr.env[in] = Ptr(&s.f[in.Field])
	case *ssa.Field:
		s, ok := fr.get(in.X).(*StructV)
		if !ok {
			panic(unsupported(fmt.Sprintf("field on %T", fr.get(in.X))))
		}
		fr.env[in] = copyVal(s.f[in.Field])
	case *ssa.IndexAddr:
		fr.env[in] = fr.indexAddr(in)
	case *ssa.Index:
		x := fr.get(in.X)
		switch a := x.(type) {
		case *ArrayV:
			i := p.index(fr.get(in.Index), len(a.e))
			fr.env[in] = copyVal(a.e[i])
		case string, *SymStr:
			b := strBytes(a)
			i := p.index(fr.get(in.Index), len(b))
			fr.env[in] = b[i]
		default:
			panic(unsupported(fmt.Sprintf("index %T", x)))
		}
	case *ssa.Lookup:
		fr.env[in] = fr.lookup(in)
	case *ssa.MapUpdate:
		m, _ := fr.get(in.Map).(*MapV)
		if m == nil {
			panic(targetPanic{v: Iface{types.Typ[types.String], "assignment to entry in nil map"}})
		}
		p.mapSet(m, fr.get(in.Key), copyVal(fr.get(in.Value)))
	case *ssa.TypeAssert:
		fr.env[in] = p.typeAssert(in, fr.get(in.X).(Iface))
	case *ssa.Range:
		switch x := fr.get(in.X).(type) {
		case *MapV:
			fr.env[in] = &mapIter{m: x}
		case string, *SymStr:
			panic(unsupported("range over string"))
		}
	case *ssa.Next:
		it := fr.get(in.Iter).(*mapIter)
		if it.m == nil || it.i >= len(it.m.keys) {
			tt := in.Type().(*types.Tuple)
			fr.env[in] = TupleV{false, zeroOrNil(tt.At(1).Type()), zeroOrNil(tt.At(2).Type())}
		} else {
			fr.env[in] = TupleV{true, it.m.keys[it.i], copyVal(it.m.vals[it.i])}
			it.i++
		}
	case *ssa.Phi:
		// evaluated at block entry
	default:
		panic(unsupported(fmt.Sprintf("instr %T", instr)))
	}
	return kNext
}

func zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

func (fr *frame) jump(to *ssa.BasicBlock) {
	fr.prev, fr.block = fr.block, to
	// phis in parallel
	var vals []Value
	n := 0
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		for i, pr := range to.Preds {
			if pr == fr.prev {
				vals = append(vals, fr.get(ph.Edges[i]))
				break
			}
		}
	}
	for i := 0; i < n; i++ {
		fr.env[to.Instrs[i].(*ssa.Phi)] = vals[i]
	}
}

// tryMerge if-converts side-effect free regions (up to the immediate postdominator, or to returns) into ite terms
func (fr *frame) tryMerge(in *ssa.If, cond *Term) (int, bool) {
	b := fr.block
	if b.Succs[0] == b.Succs[1] {
		return 0, false
	}
	p := fr.p
	join := p.eng.postdom(b)
	sv := fr.snapshot()
	svPrev, svNF := fr.prev, p.noFork
	p.noFork = true
	budget := 40
	var res []Value
	good := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case mergeFail, targetPanic:
				case pathAbort:
					if pa := r.(pathAbort); pa.kind == "limit" {
						panic(r)
					}
				default:
					panic(r)
				}
				ok = false
			}
		}()
		res, ok = fr.regionIf(b, cond, join, b, &budget)
		return
	}()
	p.noFork = svNF
	fr.prev = svPrev
	if !good {
		if svNF {
			panic(mergeFail{})
		}
		fr.env = sv
		return 0, false
	}
	if join == nil {
		switch len(res) {
		case 0:
			fr.result = nil
		case 1:
			fr.result = res[0]
		default:
			fr.result = TupleV(res)
		}
		return kReturn, true
	}
	i := 0
	for _, ins := range join.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		fr.env[ph] = res[i]
		i++
	}
	fr.prev, fr.block = b, join
	return kJump, true
}

type mergeFail struct{}

func (fr *frame) regionIf(b *ssa.BasicBlock, cond *Term, join, top *ssa.BasicBlock, budget *int) ([]Value, bool) {
	p := fr.p
	with := func(t *Term, to *ssa.BasicBlock) ([]Value, bool) {
		if p.pcSet[p.c.Not(t).id] || t.isFalse() {
			return nil, false
		}
		had := p.pcSet[t.id]
		p.pcSet[t.id] = true
		defer func() {
			if !had {
				delete(p.pcSet, t.id)
			}
		}()
		return fr.region(to, b, join, top, budget)
	}
	x, ok := with(cond, b.Succs[0])
	if !ok {
		return nil, false
	}
	y, ok := with(p.c.Not(cond), b.Succs[1])
	if !ok || len(x) != len(y) {
		return nil, false
	}
	r := make([]Value, len(x))
	for i := range x {
		m, ok := p.mergeVal(cond, x[i], y[i])
		if !ok {
			return nil, false
		}
		r[i] = m
	}
	return r, true
}

func (fr *frame) region(b, prev, join, top *ssa.BasicBlock, budget *int) ([]Value, bool) {
	p := fr.p
	*budget--
	if *budget < 0 {
		return nil, false
	}
	var vals []Value
	n := 0
	for _, ins := range b.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		for i, pr := range b.Preds {
			if pr == prev {
				vals = append(vals, fr.get(ph.Edges[i]))
				break
			}
		}
	}
	if b == join {
		return vals, true
	}
	if b == top || join != nil && b.Dominates(join) || !pureBody(b.Instrs[n:len(b.Instrs)-1]) {
		return nil, false
	}
	for i := 0; i < n; i++ {
		fr.env[b.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	fr.prev = prev
	for _, i := range b.Instrs[n : len(b.Instrs)-1] {
		fr.visit(i)
	}
	switch in := b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Return:
		if join != nil {
			return nil, false
		}
		r := make([]Value, len(in.Results))
		for i, x := range in.Results {
			r[i] = fr.get(x)
		}
		return r, true
	case *ssa.Jump:
		return fr.region(b.Succs[0], b, join, top, budget)
	case *ssa.If:
		cv := fr.get(in.Cond)
		t, ok := cv.(*Term)
		if ok {
			if v, k := p.known(t); k {
				cv, ok = v, false
			}
		}
		if !ok {
			k := 1
			if cv.(bool) {
				k = 0
			}
			return fr.region(b.Succs[k], b, join, top, budget)
		}
		return fr.regionIf(b, t, join, top, budget)
	}
	return nil, false
}

// postdom is the immediate postdominator of b (nil: the function exit)
func (e *Engine) postdom(b *ssa.BasicBlock) *ssa.BasicBlock {
	if v, ok := e.pdom.Load(b); ok {
		r, _ := v.(*ssa.BasicBlock)
		return r
	}
	bs := b.Parent().Blocks
	n := len(bs)
	// sets of postdominators as bit vectors; index n is the exit
	set := make([][]bool, n)
	for i := range set {
		set[i] = make([]bool, n)
		for j := range set[i] {
			set[i][j] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			nw := make([]bool, n)
			if len(bs[i].Succs) > 0 {
				copy(nw, set[bs[i].Succs[0].Index])
				for _, s := range bs[i].Succs[1:] {
					for j := range nw {
						nw[j] = nw[j] && set[s.Index][j]
					}
				}
			}
			nw[i] = true
			for j := range nw {
				if nw[j] != set[i][j] {
					ch = true
				}
			}
			set[i] = nw
		}
	}
	for _, x := range bs {
		var r *ssa.BasicBlock
		// the strict postdominator that is postdominated by all the others
		for j := range bs {
			if j == x.Index || !set[x.Index][j] {
				continue
			}
			if r == nil || !set[r.Index][j] {
				r = bs[j]
			}
		}
		e.pdom.Store(x, r)
	}
	v, _ := e.pdom.Load(b)
	r, _ := v.(*ssa.BasicBlock)
	return r
}

func (fr *frame) snapshot() map[ssa.Value]Value {
	m := make(map[ssa.Value]Value, len(fr.env))
	for k, v := range fr.env {
		m[k] = v
	}
	return m
}

func pureBody(ins []ssa.Instruction) bool {
	if len(ins) > 30 {
		return false
	}
	for _, i := range ins {
		switch x := i.(type) {
		case *ssa.DebugRef, *ssa.ChangeType, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Extract:
		case *ssa.BinOp:
			switch x.Op {
			case token.QUO, token.REM:
				return false
			}
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
		case *ssa.Convert:
			if _, _, ok := intWidth(x.Type()); !ok {
				return false
			}
			if _, _, ok := intWidth(x.X.Type()); !ok {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (p *Path) mergeVal(cond *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case Int:
		switch y := b.(type) {
		case Int:
			if x == y {
				return x, true
			}
			return norm(p.c.Ite(cond, p.term(x), p.term(y))), true
		case *Term:
			return norm(p.c.Ite(cond, p.term(x), y)), true
		}
		return nil, false
	case bool:
		switch b.(type) {
		case bool, *Term:
			return norm(p.c.Ite(cond, p.term(x), p.term(b))), true
		}
		return nil, false
	case *Term:
		switch b.(type) {
		case bool, *Term, Int:
			return norm(p.c.Ite(cond, x, p.term(b))), true
		}
		return nil, false
	case string:
		if y, ok := b.(string); ok && x == y {
			return a, true
		}
		return nil, false
	case Iface:
		y, ok := b.(Iface)
		if ok && x.t == nil && y.t == nil {
			return a, true
		}
		return nil, false
	case Ptr:
		y, ok := b.(Ptr)
		if ok && x == y {
			return a, true
		}
		return nil, false
	}
	return nil, false
}

// ---- operators ----

func (fr *frame) unop(in *ssa.UnOp) Value {
	p := fr.p
	x := fr.get(in.X)
	switch in.Op {
	case token.MUL:
		s, _ := x.(Ptr)
		if s == nil {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		return copyVal(*s)
	case token.NOT:
		switch b := x.(type) {
		case bool:
			return !b
		case *Term:
			return norm(p.c.Not(b))
		}
	case token.SUB:
		switch b := x.(type) {
		case Int:
			return mk(int(b.W), -b.V)
		case *Term:
			return norm(p.c.BVSub(p.c.BVu(b.sort.W, 0), b))
		case float64:
			return -b
		}
	case token.XOR:
		switch b := x.(type) {
		case Int:
			return mk(int(b.W), ^b.V)
		case *Term:
			return norm(p.c.BVNot(b))
		}
	}
	panic(unsupported(fmt.Sprintf("unop %v %T", in.Op, x)))
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		out := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = Int{8, uint64(s[i])}
		}
		return out
	case *SymStr:
		return s.b
	}
	panic(unsupported(fmt.Sprintf("strBytes %T", v)))
}

func mkStr(b []Value) Value {
	out := make([]byte, len(b))
	for i, x := range b {
		c, ok := x.(Int)
		if !ok {
			return &SymStr{b: append([]Value{}, b...)}
		}
		out[i] = byte(c.V)
	}
	return string(out)
}

func (p *Path) catBytes(b []Value) *Term {
	ts := make([]*Term, len(b))
	for i, x := range b {
		ts[i] = p.term(x)
	}
	return p.c.Concat(ts...)
}

func (p *Path) bytesEq(a, b []Value) Value {
	if len(a) != len(b) {
		return false
	}
	if len(a) == 0 {
		return true
	}
	return norm(p.c.Eq(p.catBytes(a), p.catBytes(b)))
}

// bytesLess is lexicographic a<b
func (p *Path) bytesLess(a, b []Value) Value {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	tail := len(a) < len(b)
	if n == 0 {
		return tail
	}
	x, y := p.catBytes(a[:n]), p.catBytes(b[:n])
	lt := p.c.Ult(x, y)
	if tail {
		return norm(p.c.Or(lt, p.c.Eq(x, y)))
	}
	return norm(lt)
}

func (p *Path) binop(op token.Token, xt types.Type, x, y Value, yt types.Type) Value {
	switch op {
	case token.EQL:
		return p.equal(xt, x, y)
	case token.NEQ:
		switch e := p.equal(xt, x, y).(type) {
		case bool:
			return !e
		case *Term:
			return norm(p.c.Not(e))
		}
	}
	if b, ok := xt.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			xs, ok1 := x.(string)
			ys, ok2 := y.(string)
			if ok1 && ok2 {
				return xs + ys
			}
			return mkStr(append(append([]Value{}, strBytes(x)...), strBytes(y)...))
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			xs, ok1 := x.(string)
			ys, ok2 := y.(string)
			if ok1 && ok2 {
				switch op {
				case token.LSS:
					return xs < ys
				case token.GTR:
					return xs > ys
				case token.LEQ:
					return xs <= ys
				default:
					return xs >= ys
				}
			}
			bx, by := strBytes(x), strBytes(y)
			neg := false
			if op == token.GTR || op == token.LEQ {
				bx, by = by, bx
			}
			if op == token.LEQ || op == token.GEQ {
				neg = true
			}
			r := p.bytesLess(bx, by)
			if neg {
				return norm(p.c.Not(p.term(r)))
			}
			return r
		}
	}
	w, signed, ok := intWidth(xt)
	if !ok {
		if b, isb := x.(bool); isb {
			if c, isc := y.(bool); isc {
				switch op {
				case token.AND:
					return b && c
				case token.OR:
					return b || c
				}
			}
		}
		if fx, is := x.(float64); is {
			fy := y.(float64)
			switch op {
			case token.ADD:
				return fx + fy
			case token.SUB:
				return fx - fy
			case token.MUL:
				return fx * fy
			case token.QUO:
				return fx / fy
			case token.LSS:
				return fx < fy
			case token.GTR:
				return fx > fy
			case token.LEQ:
				return fx <= fy
			case token.GEQ:
				return fx >= fy
			}
		}
		panic(unsupported(fmt.Sprintf("binop %v on %v", op, xt)))
	}
	a, ok1 := x.(Int)
	b, ok2 := y.(Int)
	if op == token.SHL || op == token.SHR {
		return p.shift(op, w, signed, x, y, yt)
	}
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return mk(w, a.V+b.V)
		case token.SUB:
			return mk(w, a.V-b.V)
		case token.MUL:
			return mk(w, a.V*b.V)
		case token.QUO, token.REM:
			if b.V == 0 {
				panic(rtPanic("integer divide by zero"))
			}
			if signed {
				if b.signed() == -1 {
					if op == token.QUO {
						return mk(w, -a.V)
					}
					return mk(w, 0)
				}
				if op == token.QUO {
					return mk(w, uint64(a.signed()/b.signed()))
				}
				return mk(w, uint64(a.signed()%b.signed()))
			}
			if op == token.QUO {
				return mk(w, a.V/b.V)
			}
			return mk(w, a.V%b.V)
		case token.AND:
			return mk(w, a.V&b.V)
		case token.OR:
			return mk(w, a.V|b.V)
		case token.XOR:
			return mk(w, a.V^b.V)
		case token.AND_NOT:
			return mk(w, a.V&^b.V)
		case token.LSS:
			if signed {
				return a.signed() < b.signed()
			}
			return a.V < b.V
		case token.LEQ:
			if signed {
				return a.signed() <= b.signed()
			}
			return a.V <= b.V
		case token.GTR:
			if signed {
				return a.signed() > b.signed()
			}
			return a.V > b.V
		case token.GEQ:
			if signed {
				return a.signed() >= b.signed()
			}
			return a.V >= b.V
		}
		panic(unsupported("binop " + op.String()))
	}
	c := p.c
	s, t := p.term(x), p.term(y)
	switch op {
	case token.ADD:
		return norm(c.BVAdd(s, t))
	case token.SUB:
		return norm(c.BVSub(s, t))
	case token.MUL:
		return norm(c.BVMul(s, t))
	case token.QUO, token.REM:
		if p.boolOf(norm(c.Eq(t, c.BVu(w, 0)))) {
			panic(rtPanic("integer divide by zero"))
		}
		if signed {
			half := new(big.Int).Lsh(big1, uint(w-1))
			_, h1 := rng(s)
			_, h2 := rng(t)
			if h1.Cmp(half) < 0 && h2.Cmp(half) < 0 {
				signed = false
			}
		}
		o := map[bool]Op{true: OBSdiv, false: OBUdiv}[signed]
		if op == token.REM {
			o = map[bool]Op{true: OBSrem, false: OBUrem}[signed]
		}
		return norm(c.divrem(o, s, t))
	case token.AND:
		return norm(c.bitwise(OBAnd, s, t))
	case token.OR:
		return norm(c.bitwise(OBOr, s, t))
	case token.XOR:
		return norm(c.bitwise(OBXor, s, t))
	case token.AND_NOT:
		return norm(c.bitwise(OBAnd, s, c.BVNot(t)))
	case token.LSS:
		if signed {
			return norm(c.Slt(s, t))
		}
		return norm(c.Ult(s, t))
	case token.LEQ:
		if signed {
			return norm(c.Sle(s, t))
		}
		return norm(c.Ule(s, t))
	case token.GTR:
		if signed {
			return norm(c.Slt(t, s))
		}
		return norm(c.Ult(t, s))
	case token.GEQ:
		if signed {
			return norm(c.Sle(t, s))
		}
		return norm(c.Ule(t, s))
	}
	panic(unsupported("binop " + op.String()))
}

func (p *Path) shift(op token.Token, w int, signed bool, x, y Value, yt types.Type) Value {
	_, ys, _ := intWidth(yt)
	if b, ok := y.(Int); ok {
		if ys && b.signed() < 0 {
			panic(rtPanic("negative shift amount"))
		}
		if a, ok := x.(Int); ok {
			k := b.V
			if op == token.SHL {
				if k >= 64 {
					return mk(w, 0)
				}
				return mk(w, a.V<<k)
			}
			if signed {
				if k > 63 {
					k = 63
				}
				return mk(w, uint64(a.signed()>>k))
			}
			if k >= 64 {
				return mk(w, 0)
			}
			return mk(w, a.V>>k)
		}
		t := p.term(x)
		k := b.V
		if k > 1000 {
			k = 1000
		}
		kt := p.c.BV(w, new(big.Int).SetUint64(k))
		if k >= uint64(w) {
			if op == token.SHR && signed {
				kt = p.c.BVu(w, uint64(w-1))
			} else {
				return mk(w, 0)
			}
		}
		if op == token.SHL {
			return norm(p.c.Shl(t, kt))
		}
		if signed {
			_, h := rng(t)
			if h.BitLen() < w {
				return norm(p.c.Lshr(t, kt))
			}
			return norm(p.c.Ashr(t, kt))
		}
		return norm(p.c.Lshr(t, kt))
	}
	// symbolic shift count: bring to width w with saturation
	yt2 := p.term(y)
	if ys {
		if p.boolOf(norm(p.c.Slt(yt2, p.c.BVu(yt2.sort.W, 0)))) {
			panic(rtPanic("negative shift amount"))
		}
	}
	var cnt *Term
	if yt2.sort.W <= w {
		cnt = p.c.Zext(yt2, w)
	} else {
		big := p.c.Ult(p.c.BVu(yt2.sort.W, uint64(w)), yt2)
		cnt = p.c.Ite(big, p.c.BVu(w, uint64(w)), p.c.Extract(yt2, w-1, 0))
	}
	t := p.term(x)
	if op == token.SHL {
		return norm(p.c.Shl(t, cnt))
	}
	if signed {
		return norm(p.c.Ashr(t, cnt))
	}
	return norm(p.c.Lshr(t, cnt))
}

// equal compares two values of static type t
func (p *Path) equal(t types.Type, x, y Value) Value {
	switch a := x.(type) {
	case Int, *Term:
		if ai, ok := x.(Int); ok {
			if bi, ok := y.(Int); ok {
				return ai.V == bi.V
			}
		}
		return norm(p.c.Eq(p.term(x), p.term(y)))
	case bool:
		if b, ok := y.(bool); ok {
			return a == b
		}
		return norm(p.c.Eq(p.term(x), p.term(y)))
	case string:
		if b, ok := y.(string); ok {
			return a == b
		}
		return p.bytesEq(strBytes(x), strBytes(y))
	case *SymStr:
		return p.bytesEq(strBytes(x), strBytes(y))
	case Ptr:
		b, ok := y.(Ptr)
		if !ok {
			return a == nil && y == nil
		}
		return a == b
	case Iface:
		switch b := y.(type) {
		case Iface:
			if a.t == nil || b.t == nil {
				return a.t == nil && b.t == nil
			}
			if !types.Identical(a.t, b.t) {
				return false
			}
			if na, ok := a.v.(NativeObj); ok {
				nb, _ := b.v.(NativeObj)
				return na == nb
			}
			return p.equal(a.t, a.v, b.v)
		case nil:
			return a.t == nil
		}
	case *StructV:
		b := y.(*StructV)
		st := t.Underlying().(*types.Struct)
		acc := p.c.True()
		for i := range a.f {
			e := p.equal(st.Field(i).Type(), a.f[i], b.f[i])
			acc = p.c.And(acc, p.term(e))
		}
		return norm(acc)
	case *ArrayV:
		b := y.(*ArrayV)
		et := t.Underlying().(*types.Array).Elem()
		if isFieldTerm(a) || isFieldTerm(b) {
			panic(unsupported("raw comparison of field limbs"))
		}
		acc := p.c.True()
		for i := range a.e {
			acc = p.c.And(acc, p.term(p.equal(et, a.e[i], b.e[i])))
		}
		return norm(acc)
	case SliceV:
		return a.arr == nil // comparison with nil only
	case *MapV:
		return a == nil
	case *Closure, *ssa.Function:
		return false
	case float64:
		return a == y.(float64)
	case nil:
		switch b := y.(type) {
		case nil:
			return true
		case SliceV:
			return b.arr == nil
		case *MapV:
			return b == nil
		case Ptr:
			return b == nil
		case Iface:
			return b.t == nil
		}
		return false
	}
	panic(unsupported(fmt.Sprintf("equal %T %T", x, y)))
}

func isFieldTerm(v Value) bool {
	t, ok := v.(*Term)
	return ok && t.sort.isFF()
}

func (p *Path) index(iv Value, n int) int {
	if t, ok := iv.(*Term); ok {
		if !p.boolOf(norm(p.c.Ult(t, p.c.BV(t.sort.W, big.NewInt(int64(n)))))) {
			panic(rtPanic("index out of range"))
		}
		return int(p.concretize(t))
	}
	i := iv.(Int)
	k := i.signed()
	if k < 0 || k >= int64(n) {
		panic(rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, n)))
	}
	return int(k)
}

func (p *Path) settle(s SliceV) SliceV {
	if s.soff == nil {
		return s
	}
	k := int(p.concretize(s.soff))
	return SliceV{arr: s.arr, off: s.off + k, n: s.n - k, cap: s.cap - k}
}

func (fr *frame) indexAddr(in *ssa.IndexAddr) Value {
	p := fr.p
	switch x := fr.get(in.X).(type) {
	case SliceV:
		x = p.settle(x)
		i := p.index(fr.get(in.Index), x.n)
		return Ptr(&x.arr.e[x.off+i])
	case Ptr:
		if x == nil {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		a, ok := (*x).(*ArrayV)
		if !ok {
			panic(unsupported(fmt.Sprintf("indexaddr on %T", *x)))
		}
		i := p.index(fr.get(in.Index), len(a.e))
		return Ptr(&a.e[i])
	}
	panic(unsupported(fmt.Sprintf("indexaddr %T", fr.get(in.X))))
}

func (fr *frame) slice(in *ssa.Slice) Value {
	p := fr.p
	x := fr.get(in.X)
	var arr *ArrayV
	var off, n, cp int
	switch a := x.(type) {
	case string, *SymStr:
		b := strBytes(a)
		lo, hi := 0, len(b)
		if in.Low != nil {
			lo = p.intOf(fr.get(in.Low))
		}
		if in.High != nil {
			hi = p.intOf(fr.get(in.High))
		}
		if lo < 0 || hi < lo || hi > len(b) {
			panic(rtPanic("slice bounds out of range"))
		}
		return mkStr(b[lo:hi])
	case SliceV:
		if a.soff != nil && in.Low == nil && in.High == nil {
			return a
		}
		a = p.settle(a)
		arr, off, n, cp = a.arr, a.off, a.n, a.cap
	case Ptr:
		if a == nil {
			panic(rtPanic("invalid memory address or nil pointer dereference"))
		}
		av, ok := (*a).(*ArrayV)
		if !ok {
			panic(unsupported(fmt.Sprintf("slice of %T", *a)))
		}
		arr, off, n, cp = av, 0, len(av.e), len(av.e)
	default:
		panic(unsupported(fmt.Sprintf("slice of %T", x)))
	}
	lo, hi, mx := 0, n, cp
	if in.High != nil {
		hi = p.intOf(fr.get(in.High))
	}
	if in.Max != nil {
		mx = p.intOf(fr.get(in.Max))
	}
	if mx < 0 || mx > cp || hi < 0 || hi > mx {
		panic(rtPanic("slice bounds out of range"))
	}
	if in.Low != nil {
		lv := fr.get(in.Low)
		if t, ok := lv.(*Term); ok {
			// symbolic leading offset (left padding idiom)
			l, h := rng(t)
			_, isInt := arr.elem0().(Int)
			_, isTerm := arr.elem0().(*Term)
			if (isInt || isTerm) && l.Sign() >= 0 && h.Cmp(big.NewInt(int64(hi))) <= 0 {
				return SliceV{arr: arr, off: off, n: hi, cap: mx, soff: t}
			}
			lo = p.intOf(lv)
		} else {
			lo = p.intOf(lv)
		}
	}
	if lo < 0 || lo > hi {
		panic(rtPanic("slice bounds out of range"))
	}
	if arr == nil {
		return SliceV{}
	}
	return SliceV{arr: arr, off: off + lo, n: hi - lo, cap: mx - lo}
}

func (s SliceV) vals() []Value {
	if s.arr == nil {
		return nil
	}
	return s.arr.e[s.off : s.off+s.n]
}

func (p *Path) sliceToArrayPtr(t types.Type, x Value) Value {
	s := p.settle(x.(SliceV))
	at := deref(t).Underlying().(*types.Array)
	n := int(at.Len())
	if s.n < n {
		panic(rtPanic("cannot convert slice to array pointer: length mismatch"))
	}
	if s.off == 0 && len(s.arr.e) == n {
		v := new(Value)
		*v = s.arr
		return Ptr(v)
	}
	// alias through an ArrayV view sharing storage
	v := new(Value)
	*v = &ArrayV{e: s.arr.e[s.off : s.off+n : s.off+n]}
	return Ptr(v)
}

func (p *Path) convert(to, from types.Type, x Value) Value {
	ut, uf := to.Underlying(), from.Underlying()
	if w, _, ok := intWidth(ut); ok {
		fw, fs, ok2 := intWidth(uf)
		if ok2 {
			switch a := x.(type) {
			case Int:
				if fs {
					return mk(w, uint64(a.signed()))
				}
				return mk(w, a.V)
			case *Term:
				_ = fw
				if w <= a.sort.W {
					return norm(p.c.Extract(a, w-1, 0))
				}
				if fs {
					return norm(p.c.Sext(a, w))
				}
				return norm(p.c.Zext(a, w))
			}
		}
		if f, ok := x.(float64); ok {
			return mk(w, uint64(int64(f)))
		}
	}
	if b, ok := ut.(*types.Basic); ok {
		if b.Info()&types.IsString != 0 {
			switch a := x.(type) {
			case SliceV:
				return mkStr(p.settle(a).vals())
			case string, *SymStr:
				return a
			case Int:
				return string(rune(a.signed()))
			}
		}
		if b.Info()&types.IsFloat != 0 {
			switch a := x.(type) {
			case Int:
				return float64(a.signed())
			case float64:
				return a
			}
		}
		if b.Kind() == types.UnsafePointer {
			return x
		}
	}
	if st, ok := ut.(*types.Slice); ok {
		if w, _, ok := intWidth(st.Elem()); ok && w == 8 {
			switch x.(type) {
			case string, *SymStr:
				b := strBytes(x)
				return SliceV{arr: &ArrayV{e: append([]Value{}, b...)}, n: len(b), cap: len(b)}
			}
		}
	}
	if _, ok := ut.(*types.Pointer); ok {
		return x
	}
	if _, ok := ut.(*types.Array); ok {
		if s, ok := x.(SliceV); ok {
			return copyVal(*(p.sliceToArrayPtr(types.NewPointer(to), s).(Ptr)))
		}
	}
	panic(unsupported(fmt.Sprintf("convert %v -> %v (%T)", from, to, x)))
}

func (p *Path) mapFind(m *MapV, k Value) int {
	if m == nil {
		return -1
	}
	for i, q := range m.keys {
		e := p.equal(m.t.Key(), q, k)
		if p.boolOf(e) {
			return i
		}
	}
	return -1
}
func (p *Path) mapSet(m *MapV, k, v Value) {
	if i := p.mapFind(m, k); i >= 0 {
		m.vals[i] = v
		return
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
}

func (fr *frame) lookup(in *ssa.Lookup) Value {
	p := fr.p
	x := fr.get(in.X)
	switch a := x.(type) {
	case string, *SymStr:
		b := strBytes(a)
		return b[p.index(fr.get(in.Index), len(b))]
	case *MapV:
		i := p.mapFind(a, fr.get(in.Index))
		var v Value
		if i >= 0 {
			v = copyVal(a.vals[i])
		} else {
			v = zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			return TupleV{v, i >= 0}
		}
		return v
	}
	panic(unsupported(fmt.Sprintf("lookup %T", x)))
}

func (p *Path) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil {
			if _, nat := x.v.(NativeObj); nat {
				ok = true
			} else {
				ok = types.Implements(x.t, it)
			}
		}
		v = x
		if !ok {
			v = Iface{}
		}
	} else {
		ok = x.t != nil && types.Identical(x.t, in.AssertedType)
		if ok {
			v = copyVal(x.v)
		} else {
			v = zero(in.AssertedType)
		}
	}
	if in.CommaOk {
		return TupleV{v, ok}
	}
	if !ok {
		panic(targetPanic{v: Iface{types.Typ[types.String], fmt.Sprintf("interface conversion: interface is %v, not %v", x.t, in.AssertedType)}})
	}
	return v
}

// ---- builtins ----

func (p *Path) builtin(fr *frame, b *ssa.Builtin, args []Value, sargs []ssa.Value) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case SliceV:
			if x.soff != nil {
				return norm(p.c.BVSub(p.c.BVu(64, uint64(x.n)), x.soff))
			}
			return i64(x.n)
		case string:
			return i64(len(x))
		case *SymStr:
			return i64(len(x.b))
		case *MapV:
			if x == nil {
				return i64(0)
			}
			return i64(len(x.keys))
		case *ArrayV:
			return i64(len(x.e))
		case Ptr:
			return i64(len((*x).(*ArrayV).e))
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			x = p.settle(x)
			return i64(x.cap)
		case *ArrayV:
			return i64(len(x.e))
		}
	case "append":
		var s SliceV
		if x, ok := args[0].(SliceV); ok {
			s = p.settle(x)
		}
		var add []Value
		switch y := args[1].(type) {
		case SliceV:
			add = p.settle(y).vals()
		case string, *SymStr:
			add = strBytes(y)
		case nil:
		default:
			panic(unsupported(fmt.Sprintf("append %T", y)))
		}
		if len(add) == 0 {
			return s
		}
		n := s.n + len(add)
		if s.arr != nil && n <= s.cap {
			tmp := make([]Value, len(add))
			for i, v := range add {
				tmp[i] = copyVal(v)
			}
			for i, v := range tmp {
				store(&s.arr.e[s.off+s.n+i], v)
			}
			return SliceV{arr: s.arr, off: s.off, n: n, cap: s.cap}
		}
		et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
		nc := growCap(et, s.n, len(add), s.cap)
		a := &ArrayV{e: make([]Value, nc)}
		for i, v := range s.vals() {
			a.e[i] = copyVal(v)
		}
		for i, v := range add {
			a.e[s.n+i] = copyVal(v)
		}
		var zt Value
		if nc > n {
			for i := n; i < nc; i++ {
				zt = zero(et)
				a.e[i] = zt
			}
		}
		return SliceV{arr: a, n: n, cap: nc}
	case "copy":
		d := args[0].(SliceV)
		var src []Value
		switch y := args[1].(type) {
		case SliceV:
			if d.soff != nil || y.soff != nil {
				return p.symCopy(d, y)
			}
			src = y.vals()
		case string, *SymStr:
			src = strBytes(y)
		}
		d = p.settle(d)
		n := d.n
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			store(&d.arr.e[d.off+i], tmp[i])
		}
		return i64(n)
	case "panic":
		panic(targetPanic{v: args[0].(Iface), where: p.stackPos(fr)})
	case "recover":
		// fr is the deferred function's frame; its caller is panicking
		c := fr.caller
		if c != nil && c.panicked {
			c.panicked = false
			v := c.panicVal.v
			if v.t == nil {
				v = Iface{types.Typ[types.String], "nil panic"}
			}
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "delete":
		m := args[0].(*MapV)
		if i := p.mapFind(m, args[1]); i >= 0 {
			m.keys = append(append([]Value{}, m.keys[:i]...), m.keys[i+1:]...)
			m.vals = append(append([]Value{}, m.vals[:i]...), m.vals[i+1:]...)
		}
		return nil
	case "min", "max":
		r := args[0]
		sig := b.Type().(*types.Signature)
		for i := 1; i < len(args); i++ {
			t := sig.Params().At(i).Type()
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			c := p.binop(op, t, args[i], r, t)
			if ct, ok := c.(*Term); ok {
				r = norm(p.c.Ite(ct, p.term(args[i]), p.term(r)))
			} else if c.(bool) {
				r = args[i]
			}
		}
		return r
	case "clear":
		switch m := args[0].(type) {
		case *MapV:
			m.keys, m.vals = nil, nil
			return nil
		}
	case "ssa:wrapnilchk":
		if x, ok := args[0].(Ptr); ok && x == nil {
			panic(rtPanic("value method called using nil pointer"))
		}
		return args[0]
	}
	panic(unsupported("builtin " + b.Name()))
}

// growCap uses the host runtime's growth so that aliasing after append is faithful
func growCap(et types.Type, s, add int, cp int) int {
	size := 8
	if et != nil {
		size = int(sizes.Sizeof(et))
	}
	if size == 0 {
		return s + add
	}
	st := reflect.SliceOf(reflect.ArrayOf(size, reflect.TypeOf(byte(0))))
	if size > 512 {
		return s + add
	}
	v := reflect.MakeSlice(st, s, cp)
	w := reflect.MakeSlice(st, add, add)
	return reflect.AppendSlice(v, w).Cap()
}

var sizes = types.SizesFor("gc", "amd64")

func (a *ArrayV) elem0() Value {
	if a == nil || len(a.e) == 0 {
		return nil
	}
	return a.e[0]
}

// symCopy copies between slices whose start is a symbolic offset into a byte array
func (p *Path) symCopy(d, s SliceV) Value {
	c := p.c
	z := c.BVu(64, 0)
	do, so := d.soff, s.soff
	if do == nil {
		do = z
	}
	if so == nil {
		so = z
	}
	if d.arr == nil || s.arr == nil {
		return i64(0)
	}
	src := make([]Value, s.n)
	for i := range src {
		src[i] = s.arr.e[s.off+i]
	}
	dl := c.BVSub(c.BVu(64, uint64(d.n)), do)
	sl := c.BVSub(c.BVu(64, uint64(s.n)), so)
	// common idiom: both windows have the same length and end at the end
	if do == so && d.n == s.n {
		for i := 0; i < d.n; i++ {
			in := c.Ule(do, c.BVu(64, uint64(i)))
			old := p.term(d.arr.e[d.off+i])
			d.arr.e[d.off+i] = norm(c.Ite(in, p.term(src[i]), old))
		}
		return norm(dl)
	}
	n := c.Ite(c.Ult(dl, sl), dl, sl)
	for i := 0; i < d.n; i++ {
		it := c.BVu(64, uint64(i))
		in := c.And(c.Ule(do, it), c.Ult(c.BVSub(it, do), n))
		if in.isFalse() {
			continue
		}
		// source index = i - do + so
		idx := c.BVAdd(c.BVSub(it, do), so)
		var v *Term
		if idx.isConst() {
			k := int(idx.c.Int64())
			if k < 0 || k >= len(src) {
				continue
			}
			v = p.term(src[k])
		} else {
			v = c.BVu(8, 0)
			for k := len(src) - 1; k >= 0; k-- {
				v = c.Ite(c.Eq(idx, c.BVu(64, uint64(k))), p.term(src[k]), v)
			}
		}
		old := p.term(d.arr.e[d.off+i])
		d.arr.e[d.off+i] = norm(c.Ite(in, v, old))
	}
	return norm(n)
}

var _ = sync.Once{}
