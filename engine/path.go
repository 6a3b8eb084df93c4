package main

import (
	"fmt"
	"go/token"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debugForks = os.Getenv("VERIF_FORKS") != ""

type decision struct {
	ch  int
	val uint64
}

type oblig struct {
	cond *Term
	pc   []*Term
	msg  string
	pos  string
}

type Path struct {
	pinned  map[int]*Term
	eng     *Engine
	h       *HarnessRun
	c       *Ctx
	globals map[*ssa.Global]Ptr
	inited  map[*ssa.Package]bool

	pc    []*Term
	pcSet map[int]bool

	prefix []decision
	trace  []decision
	forks  [][]decision

	obls    []oblig
	notes   []string
	reached map[string]int // label -> pc length at reach

	inputs  []inputDecl
	inSeen  map[string]int
	generic bool
	noFork  bool // evaluating a region to be merged
	noH2P   bool
	rngFull bool

	steps    int
	maxSteps int
	depth    int
	deadline time.Time

	once map[Ptr]bool
	side map[Ptr]NativeObj

	assumed map[string]int
	stack   []*ssa.Function
	aux     map[string]Value
	uid     uint64
	fresh   int
	lazy    *ssa.Package
	conc    *concInputs
	result  string
	pan     *targetPanic
	events  []string
}

type inputDecl struct {
	name string
	kind string // u64,bool,byte,bytes,scalar,point,choose
	t    *Term
	n    int
	cv   int // concrete value for choose
}

func (p *Path) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	if t.isFalse() {
		panic(pathAbort{"infeasible", "false"})
	}
	if t.op == OAnd {
		for _, a := range t.args {
			p.addPC(a)
		}
		return
	}
	if p.pcSet[t.id] {
		return
	}
	if p.pcSet[p.c.Not(t).id] {
		panic(pathAbort{"infeasible", "contradiction"})
	}
	p.pcSet[t.id] = true
	p.pc = append(p.pc, t)
}

// known reports whether the path condition syntactically settles t
func (p *Path) known(t *Term) (bool, bool) {
	if t.isConst() {
		return t.isTrue(), true
	}
	if p.pcSet[t.id] {
		return true, true
	}
	if p.pcSet[p.c.Not(t).id] {
		return false, true
	}
	switch t.op {
	case ONot:
		v, ok := p.known(t.args[0])
		return !v, ok
	case OAnd:
		all := true
		for _, a := range t.args {
			v, ok := p.known(a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	case OOr:
		all := true
		for _, a := range t.args {
			v, ok := p.known(a)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	return false, false
}

func (p *Path) assume(t *Term) {
	if v, ok := p.known(t); ok {
		if !v {
			panic(pathAbort{"infeasible", "assume"})
		}
		return
	}
	p.addPC(t)
}

// decide picks a branch for a symbolic condition, scheduling the other feasible one
func (p *Path) decide(cond *Term) bool {
	if v, ok := p.known(cond); ok {
		return v
	}
	if p.noFork {
		panic(mergeFail{})
	}
	if p.h.NoZero && ksZero(cond) {
		p.assumed["keystream words used as scalars are not zero"]++
		p.addPC(p.c.Not(cond))
		return false
	}
	n := len(p.trace)
	if n < len(p.prefix) {
		d := p.prefix[n]
		p.trace = append(p.trace, d)
		if d.ch == 0 || d.ch == 2 {
			p.addPC(cond)
			return true
		}
		p.addPC(p.c.Not(cond))
		return false
	}
	not := p.c.Not(cond)
	rt := p.feasible(cond)
	if rt == resUnsat {
		p.trace = append(p.trace, decision{3, 0})
		p.addPC(not)
		return false
	}
	rf := p.feasible(not)
	if rf == resUnsat {
		p.trace = append(p.trace, decision{2, 0})
		p.addPC(cond)
		return true
	}
	if debugForks {
		fmt.Fprintf(os.Stderr, "FORK %d %s\n", n, cond)
	}
	alt := append(append([]decision{}, p.trace...), decision{1, 0})
	p.forks = append(p.forks, alt)
	p.trace = append(p.trace, decision{0, 0})
	p.addPC(cond)
	return true
}

// choose picks one of n unconstrained options
func (p *Path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if p.noFork {
		panic(mergeFail{})
	}
	k := len(p.trace)
	if k < len(p.prefix) {
		d := p.prefix[k]
		p.trace = append(p.trace, d)
		return int(d.val)
	}
	for i := n - 1; i >= 1; i-- {
		p.forks = append(p.forks, append(append([]decision{}, p.trace...), decision{4, uint64(i)}))
	}
	p.trace = append(p.trace, decision{4, 0})
	return 0
}

// concretize enumerates the values of a bitvector term by forking
func (p *Path) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.c.Uint64()
	}
	if p.noFork {
		panic(mergeFail{})
	}
	for i := 0; ; i++ {
		if i > 300 {
			panic(pathAbort{"limit", "concretize"})
		}
		k := len(p.trace)
		var v uint64
		if k < len(p.prefix) {
			v = p.prefix[k].val
			p.trace = append(p.trace, p.prefix[k])
		} else {
			m, r := p.modelValue(t)
			if r == resUnsat {
				panic(pathAbort{"infeasible", "concretize"})
			}
			if r != resSat {
				panic(pathAbort{"unsupported", "concretize: solver gave no value"})
			}
			v = m
			p.trace = append(p.trace, decision{5, v})
		}
		if p.decide(p.c.Eq(t, p.c.BVu(t.sort.W, v))) {
			return v
		}
	}
}

func (p *Path) intOf(v Value) int {
	switch x := v.(type) {
	case Int:
		return int(x.signed())
	case *Term:
		u := p.concretize(x)
		return int(mk(x.sort.W, u).signed())
	case nil:
		return 0
	}
	panic(unsupported(fmt.Sprintf("int of %T", v)))
}

func (p *Path) boolOf(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return p.decide(x)
	}
	panic(unsupported(fmt.Sprintf("bool of %T", v)))
}

func (p *Path) global(g *ssa.Global) Ptr {
	if s, ok := p.globals[g]; ok {
		return s
	}
	s := new(Value)
	t := deref(g.Type())
	*s = zero(t)
	p.globals[g] = s
	if g.Pkg != nil && !p.inited[g.Pkg] && !p.eng.initAllowed(g.Pkg.Pkg.Path()) {
		path := g.Pkg.Pkg.Path()
		switch {
		case t.String() == "error":
			*s = p.eng.mkError(path + "." + g.Name())
		case p.eng.lazyInit(path):
			p.lazy = g.Pkg
			p.initPkg(g.Pkg)
		default:
			panic(unsupported("global " + g.String()))
		}
	}
	return s
}

func (p *Path) posString(pos token.Pos) string {
	ps := p.eng.prog.Fset.Position(pos)
	f := ps.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (p *Path) freshName(s string) string {
	p.fresh++
	return fmt.Sprintf("%s!%d", s, p.fresh)
}

// ksZero recognises the question whether a keystream word is zero
func ksZero(t *Term) bool {
	if t.op != OEq {
		return false
	}
	for i, a := range t.args {
		if a.isC(0) && t.args[1-i].op == OB2F {
			u := t.args[1-i].args[0]
			return u.op == OKS || u.op == OExtract && u.args[0].op == OKS
		}
	}
	return false
}
