package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"math/big"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type smtResult int

const (
	resUnknown smtResult = iota
	resSat
	resUnsat
)

func (r smtResult) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type smtStats struct {
	queries, sat, unsat, unknown, cached int64
	nanos                                int64
	maxNanos                             int64
	feas, obl, norm                      int64
}

var (
	z3Path  = "z3-new"
	solverS smtStats
	solveMu sync.Mutex
	qCache  = map[[32]byte]smtResult{}
	solvSem = make(chan struct{}, 8)
)

// ---- emission ----

type emitter struct {
	c     *Ctx
	sb    strings.Builder // definitions
	ax    strings.Builder // axioms
	name  map[int]string
	nodes []*Term // opaque nodes seen
	byOp  map[Op][]*Term
	todo  []*Term
	nAx   int
}

func newEmitter(c *Ctx) *emitter {
	return &emitter{c: c, name: map[int]string{}, byOp: map[Op][]*Term{}}
}

func sortName(s Sort) string {
	switch s.K {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	case KFQ:
		return "FQ"
	}
	return "FP"
}

func (e *emitter) constStr(t *Term) string {
	switch t.sort.K {
	case KBool:
		if t.isTrue() {
			return "true"
		}
		return "false"
	case KBV:
		if t.sort.W%4 == 0 {
			return fmt.Sprintf("#x%0*s", t.sort.W/4, t.c.Text(16))
		}
		return fmt.Sprintf("#b%0*s", t.sort.W, t.c.Text(2))
	}
	return fmt.Sprintf("(as ff%s %s)", t.c.String(), sortName(t.sort))
}

func opaque(op Op) bool {
	switch op {
	case OVar, FInv, OB2F, OF2B, OPX, OPY, OHash, OKS, OLZ, OSqrt, OIsSq, OPow, ODL:
		return true
	}
	return false
}

// ref returns the SMT expression naming t, emitting definitions as needed (iteratively)
func (e *emitter) ref(t *Term) string {
	if t.op == OConst {
		return e.constStr(t)
	}
	if n, ok := e.name[t.id]; ok {
		return n
	}
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == OConst {
			st = st[:len(st)-1]
			continue
		}
		if _, ok := e.name[f.t.id]; ok {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			st = append(st, fr{a, 0})
			continue
		}
		e.define(f.t)
		st = st[:len(st)-1]
	}
	return e.name[t.id]
}

func (e *emitter) r(t *Term) string {
	if t.op == OConst {
		return e.constStr(t)
	}
	return e.name[t.id]
}

func (e *emitter) define(t *Term) {
	n := fmt.Sprintf("t%d", len(e.name))
	e.name[t.id] = n
	if opaque(t.op) {
		fmt.Fprintf(&e.sb, "(declare-const %s %s)\n", n, sortName(t.sort))
		e.nodes = append(e.nodes, t)
		e.byOp[t.op] = append(e.byOp[t.op], t)
		e.todo = append(e.todo, t)
		return
	}
	var body string
	as := make([]string, len(t.args))
	for i, a := range t.args {
		as[i] = e.r(a)
	}
	j := strings.Join(as, " ")
	switch t.op {
	case ONot:
		body = "(not " + j + ")"
	case OAnd:
		body = "(and " + j + ")"
	case OOr:
		body = "(or " + j + ")"
	case OEq:
		body = "(= " + j + ")"
	case OIte:
		body = "(ite " + j + ")"
	case OBAdd:
		body = "(bvadd " + j + ")"
	case OBSub:
		body = "(bvsub " + j + ")"
	case OBMul:
		body = "(bvmul " + j + ")"
	case OBAnd:
		body = "(bvand " + j + ")"
	case OBOr:
		body = "(bvor " + j + ")"
	case OBXor:
		body = "(bvxor " + j + ")"
	case OBNot:
		body = "(bvnot " + j + ")"
	case OBShl:
		body = "(bvshl " + j + ")"
	case OBLshr:
		body = "(bvlshr " + j + ")"
	case OBAshr:
		body = "(bvashr " + j + ")"
	case OBUdiv:
		body = "(bvudiv " + j + ")"
	case OBUrem:
		body = "(bvurem " + j + ")"
	case OBSdiv:
		body = "(bvsdiv " + j + ")"
	case OBSrem:
		body = "(bvsrem " + j + ")"
	case OUle:
		body = "(bvule " + j + ")"
	case OUlt:
		body = "(bvult " + j + ")"
	case OSle:
		body = "(bvsle " + j + ")"
	case OSlt:
		body = "(bvslt " + j + ")"
	case OExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", t.i, t.j, j)
	case OSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.sort.W-t.args[0].sort.W, j)
	case OConcat:
		body = as[0]
		for _, a := range as[1:] {
			body = "(concat " + body + " " + a + ")"
		}
	case FAdd:
		body = "(ff.add " + j + ")"
	case FMul:
		body = "(ff.mul " + j + ")"
	case FNeg:
		body = "(ff.neg " + j + ")"
	default:
		panic(fmt.Sprintf("emit op %d", t.op))
	}
	fmt.Fprintf(&e.sb, "(define-fun %s () %s %s)\n", n, sortName(t.sort), body)
}

// axiom asserts a term-level fact
func (e *emitter) axiom(t *Term) {
	if t.isTrue() {
		return
	}
	r := e.ref(t)
	fmt.Fprintf(&e.sb, "(assert %s)\n", r)
	e.nAx++
}
func (e *emitter) axiomS(s string) {
	fmt.Fprintf(&e.sb, "(assert %s)\n", s)
	e.nAx++
}

// raw equality without the normaliser
func (c *Ctx) rawEq(a, b *Term) *Term {
	if a == b {
		return c.True()
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.c.Cmp(b.c) == 0)
	}
	return c.mkEq(a, b)
}

// flushAxioms adds the defining axioms of all opaque nodes met so far
func (e *emitter) flushAxioms() {
	c := e.c
	done := map[Op]int{}
	for len(e.todo) > 0 {
		todo := e.todo
		e.todo = nil
		for _, t := range todo {
			switch t.op {
			case OVar:
				if b, ok := c.base[t.id]; ok {
					_ = b
					// a base point is not the identity
					e.axiomS(fmt.Sprintf("(not (= %s %s))", e.r(t), e.constStr(c.FFi(SFQ, 0))))
				}
			case FInv:
				a := e.ref(t.args[0])
				z, o := e.constStr(c.FFi(t.sort, 0)), e.constStr(c.FFi(t.sort, 1))
				e.axiomS(fmt.Sprintf("(or (and (= %s %s) (= %s %s)) (= (ff.mul %s %s) %s))", a, z, e.r(t), z, a, e.r(t), o))
			case OF2B:
				e.axiomS(fmt.Sprintf("(bvult %s %s)", e.r(t), e.constStr(c.BV(256, t.sort0().mod()))))
				a := e.ref(t.args[0])
				z := e.constStr(c.FFi(t.args[0].sort, 0))
				e.axiomS(fmt.Sprintf("(= (= %s %s) (= %s %s))", a, z, e.r(t), e.constStr(c.BVu(256, 0))))
				// value of small constants
				e.axiomS(fmt.Sprintf("(= (= %s %s) (= %s %s))", a, e.constStr(c.FFi(t.args[0].sort, 1)), e.r(t), e.constStr(c.BVu(256, 1))))
				if m := c.f2bConst[t.args[0].id]; len(m) > 0 && len(m) <= 16 {
					ks := make([]string, 0, len(m))
					for k := range m {
						ks = append(ks, k)
					}
					sort.Strings(ks)
					for _, k := range ks {
						e.axiomS(fmt.Sprintf("(= (= %s %s) (= %s %s))", a, e.constStr(c.FF(t.args[0].sort, m[k])), e.r(t), e.constStr(c.BV(256, m[k]))))
					}
				}
				if x := t.args[0]; x.op == OB2F {
					u := x.args[0]
					if u.sort.W == 256 {
						m := c.BV(256, x.sort.mod())
						r := c.mk(OIte, SBV(256), []*Term{c.Ult(u, m), u, c.mk(OBSub, SBV(256), []*Term{u, m}, nil, "", 0, 0)}, nil, "", 0, 0)
						e.axiom(c.rawEq(t, r))
					} else if u.sort.W < 256 {
						e.axiom(c.rawEq(t, c.Zext(u, 256)))
					}
				}
			case OB2F:
				u := e.ref(t.args[0])
				w := t.args[0].sort.W
				if w <= 256 {
					z := e.constStr(c.FFi(t.sort, 0))
					if w < 256 {
						e.axiomS(fmt.Sprintf("(= (= %s %s) (= %s %s))", e.r(t), z, u, e.constStr(c.BVu(w, 0))))
					} else {
						e.axiomS(fmt.Sprintf("(= (= %s %s) (or (= %s %s) (= %s %s)))", e.r(t), z, u, e.constStr(c.BVu(w, 0)), u, e.constStr(c.BV(w, t.sort.mod()))))
					}
				}
			case OPX:
				e.axiomS(fmt.Sprintf("(= (= %s %s) (= %s %s))", e.ref(t.args[0]), e.constStr(c.FFi(SFQ, 0)), e.r(t), e.constStr(c.FFi(SFP, 0))))
			case OPY:
				e.axiomS(fmt.Sprintf("(= (= %s %s) (= %s %s))", e.ref(t.args[0]), e.constStr(c.FFi(SFQ, 0)), e.r(t), e.constStr(c.FFi(SFP, 0))))
			case OLZ:
				v := e.ref(t.args[0])
				nb := t.args[0].sort.W / 8
				s := e.constStr(c.BVu(64, uint64(nb)))
				for i := nb - 1; i >= 0; i-- {
					hi := t.args[0].sort.W - 1 - 8*i
					s = fmt.Sprintf("(ite (not (= ((_ extract %d %d) %s) #x00)) %s %s)", hi, hi-7, v, e.constStr(c.BVu(64, uint64(i))), s)
				}
				e.axiomS(fmt.Sprintf("(= %s %s)", e.r(t), s))
			case OSqrt:
				w := t.args[0]
				sq := c.mk(OIsSq, SBool, []*Term{w}, nil, "", 0, 0)
				e.ref(sq)
				e.axiomS(fmt.Sprintf("(=> %s (= (ff.mul %s %s) %s))", e.r(sq), e.r(t), e.r(t), e.ref(w)))
				e.axiomS(fmt.Sprintf("(=> (not %s) (not (= (ff.mul %s %s) %s)))", e.r(sq), e.r(t), e.r(t), e.ref(w)))
			case ODL:
				// on-curve coordinates: PX/PY of the dlog give them back
				x, y := t.args[0], t.args[1]
				px := c.mk(OPX, SFP, []*Term{t}, nil, "", 0, 0)
				py := c.mk(OPY, SFP, []*Term{t}, nil, "", 0, 0)
				rhs := c.FAdd(c.FMul(c.FMul(x, x), x), c.FFi(SFP, 7))
				on := c.rawEq(c.FMul(y, y), rhs)
				e.ref(px)
				e.ref(py)
				e.axiom(c.Implies(on, c.And(c.rawEq(px, x), c.rawEq(py, y))))
			}
		}
		// pairwise axioms
		e.pairs(OF2B, done, func(a, b *Term) {
			if a.args[0].sort == b.args[0].sort {
				e.axiomS(fmt.Sprintf("(= (= %s %s) (= %s %s))", e.r(a), e.r(b), e.ref(a.args[0]), e.ref(b.args[0])))
				if isNegOf(c, a.args[0], b.args[0]) {
					m := e.constStr(c.BV(256, a.args[0].sort.mod()))
					e.axiomS(fmt.Sprintf("(=> (not (= %s %s)) (= (bvadd %s %s) %s))", e.r(a), e.constStr(c.BVu(256, 0)), e.r(a), e.r(b), m))
				}
			}
		})
		e.pairs(OB2F, done, func(a, b *Term) {
			if a.sort != b.sort {
				return
			}
			u, v := a.args[0], b.args[0]
			if u.sort.W <= 256 && v.sort.W <= 256 {
				uz, vz := c.Zext(u, 256), c.Zext(v, 256)
				m := c.BV(256, a.sort.mod())
				red := func(x *Term) *Term {
					if x.op == OConcat && x.args[0].isC(0) {
						return x
					}
					return c.mk(OIte, SBV(256), []*Term{c.Ult(x, m), x, c.mk(OBSub, SBV(256), []*Term{x, m}, nil, "", 0, 0)}, nil, "", 0, 0)
				}
				e.axiom(c.mkEq(c.rawEq(a, b), c.rawEq(red(uz), red(vz))))
			} else if u.sort == v.sort && u.sort.W >= 384 && hasHash(u) && hasHash(v) {
				c.ideal["wide reduction of >=384 bits of hash output is collision free"] = true
				e.axiomS(fmt.Sprintf("(= (= %s %s) (= %s %s))", e.ref(u), e.ref(v), e.r(a), e.r(b)))
			} else if u.sort == v.sort {
				e.axiomS(fmt.Sprintf("(=> (= %s %s) (= %s %s))", e.ref(u), e.ref(v), e.r(a), e.r(b)))
			}
		})
		e.pairs(OPX, done, func(a, b *Term) {
			x, y := a.args[0], b.args[0]
			e.ref(x)
			e.ref(y)
			ny := c.FNeg(y)
			e.axiomS(fmt.Sprintf("(= (= %s %s) (or (= %s %s) (= %s %s)))", e.r(a), e.r(b), e.r(x), e.r(y), e.r(x), e.ref(ny)))
		})
		e.pairs(OPY, done, func(a, b *Term) {
			x, y := a.args[0], b.args[0]
			e.ref(x)
			e.ref(y)
			ny := c.FNeg(y)
			e.axiomS(fmt.Sprintf("(=> (= %s %s) (= %s %s))", e.r(x), e.r(y), e.r(a), e.r(b)))
			e.axiomS(fmt.Sprintf("(=> (= %s %s) (= %s (ff.neg %s)))", e.r(x), e.ref(ny), e.r(a), e.r(b)))
		})
		// parity link: F2B(PY(d)) vs F2B(PY(e)) under e = -d
		e.pairsSel(OF2B, "par", done, func(a, b *Term) {
			x, y := a.args[0], b.args[0]
			if x.op == OPY && y.op == OPY && x.sort == y.sort {
				m := e.constStr(c.BV(256, modP))
				e.axiomS(fmt.Sprintf("(=> (and (= %s (ff.neg %s)) (not (= %s %s))) (= (bvadd %s %s) %s))", e.ref(x), e.ref(y), e.r(a), e.constStr(c.BVu(256, 0)), e.r(a), e.r(b), m))
			}
		})
		// x and y together determine the point; y^2 = x^3+7 when both are present with field arithmetic
		for _, a := range e.byOp[OPX] {
			for _, b := range e.byOp[OPY] {
				if a.args[0] == b.args[0] && !e.hasKey("curve", a.id, b.id) && e.needCurve() {
					x, y := e.r(a), e.r(b)
					e.axiomS(fmt.Sprintf("(=> (not (= %s %s)) (= (ff.mul %s %s) (ff.add (ff.mul %s %s %s) (as ff7 FP))))", e.ref(a.args[0]), e.constStr(c.FFi(SFQ, 0)), y, y, x, x, x))
				}
			}
		}
		hp := func(a, b *Term) {
			same := a.op == b.op && a.name == b.name && a.i == b.i && a.args[0].sort == b.args[0].sort && a.sort == b.sort
			if same {
				e.axiomS(fmt.Sprintf("(= (= %s %s) (= %s %s))", e.r(a), e.r(b), e.ref(a.args[0]), e.ref(b.args[0])))
			} else if a.sort == b.sort && a.op == b.op {
				e.axiomS(fmt.Sprintf("(not (= %s %s))", e.r(a), e.r(b)))
			}
		}
		e.pairs(OHash, done, hp)
		e.pairs(OKS, done, hp)
		e.pairs(OLZ, done, func(a, b *Term) {})
		fun := func(a, b *Term) {
			if a.sort == b.sort && a.args[0].sort == b.args[0].sort && (a.c == nil || a.c.Cmp(b.c) == 0) {
				e.axiomS(fmt.Sprintf("(=> (= %s %s) (= %s %s))", e.ref(a.args[0]), e.ref(b.args[0]), e.r(a), e.r(b)))
			}
		}
		e.pairs(FInv, done, func(a, b *Term) {})
		e.pairs(OSqrt, done, fun)
		e.pairs(OIsSq, done, fun)
		e.pairs(OPow, done, fun)
		e.pairs(ODL, done, func(a, b *Term) {
			e.axiomS(fmt.Sprintf("(=> (and (= %s %s) (= %s %s)) (= %s %s))", e.ref(a.args[0]), e.ref(b.args[0]), e.ref(a.args[1]), e.ref(b.args[1]), e.r(a), e.r(b)))
		})
	}
}

func (t *Term) sort0() Sort { return t.args[0].sort }

var emKeys sync.Map

func (e *emitter) hasKey(s string, a, b int) bool {
	k := fmt.Sprintf("%s/%d/%d", s, a, b)
	if e.name == nil {
		return false
	}
	if _, ok := e.name[-hashKey(k)]; ok {
		return true
	}
	e.name[-hashKey(k)] = "x"
	return false
}
func hashKey(s string) int {
	h := 1469598103934665603
	for i := 0; i < len(s); i++ {
		h = (h ^ int(s[i])) * 1099511628211
		h &= 0x3fffffffffffffff
	}
	if h == 0 {
		h = 1
	}
	return h
}

// needCurve: only when coordinates enter field arithmetic
func (e *emitter) needCurve() bool {
	return len(e.byOp[OSqrt]) > 0 || len(e.byOp[OIsSq]) > 0 || len(e.byOp[ODL]) > 0 || e.c.coordMode
}

func isNegOf(c *Ctx, x, y *Term) bool {
	if x.op == FNeg && x.args[0] == y || y.op == FNeg && y.args[0] == x {
		return true
	}
	if x.op == OPY && y.op == OPY {
		p, q := c.poly(x.args[0]), c.poly(y.args[0])
		return p != nil && q != nil && p.neg(modQ).key() == q.key()
	}
	p, q := c.poly(x), c.poly(y)
	return p.neg(x.sort.mod()).key() == q.key()
}

// pairs calls f on every new pair of nodes of one kind
func (e *emitter) pairs(op Op, done map[Op]int, f func(a, b *Term)) {
	l := e.byOp[op]
	d := done[op]
	for i := d; i < len(l); i++ {
		for j := 0; j < i; j++ {
			f(l[j], l[i])
		}
	}
	done[op] = len(l)
}
func (e *emitter) pairsSel(op Op, tag string, done map[Op]int, f func(a, b *Term)) {
	l := e.byOp[op]
	for i := 0; i < len(l); i++ {
		for j := 0; j < i; j++ {
			if e.hasKey(tag, l[j].id, l[i].id) {
				continue
			}
			f(l[j], l[i])
		}
	}
}

const smtHead = "(set-logic ALL)\n(define-sort FQ () (_ FiniteField 115792089237316195423570985008687907852837564279074904382605163141518161494337))\n(define-sort FP () (_ FiniteField 115792089237316195423570985008687907853269984665640564039457584007908834671663))\n"

// script renders assertions (conjunction) as an SMT script
func script(c *Ctx, as []*Term) (*emitter, string) {
	e := newEmitter(c)
	var tail strings.Builder
	for _, a := range as {
		fmt.Fprintf(&tail, "(assert %s)\n", e.ref(a))
	}
	e.flushAxioms()
	return e, smtHead + e.sb.String() + tail.String()
}

// ---- running the solver ----

func runZ3(text string, timeout time.Duration, kind *int64) (smtResult, string) {
	key := sha256.Sum256([]byte(text))
	solveMu.Lock()
	if r, ok := qCache[key]; ok && !strings.Contains(text, "(get-value") {
		solveMu.Unlock()
		atomic.AddInt64(&solverS.cached, 1)
		return r, ""
	}
	solveMu.Unlock()
	solvSem <- struct{}{}
	defer func() { <-solvSem }()
	ctx, cancel := context.WithTimeout(context.Background(), timeout+3*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, z3Path, fmt.Sprintf("-T:%d", int(timeout.Seconds()+0.999)), "-memory:4000", "-in")
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	t0 := time.Now()
	cmd.Run()
	d := time.Since(t0).Nanoseconds()
	atomic.AddInt64(&solverS.nanos, d)
	atomic.AddInt64(&solverS.queries, 1)
	if kind != nil {
		atomic.AddInt64(kind, 1)
	}
	for {
		m := atomic.LoadInt64(&solverS.maxNanos)
		if d <= m || atomic.CompareAndSwapInt64(&solverS.maxNanos, m, d) {
			break
		}
	}
	s := out.String()
	r := resUnknown
	first := strings.TrimSpace(s)
	if i := strings.IndexByte(first, '\n'); i >= 0 {
		first = first[:i]
	}
	switch strings.TrimSpace(first) {
	case "sat":
		r = resSat
		atomic.AddInt64(&solverS.sat, 1)
	case "unsat":
		r = resUnsat
		atomic.AddInt64(&solverS.unsat, 1)
	default:
		atomic.AddInt64(&solverS.unknown, 1)
		if strings.Contains(s, "error") {
			solverErr(s, text)
		}
	}
	if r != resUnknown {
		solveMu.Lock()
		qCache[key] = r
		solveMu.Unlock()
	}
	return r, s
}

// support returns the leaf variables a term depends on
func (c *Ctx) support(t *Term) map[int]bool {
	if s, ok := c.supp[t.id]; ok {
		return s
	}
	var s map[int]bool
	if t.op == OVar {
		s = map[int]bool{t.id: true}
	} else if len(t.args) == 1 {
		s = c.support(t.args[0])
	} else {
		s = map[int]bool{}
		for _, a := range t.args {
			for k := range c.support(a) {
				s[k] = true
			}
		}
	}
	c.supp[t.id] = s
	return s
}

// slice keeps the path-condition conjuncts connected with goal
func (c *Ctx) slice(pc []*Term, goal []*Term) []*Term {
	vars := map[int]bool{}
	for _, g := range goal {
		for k := range c.support(g) {
			vars[k] = true
		}
	}
	used := make([]bool, len(pc))
	var out []*Term
	for ch := true; ch; {
		ch = false
		for i, t := range pc {
			if used[i] {
				continue
			}
			s := c.support(t)
			hit := len(s) == 0
			for k := range s {
				if vars[k] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				out = append(out, t)
				for k := range s {
					vars[k] = true
				}
			}
		}
	}
	return out
}

func (p *Path) check(as []*Term, timeout time.Duration, kind *int64) smtResult {
	for _, a := range as {
		if a.isFalse() {
			return resUnsat
		}
	}
	_, s := script(p.c, as)
	r, _ := runZ3(s+"(check-sat)\n", timeout, kind)
	return r
}

func (p *Path) feasible(cond *Term) smtResult {
	if p.h.NoFeas || coin(cond) {
		return resUnknown
	}
	sl := p.c.slice(p.pc, []*Term{cond})
	return p.check(append(append([]*Term{}, sl...), cond), p.h.FeasTimeout, &solverS.feas)
}

// modelValue gives one value of a bitvector term under the path condition
func (p *Path) modelValue(t *Term) (uint64, smtResult) {
	sl := p.c.slice(p.pc, []*Term{t})
	e := newEmitter(p.c)
	var tail strings.Builder
	n := e.ref(t)
	for _, a := range sl {
		fmt.Fprintf(&tail, "(assert %s)\n", e.ref(a))
	}
	e.flushAxioms()
	r, out := runZ3(smtHead+e.sb.String()+tail.String()+fmt.Sprintf("(check-sat)\n(get-value (%s))\n", n), p.h.FeasTimeout, &solverS.feas)
	if r != resSat {
		return 0, r
	}
	m := parseValues(out)
	v, ok := m[n]
	if !ok {
		return 0, resUnknown
	}
	return v.Uint64(), resSat
}

// model solves and returns the values of the given terms
func (p *Path) model(as []*Term, want []*Term, timeout time.Duration) (map[int]*big.Int, smtResult) {
	e := newEmitter(p.c)
	var tail strings.Builder
	var names []string
	for _, w := range want {
		names = append(names, e.ref(w))
	}
	for _, a := range as {
		fmt.Fprintf(&tail, "(assert %s)\n", e.ref(a))
	}
	e.flushAxioms()
	gv := ""
	if len(names) > 0 {
		gv = "(get-value (" + strings.Join(names, " ") + "))\n"
	}
	r, out := runZ3(smtHead+e.sb.String()+tail.String()+"(check-sat)\n"+gv, timeout, &solverS.obl)
	if r != resSat {
		return nil, r
	}
	vals := parseValues(out)
	res := map[int]*big.Int{}
	for i, w := range want {
		if w.isConst() {
			res[w.id] = w.c
			continue
		}
		if v, ok := vals[names[i]]; ok {
			res[w.id] = v
		}
	}
	return res, r
}

// parseValues reads ((t1 v) (t2 v) ...)
func parseValues(out string) map[string]*big.Int {
	res := map[string]*big.Int{}
	i := strings.Index(out, "((")
	if i < 0 {
		return res
	}
	toks := tokenize(out[i:])
	// toks: ( ( name val ) ... )
	k := 1
	for k < len(toks) && toks[k] == "(" {
		name := toks[k+1]
		k += 2
		if toks[k] == "(" {
			// (as ffN sort) or (_ bvN w)
			depth := 0
			var inner []string
			for {
				if toks[k] == "(" {
					depth++
				} else if toks[k] == ")" {
					depth--
				}
				inner = append(inner, toks[k])
				k++
				if depth == 0 {
					break
				}
			}
			for _, s := range inner {
				if strings.HasPrefix(s, "ff") || strings.HasPrefix(s, "bv") {
					if v, ok := new(big.Int).SetString(s[2:], 10); ok {
						res[name] = v
						break
					}
				}
			}
		} else {
			s := toks[k]
			k++
			switch {
			case strings.HasPrefix(s, "#x"):
				v, _ := new(big.Int).SetString(s[2:], 16)
				res[name] = v
			case strings.HasPrefix(s, "#b"):
				v, _ := new(big.Int).SetString(s[2:], 2)
				res[name] = v
			case s == "true":
				res[name] = big.NewInt(1)
			case s == "false":
				res[name] = big.NewInt(0)
			}
		}
		k++ // )
	}
	return res
}
func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		switch c := s[i]; {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

var _ = sort.Ints

// runZ3Raw runs a multi-query script
func runZ3Raw(text string, timeout time.Duration) string {
	solvSem <- struct{}{}
	defer func() { <-solvSem }()
	ctx, cancel := context.WithTimeout(context.Background(), timeout+3*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, z3Path, fmt.Sprintf("-T:%d", int(timeout.Seconds()+0.999)), "-memory:4000", "-in")
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	t0 := time.Now()
	cmd.Run()
	d := time.Since(t0).Nanoseconds()
	atomic.AddInt64(&solverS.nanos, d)
	n := int64(strings.Count(text, "(check-sat)"))
	atomic.AddInt64(&solverS.queries, n)
	atomic.AddInt64(&solverS.norm, n)
	s := out.String()
	atomic.AddInt64(&solverS.unsat, int64(strings.Count(s, "unsat")))
	if strings.Contains(s, "error") {
		solverErr(s, text)
	}
	return s
}

// coin recognises conditions on the parity or quadratic character of a point's y coordinate: nothing else in a path
// condition settles them except themselves, so both branches are explored without asking (an infeasible one only costs time)
func coin(t *Term) bool {
	if t.op == ONot {
		t = t.args[0]
	}
	if t.op == OIsSq {
		return t.args[0].op == OPY
	}
	if t.op != OEq {
		return false
	}
	for _, a := range t.args {
		if a.op == OExtract && a.sort.W == 1 && a.i == 0 && a.args[0].op == OF2B && a.args[0].args[0].op == OPY {
			return true
		}
	}
	return false
}
