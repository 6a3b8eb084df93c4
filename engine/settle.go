package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

func stackText() string { return string(debug.Stack()) }

var solverErrN int64

func solverErr(out, text string) {
	n := atomic.AddInt64(&solverErrN, 1)
	if n <= 3 {
		os.WriteFile(fmt.Sprintf("/tmp/z3err-%d-%d.smt2", os.Getpid(), n), []byte(text), 0o644)
		i := strings.Index(out, "error")
		s := out
		if i > 20 {
			s = out[i-20:]
		}
		if len(s) > 300 {
			s = s[:300]
		}
		fmt.Fprintf(os.Stderr, "solver error: %s\n", s)
	}
}

// shash is a structural hash (independent of node numbering)
func (t *Term) shash() [16]byte {
	if t.hs != nil {
		return *t.hs
	}
	h := sha256.New()
	var b [16]byte
	b[0], b[1] = byte(t.op), byte(t.sort.K)
	binary.LittleEndian.PutUint32(b[2:], uint32(t.sort.W))
	binary.LittleEndian.PutUint32(b[6:], uint32(t.i))
	binary.LittleEndian.PutUint32(b[10:], uint32(t.j))
	h.Write(b[:])
	h.Write([]byte(t.name))
	h.Write([]byte{0})
	if t.c != nil {
		h.Write(t.c.Bytes())
	}
	for _, a := range t.args {
		x := a.shash()
		h.Write(x[:])
	}
	var r [16]byte
	copy(r[:], h.Sum(nil))
	t.hs = &r
	return r
}

// settlePath discharges the obligations of a finished path
func (e *Engine) settlePath(h *HarnessRun, p *Path, res string, pan *targetPanic) {
	h.mu.Lock()
	for k, v := range p.assumed {
		h.assumed[k] += v
	}
	for _, in := range p.inputs {
		h.inputs[in.name] = in.kind
	}
	switch {
	case res == "done":
		h.complete++
	case pan != nil:
		h.complete++
	case strings.HasPrefix(res, "infeasible"):
	default:
		h.aborted[res]++
	}
	h.mu.Unlock()

	obls := p.obls
	if pan != nil {
		msg := "panic: " + panicText(pan.v)
		obls = append(obls, oblig{cond: p.c.False(), pc: append([]*Term{}, p.pc...), msg: msg, pos: pan.where})
	}
	// up to four candidates per assertion and set of labels passed
	var labels []string
	for l := range p.reached {
		labels = append(labels, l)
	}
	sort.Strings(labels)
	class := " @ " + strings.Join(labels, ",")
	for _, o := range obls {
		h.mu.Lock()
		h.obl++
		h.asserts[o.msg]++
		nc := h.candSeen[o.msg+class]
		h.mu.Unlock()
		if o.cond.isTrue() {
			h.mu.Lock()
			h.oblTriv++
			h.oblOK++
			h.mu.Unlock()
			continue
		}
		if nc >= 4 {
			continue // enough candidates of this kind already
		}
		not := p.c.Not(o.cond)
		sl := p.c.slice(o.pc, []*Term{not})
		r := p.check(append(append([]*Term{}, sl...), not), h.OblTimeout, &solverS.obl)
		if r != resUnsat {
			// integers that the path condition forces to one value
			if pins := p.pins(o.pc, not); len(pins) > 0 {
				r = p.check(append(append(append([]*Term{}, sl...), pins...), not), h.OblTimeout, &solverS.obl)
				o.pc = append(append([]*Term{}, o.pc...), pins...)
			}
		}
		if r == resUnsat {
			h.mu.Lock()
			h.oblOK++
			h.mu.Unlock()
			continue
		}
		if r == resUnknown {
			h.mu.Lock()
			h.oblUnk[o.msg]++
			h.mu.Unlock()
			h.weak(p, o)
			if e.verbose {
				_, s := script(p.c, append(append([]*Term{}, sl...), not))
				os.WriteFile(fmt.Sprintf("/tmp/unk-%s-%d.smt2", h.name, atomic.AddInt64(&solverErrN, 1)), []byte(s+"(check-sat)\n"), 0o644)
			}
			continue
		}
		// candidate: whole path condition
		m, r2 := p.inputModel(append(append([]*Term{}, o.pc...), not), h.OblTimeout)
		if r2 == resUnsat {
			h.mu.Lock()
			h.oblOK++
			h.mu.Unlock()
			continue
		}
		if r2 == resUnknown {
			m = nil
			if m2, r3 := p.inputModel(append(append([]*Term{}, sl...), not), h.OblTimeout); r3 == resSat {
				m = m2
			}
		}
		if m == nil {
			h.mu.Lock()
			h.oblUnk[o.msg]++
			h.mu.Unlock()
			h.weak(p, o)
			continue
		}
		h.mu.Lock()
		h.candSeen[o.msg+class]++
		h.cands = append(h.cands, &candidate{h: h, msg: o.msg, pos: o.pos, model: m, panic: pan != nil && o.cond.isFalse() && strings.HasPrefix(o.msg, "panic: ")})
		h.mu.Unlock()
		if e.verbose {
			fmt.Fprintf(os.Stderr, "CAND %s: %s at %s\n  cond %s\n", h.name, o.msg, o.pos, o.cond.short())
		}
	}
	e.dischargeIdentities(h, p)
	h.mu.Lock()
	for k := range p.c.ideal {
		h.ideal[k] = true
	}
	h.mu.Unlock()
	// reachability
	if res == "done" || pan != nil {
		var want []string
		h.mu.Lock()
		for l := range p.reached {
			ri := h.reach[l]
			if ri == nil {
				ri = &reachInfo{}
				h.reach[l] = ri
			}
			ri.hits++
			if len(ri.models) < 2 && ri.tried < 6 {
				ri.tried++
				want = append(want, l)
			}
		}
		h.mu.Unlock()
		if len(want) > 0 {
			// (natively drawn inputs are tried as well, so a hard query may be given up)
			m, r := p.inputModel(p.pc, 8*time.Second)
			if r == resSat {
				h.mu.Lock()
				for _, l := range want {
					h.reach[l].sat = true
					h.reach[l].models = append(h.reach[l].models, m)
				}
				h.mu.Unlock()
			}
		}
	}
}

// refine looks for a model in which the byte strings of scalars and point coordinates are the real encodings
func (p *Path) refine(as []*Term, want []*Term, limit time.Duration) map[int]*big.Int {
	var fb []*Term
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			walk(a)
		}
		if t.op == OF2B {
			x := t.args[0]
			if x.op == OVar || (x.op == OPX || x.op == OPY) && x.args[0].op == OVar {
				fb = append(fb, t)
			}
		}
	}
	for _, a := range as {
		walk(a)
	}
	if len(fb) == 0 || len(fb) > 40 {
		return nil
	}
	if limit > 8*time.Second {
		limit = 8 * time.Second
	}
	w := append([]*Term{}, fb...)
	for _, t := range fb {
		x := t.args[0]
		if x.op != OVar {
			x = x.args[0]
		}
		w = append(w, x)
	}
	vals, r := p.model(as, w, limit)
	if r != resSat {
		return nil
	}
	for mode := 0; mode < 3; mode++ {
		pins := append([]*Term{}, as...)
		for i, t := range fb {
			v, d := vals[t.id], w[len(fb)+i]
			if v == nil || vals[d.id] == nil {
				continue
			}
			if x := t.args[0]; x.op == OVar && (mode == 0 || mode == 1) {
				pins = append(pins, p.c.rawEq(t, p.c.BV(256, v)), p.c.rawEq(x, p.c.FF(x.sort, v)))
				continue
			} else if x.op != OVar && mode == 0 {
				continue
			}
			dv := p.c.FF(d.sort, vals[d.id])
			cv := dv
			switch t.args[0].op {
			case OPX:
				cv = p.c.PX(dv)
			case OPY:
				cv = p.c.PY(dv)
			}
			if !cv.isConst() {
				continue
			}
			pins = append(pins, p.c.rawEq(d, dv), p.c.rawEq(t, p.c.BV(256, cv.c)))
		}
		if len(pins) == len(as) {
			continue
		}
		if v, r := p.model(pins, want, limit); r == resSat {
			return v
		}
	}
	return nil
}

// inputModel solves for the harness inputs
func (p *Path) inputModel(as []*Term, limit time.Duration) (map[string]string, smtResult) {
	var want []*Term
	for _, in := range p.inputs {
		if in.t != nil && !in.t.isConst() {
			want = append(want, in.t)
		}
	}
	vals, r := p.model(as, want, limit)
	if r != resSat {
		return nil, r
	}
	if v := p.refine(as, want, limit); v != nil {
		vals = v
	}
	sup := map[int]bool{}
	for _, a := range as {
		for k := range p.c.support(a) {
			sup[k] = true
		}
	}
	m := map[string]string{}
	for _, in := range p.inputs {
		var v *big.Int
		if in.t == nil {
			v = big.NewInt(int64(in.cv))
		} else if in.t.isConst() {
			v = in.t.c
		} else {
			v = vals[in.t.id]
		}
		if v == nil {
			v = new(big.Int)
		}
		k := in.kind
		free := ""
		if in.t != nil && !in.t.isConst() && !sup[in.t.id] {
			free = "?"
		}
		m[in.name] = k + free + ":" + v.Text(16)
	}
	return m, resSat
}

// dischargeIdentities asks the solver to confirm every normal-form identification used on the path
func (e *Engine) dischargeIdentities(h *HarnessRun, p *Path) {
	type pr struct {
		a, b *Term
		eq   bool
		key  [16]byte
	}
	var todo []pr
	add := func(l [][2]*Term, eq bool) {
		for _, x := range l {
			ha, hb := x[0].shash(), x[1].shash()
			var k [16]byte
			s := sha256.Sum256(append(append(ha[:], hb[:]...), map[bool]byte{true: 1, false: 0}[eq]))
			copy(k[:], s[:])
			if _, dup := e.idSeen.LoadOrStore(k, true); dup {
				continue
			}
			todo = append(todo, pr{x[0], x[1], eq, k})
		}
	}
	add(p.c.oblig, true)
	add(p.c.obligN, false)
	if len(todo) == 0 {
		return
	}
	atomic.AddInt64(&e.idTotal, int64(len(todo)))
	for len(todo) > 0 {
		n := len(todo)
		if n > 200 {
			n = 200
		}
		batch := todo[:n]
		todo = todo[n:]
		em := newEmitter(p.c)
		var tail strings.Builder
		for _, x := range batch {
			a, b := em.ref(x.a), em.ref(x.b)
			if x.eq {
				fmt.Fprintf(&tail, "(push)\n(assert (not (= %s %s)))\n(check-sat)\n(pop)\n", a, b)
			} else {
				fmt.Fprintf(&tail, "(push)\n(assert (= %s %s))\n(check-sat)\n(pop)\n", a, b)
			}
		}
		// ring identities hold for arbitrary values of the opaque nodes: no axioms are given
		text := smtHead + em.sb.String() + tail.String()
		out := runZ3Raw(text, 120*time.Second)
		lines := strings.Fields(out)
		for i := range batch {
			r := ""
			if i < len(lines) {
				r = lines[i]
			}
			switch r {
			case "unsat":
				atomic.AddInt64(&e.idOK, 1)
			case "sat":
				atomic.AddInt64(&e.idBad, 1)
				h.mu.Lock()
				h.oblUnk["normal form identity refuted"]++
				h.mu.Unlock()
			default:
				atomic.AddInt64(&e.idUnk, 1)
				h.mu.Lock()
				h.oblUnk["normal form identity undecided"]++
				h.mu.Unlock()
			}
		}
	}
}

// pins finds short integers inside t that the path condition determines and gives their field values
func (p *Path) pins(pc []*Term, t *Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OB2F && t.args[0].sort.W <= 64 {
			u := t.args[0]
			if p.pinned == nil {
				p.pinned = map[int]*Term{}
			}
			f, ok := p.pinned[t.id]
			if !ok {
				save := p.pc
				p.pc = pc
				v, r := p.modelValue(u)
				if r == resSat {
					c := p.c.BVu(u.sort.W, v)
					ne := p.c.Not(p.c.rawEq(u, c))
					sl := p.c.slice(pc, []*Term{ne})
					if p.check(append(append([]*Term{}, sl...), ne), p.h.OblTimeout, &solverS.obl) == resUnsat {
						f = p.c.rawEq(t, p.c.FF(t.sort, c.c))
					}
				}
				p.pc = save
				p.pinned[t.id] = f
			}
			if f != nil {
				out = append(out, f)
			}
			return
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	return out
}

// weak records a candidate for an undecided obligation: the path's choices are replayed natively with other inputs drawn
func (h *HarnessRun) weak(p *Path, o oblig) {
	m := map[string]string{}
	for _, in := range p.inputs {
		if in.t == nil {
			m[in.name] = in.kind + ":" + big.NewInt(int64(in.cv)).Text(16)
		}
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.candSeen["weak "+o.msg] >= 4 {
		return
	}
	h.candSeen["weak "+o.msg]++
	h.cands = append(h.cands, &candidate{h: h, msg: o.msg, pos: o.pos, model: m, weak: true})
}
