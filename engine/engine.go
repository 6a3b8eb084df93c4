package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	zzRoot = "zz_verif"
	modPfx = repo + "/"
)

type Engine struct {
	pdom      sync.Map
	repoDir   string
	harness   string // directory of harness sources
	overlay   map[string][]byte
	prog      *ssa.Program
	pkgs      []*packages.Package
	hpkg      *ssa.Package
	vsymPkg   *ssa.Package
	curvePkg  *ssa.Package
	errString types.Type

	names   sync.Map // *ssa.Function -> string
	denyC   sync.Map
	covered sync.Map // repo functions executed symbolically
	methC   sync.Map

	thorough bool
	seed     int64
	jobs     int
	verbose  bool

	idSeen   sync.Map // structural hashes of discharged identities
	idTotal  int64
	idOK     int64
	idUnk    int64
	idBad    int64
	inits    []*ssa.Package
	loadTime time.Duration
}

// HarnessRun is one symbolic exploration
type HarnessRun struct {
	name string
	fn   *ssa.Function

	maxPaths    int
	maxSteps    int
	pathTime    time.Duration
	budget      time.Duration
	NoFeas      bool
	NoZero      bool // keystream words are assumed not to be zero
	contract    bool
	FeasTimeout time.Duration
	OblTimeout  time.Duration

	mu         sync.Mutex
	paths      int
	infeasible int
	complete   int
	aborted    map[string]int
	forksN     int
	queue      [][]decision
	active     int
	cond       *sync.Cond
	start      time.Time
	stopped    string

	obl        int // obligations generated (distinct paths x asserts)
	oblOK      int
	oblTriv    int
	oblUnk     map[string]int
	cands      []*candidate
	candSeen   map[string]int
	asserts    map[string]int
	reach      map[string]*reachInfo
	assumed    map[string]int
	ideal      map[string]bool
	steps      int64
	notes      map[string]string
	inputs     map[string]string
	solverErrs int
}

type reachInfo struct {
	hits   int
	sat    bool
	tried  int
	models []map[string]string
}

type candidate struct {
	h          *HarnessRun
	msg        string
	pos        string
	model      map[string]string
	panic      bool
	reproduced bool
	weak       bool     // the solver gave no model; only the choices of the path are fixed
	att        *attempt // a native run
	detail     string
	replayFile string
}

func loadEngine(repoDir, verifDir, prop string, thorough bool, seed int64) (*Engine, error) {
	t0 := time.Now()
	e := &Engine{repoDir: repoDir, overlay: map[string][]byte{}, thorough: thorough, seed: seed, jobs: 8}
	add := func(dir, dst string) error {
		ents, err := os.ReadDir(dir)
		if err != nil {
			return err
		}
		for _, f := range ents {
			if strings.HasSuffix(f.Name(), ".go") {
				b, err := os.ReadFile(filepath.Join(dir, f.Name()))
				if err != nil {
					return err
				}
				e.overlay[filepath.Join(repoDir, zzRoot, dst, f.Name())] = b
			}
		}
		return nil
	}
	if err := add(filepath.Join(verifDir, "harness", "vsym"), "vsym"); err != nil {
		return nil, err
	}
	if err := add(filepath.Join(verifDir, "harness", prop), prop); err != nil {
		return nil, err
	}
	for _, d := range []string{"oracle", "hstub", "sigctx"} {
		if _, err := os.Stat(filepath.Join(verifDir, "harness", d)); err == nil {
			if err := add(filepath.Join(verifDir, "harness", d), d); err != nil {
				return nil, err
			}
		}
	}
	// files a harness needs inside packages of the repository: overlay/<pkg>/x.go
	shims, _ := filepath.Glob(filepath.Join(verifDir, "harness", prop, "overlay", "*", "*.go"))
	for _, f := range shims {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		e.overlay[filepath.Join(repoDir, filepath.Base(filepath.Dir(f)), "zz_verif_"+filepath.Base(f))] = b
	}
	env := append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=mod", "GOSUMDB=off", "GOWORK=off")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Overlay: e.overlay, Env: env}
	pk, err := packages.Load(cfg, "./"+zzRoot+"/"+prop)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, x := range p.Errors {
			errs = append(errs, x.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 12 {
			errs = errs[:12]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	e.pkgs = pk
	prog, spk := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	e.prog = prog
	e.hpkg = spk[0]
	for _, p := range prog.AllPackages() {
		switch p.Pkg.Path() {
		case repo + "/" + zzRoot + "/vsym":
			e.vsymPkg = p
		case repo + "/curve":
			e.curvePkg = p
		case "errors":
			e.errString = types.NewPointer(p.Pkg.Scope().Lookup("errorString").Type())
		}
	}
	if e.errString == nil {
		return nil, fmt.Errorf("errors package not loaded")
	}
	e.orderInits()
	e.loadTime = time.Since(t0)
	return e, nil
}

// orderInits lists the packages whose initialisers are executed symbolically, dependencies first
func (e *Engine) orderInits() {
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, q := range p.Imports() {
			visit(q)
		}
		if e.initAllowed(p.Path()) {
			if sp := e.prog.Package(p); sp != nil {
				e.inits = append(e.inits, sp)
			}
		}
	}
	visit(e.hpkg.Pkg)
}

func (e *Engine) initAllowed(path string) bool {
	if strings.HasPrefix(path, repo+"/"+zzRoot+"/vsym") {
		return false
	}
	if strings.HasPrefix(path, modPfx) {
		return true
	}
	switch path {
	case nat, kry, kry + "/fp", kry + "/fq":
		return true
	case "github.com/google/btree", "github.com/pkg/errors", "math/bits", "encoding/binary", "strings", "sort", "errors", "slices":
		return false
	}
	return false
}

func (e *Engine) fnName(fn *ssa.Function) string {
	if s, ok := e.names.Load(fn); ok {
		return s.(string)
	}
	g := fn
	if o := fn.Origin(); o != nil {
		g = o
	}
	s := g.String()
	e.names.Store(fn, s)
	return s
}

var interpStd = map[string]bool{
	"strings": true, "bytes": true, "encoding/binary": true, "sort": true, "math": true, "math/bits": true, "errors": true,
	"strconv": true, "unicode/utf8": true, "slices": true, "cmp": true, "io": true, "unicode": true, "encoding/hex": true, "maps": true, "iter": true,
	"internal/byteorder": true, "internal/bytealg": false,
}

// denied: library code that is neither modelled nor interpreted
func (e *Engine) denied(fn *ssa.Function) bool {
	if v, ok := e.denyC.Load(fn); ok {
		return v.(bool)
	}
	d := e.deny(fn)
	e.denyC.Store(fn, d)
	return d
}
func (e *Engine) deny(fn *ssa.Function) bool {
	if strings.HasPrefix(fn.Synthetic, "bound method wrapper") || strings.HasPrefix(fn.Synthetic, "thunk") || strings.HasPrefix(fn.Synthetic, "wrapper") {
		return false // the method it calls is checked instead
	}
	g := fn
	if o := fn.Origin(); o != nil {
		g = o
	}
	for g.Parent() != nil {
		g = g.Parent()
	}
	var path string
	if g.Pkg != nil {
		path = g.Pkg.Pkg.Path()
	} else if obj := g.Object(); obj != nil && obj.Pkg() != nil {
		path = obj.Pkg().Path()
	} else {
		return false
	}
	if strings.HasPrefix(path, repo) {
		return false
	}
	if path == nat || strings.HasPrefix(path, kry) {
		return false
	}
	if strings.HasPrefix(path, "github.com/google/btree") || strings.HasPrefix(path, "github.com/tidwall/btree") || strings.Contains(path, "btree") {
		return false
	}
	if strings.HasPrefix(path, "modernc.org/mathutil") || strings.Contains(path, "mathutil") || strings.HasPrefix(path, "github.com/pkg/errors") {
		return false
	}
	if path == "go.dedis.ch/kyber/v3/util/random" && (g.Name() == "Bytes" || g.Name() == "Bits" || g.Name() == "Int") {
		return false // interpreted; the package's own source of randomness is not
	}
	if !strings.Contains(path, ".") {
		return !interpStd[path]
	}
	return true
}

func (e *Engine) cover(p *Path, fn *ssa.Function) {
	if fn.Pkg == nil {
		return
	}
	path := fn.Pkg.Pkg.Path()
	if strings.HasPrefix(path, modPfx) && !strings.Contains(path, zzRoot) && fn.Synthetic == "" {
		n, ok := e.covered.Load(fn)
		if !ok {
			n, _ = e.covered.LoadOrStore(fn, new(int64))
		}
		atomic.AddInt64(n.(*int64), 1)
	}
}

type mkey struct {
	t types.Type
	m *types.Func
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m}
	if v, ok := e.methC.Load(k); ok {
		f, _ := v.(*ssa.Function)
		return f
	}
	f := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.methC.Store(k, f)
	return f
}

func (e *Engine) mkError(msg string) Iface {
	s := new(Value)
	*s = &StructV{f: []Value{msg}}
	return Iface{e.errString, Ptr(s)}
}

// harnesses lists the exported H_ functions in source order
func (e *Engine) harnesses() []*ssa.Function {
	var out []*ssa.Function
	for n, m := range e.hpkg.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "H_") {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// directives parses //verif:key=value comments in the doc of a harness
func (e *Engine) directives(fn *ssa.Function) map[string]string {
	r := map[string]string{}
	for _, f := range e.pkgs[0].Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Name.Name != fn.Name() || fd.Doc == nil || fd.Recv != nil {
				continue
			}
			for _, c := range fd.Doc.List {
				t := strings.TrimPrefix(c.Text, "//verif:")
				if t == c.Text {
					continue
				}
				for _, kv := range strings.Fields(t) {
					k, v, _ := strings.Cut(kv, "=")
					r[k] = v
				}
			}
		}
	}
	return r
}

func (e *Engine) newRun(fn *ssa.Function) *HarnessRun {
	h := &HarnessRun{name: fn.Name(), fn: fn, maxPaths: 4000, maxSteps: 60_000_000, pathTime: 120 * time.Second, budget: 150 * time.Second,
		FeasTimeout: 10 * time.Second, OblTimeout: 30 * time.Second,
		aborted: map[string]int{}, oblUnk: map[string]int{}, candSeen: map[string]int{}, asserts: map[string]int{}, reach: map[string]*reachInfo{}, assumed: map[string]int{}, ideal: map[string]bool{}, notes: map[string]string{}, inputs: map[string]string{}}
	if e.thorough {
		h.budget = 900 * time.Second
		h.maxPaths = 40000
		h.pathTime = 400 * time.Second
		h.OblTimeout = 120 * time.Second
	}
	d := e.directives(fn)
	atoi := func(k string, f func(int)) {
		if v, ok := d[k]; ok {
			if n, err := strconv.Atoi(v); err == nil {
				f(n)
			}
		}
	}
	atoi("paths", func(n int) { h.maxPaths = n })
	atoi("budget", func(n int) {
		h.budget = time.Duration(n) * time.Second
		if e.thorough {
			h.budget *= 6
		}
	})
	atoi("feas", func(n int) { h.FeasTimeout = time.Duration(n) * time.Second })
	atoi("obl", func(n int) { h.OblTimeout = time.Duration(n) * time.Second })
	if _, ok := d["nozero"]; ok {
		h.NoZero = true
	}
	if _, ok := d["nofeas"]; ok {
		h.NoFeas = true
	}
	if _, ok := d["contract"]; ok {
		h.contract = true
	}
	h.cond = sync.NewCond(&h.mu)
	return h
}

// explore runs all paths of a harness
func (e *Engine) explore(h *HarnessRun) {
	h.start = time.Now()
	h.queue = [][]decision{nil}
	var wg sync.WaitGroup
	for w := 0; w < e.jobs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				h.mu.Lock()
				for len(h.queue) == 0 && h.active > 0 {
					h.cond.Wait()
				}
				if len(h.queue) == 0 {
					h.mu.Unlock()
					h.cond.Broadcast()
					return
				}
				if h.stopped == "" {
					if h.paths >= h.maxPaths {
						h.stopped = fmt.Sprintf("path limit %d", h.maxPaths)
					} else if time.Since(h.start) > h.budget {
						h.stopped = fmt.Sprintf("time budget %v", h.budget)
					}
				}
				if h.stopped != "" {
					h.aborted["unexplored branches ("+h.stopped+")"] += len(h.queue)
					h.queue = nil
					h.mu.Unlock()
					h.cond.Broadcast()
					return
				}
				pre := h.queue[len(h.queue)-1]
				h.queue = h.queue[:len(h.queue)-1]
				h.active++
				h.paths++
				h.mu.Unlock()
				p := e.runPath(h, pre, nil)
				h.mu.Lock()
				h.queue = append(h.queue, p.forks...)
				h.forksN += len(p.forks)
				h.active--
				h.mu.Unlock()
				h.cond.Broadcast()
			}
		}()
	}
	wg.Wait()
}

func (e *Engine) newPath(h *HarnessRun, prefix []decision) *Path {
	p := &Path{eng: e, h: h, c: NewCtx(), globals: map[*ssa.Global]Ptr{}, inited: map[*ssa.Package]bool{},
		pcSet: map[int]bool{}, prefix: prefix, reached: map[string]int{}, inSeen: map[string]int{}, maxSteps: h.maxSteps,
		deadline: time.Now().Add(h.pathTime), once: map[Ptr]bool{}, side: map[Ptr]NativeObj{}, assumed: map[string]int{}, aux: map[string]Value{}}
	p.c.knownH = p.known
	return p
}

// execute interprets package initialisers and the harness function
func (p *Path) execute() (res string, pan *targetPanic) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathAbort:
				res = x.kind + ": " + x.msg
			case targetPanic:
				pan = &x
				res = "panic"
			default:
				buf := stackText()
				res = fmt.Sprintf("unsupported: engine: %v", r)
				if p.eng.verbose {
					fmt.Fprintln(os.Stderr, res, buf)
				}
			}
		}
	}()
	for _, sp := range p.eng.inits {
		p.initPkg(sp)
	}
	p.steps = 0
	p.call(nil, p.h.fn, nil, nil)
	return "done", nil
}

func (p *Path) initPkg(sp *ssa.Package) {
	if p.inited[sp] {
		return
	}
	p.inited[sp] = true
	if f := sp.Func("init"); f != nil {
		p.call(nil, f, nil, nil)
	}
}

func (e *Engine) runPath(h *HarnessRun, prefix []decision, conc *concInputs) *Path {
	p := e.newPath(h, prefix)
	p.conc = conc
	res, pan := p.execute()
	p.result = res
	p.pan = pan
	if conc != nil {
		return p
	}
	h.mu.Lock()
	h.steps += int64(p.steps)
	h.mu.Unlock()
	if strings.HasPrefix(res, "infeasible") {
		h.mu.Lock()
		h.infeasible++
		h.mu.Unlock()
		// assertions made before the path ended still have to hold
		var open []oblig
		for _, o := range p.obls {
			if !o.cond.isTrue() {
				open = append(open, o)
			}
		}
		p.obls = open
		if len(open) > 0 {
			e.settlePath(h, p, res, nil)
		}
		return p
	}
	e.settlePath(h, p, res, pan)
	return p
}

// lazyInit: libraries interpreted from source whose globals are initialised on first use
func (e *Engine) lazyInit(path string) bool {
	return interpStd[path] || strings.Contains(path, "btree") || strings.Contains(path, "mathutil")
}

func funcDoc(d ast.Decl, name string) (string, bool) {
	fd, ok := d.(*ast.FuncDecl)
	if !ok || fd.Name.Name != name || fd.Doc == nil || fd.Recv != nil {
		return "", false
	}
	return strings.TrimSpace(fd.Doc.Text()), true
}
