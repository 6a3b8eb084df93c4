package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type options struct {
	repo, verif, prop, tier, only, file string
	seed                                int64
	verbose                             bool
}

// ---- native replay ----

type attempt struct {
	Seed  string            `json:"seed"`
	Model map[string]string `json:"model"`
}
type job struct {
	ID       int       `json:"id"`
	Harness  string    `json:"harness"`
	Attempts []attempt `json:"attempts"`
	StopOn   string    `json:"stop_on"`
}
type jobResult struct {
	ID      int      `json:"id"`
	Attempt int      `json:"attempt"`
	Outcome string   `json:"outcome"`
	Msgs    []string `json:"msgs"`
	Reach   []string `json:"reach"`
	Events  []string `json:"events"`
	Inputs  []string `json:"inputs"`
}

type replayer struct {
	bin      string
	dir      string
	err      error
	done     chan struct{}
	thorough bool
	deadline time.Time
}

func hdir(prop string) string { return strings.ToLower(prop) }

// startReplayBuild compiles the harness natively against the current tree in the background
func startReplayBuild(o *options, overlay map[string][]byte, names []string) *replayer {
	r := &replayer{done: make(chan struct{}), thorough: o.tier == "thorough", deadline: time.Now().Add(830 * time.Second)}
	go func() {
		defer close(r.done)
		dir, err := os.MkdirTemp("", "verif-replay-")
		if err != nil {
			r.err = err
			return
		}
		r.dir = dir
		repl := map[string]string{}
		i := 0
		for dst, b := range overlay {
			f := filepath.Join(dir, fmt.Sprintf("ov%d.go", i))
			i++
			os.WriteFile(f, b, 0o644)
			repl[dst] = f
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "package main\n\nimport (\n\th \"%s/%s/%s\"\n\t\"%s/%s/vsym\"\n)\n\nfunc main() {\n\tvsym.Main(map[string]func(){\n", repo, zzRoot, hdir(o.prop), repo, zzRoot)
		for _, n := range names {
			fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", n, n)
		}
		sb.WriteString("\t})\n}\n")
		mf := filepath.Join(dir, "main.go")
		os.WriteFile(mf, []byte(sb.String()), 0o644)
		repl[filepath.Join(o.repo, zzRoot, "replaymain", "main.go")] = mf
		ov, _ := json.Marshal(map[string]interface{}{"Replace": repl})
		of := filepath.Join(dir, "overlay.json")
		os.WriteFile(of, ov, 0o644)
		r.bin = filepath.Join(dir, "replay")
		cmd := exec.Command("go", "build", "-overlay", of, "-o", r.bin, "./"+zzRoot+"/replaymain")
		cmd.Dir = o.repo
		cmd.Env = append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=mod", "GOSUMDB=off", "GOWORK=off")
		out, err := cmd.CombinedOutput()
		if err != nil {
			r.err = fmt.Errorf("native build: %v\n%s", err, out)
		}
	}()
	return r
}

// errReplayTime says that native runs were stopped because their time was up, which shows nothing
var errReplayTime = errors.New("native runs stopped: out of time")

func (r *replayer) run(jobs []job, timeout time.Duration) ([]jobResult, error) {
	<-r.done
	if r.err != nil {
		return nil, r.err
	}
	if left := time.Until(r.deadline); timeout > left {
		timeout = left
	}
	if timeout <= 0 {
		return nil, errReplayTime
	}
	in, _ := json.Marshal(jobs)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.bin)
	cmd.Dir = r.dir
	cmd.Stdin = bytes.NewReader(in)
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB")
	if r.thorough {
		cmd.Env = append(cmd.Env, "VERIF_THOROUGH=1")
	}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	var res []jobResult
	dec := json.NewDecoder(&out)
	for {
		var x jobResult
		if dec.Decode(&x) != nil {
			break
		}
		res = append(res, x)
	}
	if err != nil && ctx.Err() != nil {
		return res, errReplayTime
	}
	if err != nil {
		s := errb.String()
		if len(s) > 600 {
			s = s[:600]
		}
		return res, fmt.Errorf("%v: %s", err, s)
	}
	return res, nil
}

func (r *replayer) close() {
	if r.dir != "" {
		<-r.done
		os.RemoveAll(r.dir)
	}
}

// attemptsFor derives concrete attempts from a solver model
func attemptsFor(m map[string]string, seed int64, extra int) []attempt {
	pick := func(keep func(kind string, free bool) bool) map[string]string {
		r := map[string]string{}
		for k, v := range m {
			i := strings.IndexByte(v, ':')
			kind := v[:i]
			free := strings.HasSuffix(kind, "?")
			kind = strings.TrimSuffix(kind, "?")
			if keep(kind, free) {
				r[k] = kind + ":" + v[i+1:]
			}
		}
		return r
	}
	var out []attempt
	ctl := func(k string) bool {
		return k == "choose" || k == "int" || k == "u64" || k == "u32" || k == "u8" || k == "bool"
	}
	out = append(out, attempt{"m0", pick(func(k string, f bool) bool { return true })})
	for i := 0; i < 4; i++ {
		out = append(out, attempt{fmt.Sprintf("f%d-%d", seed, i), pick(func(k string, f bool) bool { return !f || k == "choose" })})
	}
	for i := 0; i < extra; i++ {
		out = append(out, attempt{fmt.Sprintf("c%d-%d", seed, i), pick(func(k string, f bool) bool { return ctl(k) || k == "bytes" })})
	}
	for i := 0; i < extra; i++ {
		out = append(out, attempt{fmt.Sprintf("d%d-%d", seed, i), pick(func(k string, f bool) bool { return ctl(k) })})
	}
	for i := 0; i < extra; i++ {
		out = append(out, attempt{fmt.Sprintf("e%d-%d", seed, i), pick(func(k string, f bool) bool { return k == "choose" })})
	}
	for i := 0; i < extra; i++ {
		out = append(out, attempt{fmt.Sprintf("r%d-%d", seed, i), map[string]string{}})
	}
	return out
}

func (c *candidate) attempts(seed int64) []attempt {
	if c.att != nil {
		return []attempt{*c.att}
	}
	return attemptsFor(c.model, seed, 8)
}

// ---- known findings ----

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known or fixed
	Harness  string `json:"harness"`
	Match    string `json:"match"`
	What     string `json:"what"`
	Commit   string `json:"commit"`
}

func loadFindings(verif string) []finding {
	var fs []finding
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.json"))
	if err == nil {
		json.Unmarshal(b, &fs)
	}
	return fs
}

// ---- check ----

func runCheck(o *options) int {
	t0 := time.Now()
	e, err := loadEngine(o.repo, o.verif, hdir(o.prop), o.tier == "thorough", o.seed)
	if err != nil {
		fmt.Fprintf(os.Stderr, "cannot encode the current tree: %v\n", err)
		return 2
	}
	e.verbose = o.verbose
	var names []string
	for _, f := range e.harnesses() {
		names = append(names, f.Name())
	}
	if len(names) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", o.prop)
		return 2
	}
	rp := startReplayBuild(o, e.overlay, names)
	defer rp.close()

	total := 600 * time.Second
	if e.thorough {
		total = 780 * time.Second
	}
	var runs []*HarnessRun
	for _, f := range e.harnesses() {
		if o.only != "" && f.Name() != o.only {
			continue
		}
		h := e.newRun(f)
		if e.directives(f)["tier"] == "thorough" && !e.thorough {
			continue
		}
		if left := total - time.Since(t0); h.budget > left {
			h.budget = left
			if h.budget < 5*time.Second {
				h.budget = 5 * time.Second
			}
		}
		e.explore(h)
		runs = append(runs, h)
		fmt.Printf("%-40s %6.1fs paths=%d complete=%d infeasible=%d aborted=%v obl=%d ok=%d (syntactic %d) unk=%v cand=%d\n", h.name, time.Since(h.start).Seconds(), h.paths, h.complete, h.infeasible, h.aborted, h.obl, h.oblOK, h.oblTriv, h.oblUnk, len(h.cands))
	}
	return finish(o, e, rp, runs, t0)
}

func finish(o *options, e *Engine, rp *replayer, runs []*HarnessRun, t0 time.Time) int {
	<-rp.done
	if rp.err != nil {
		fmt.Fprintln(os.Stderr, rp.err)
		return 2
	}
	os.MkdirAll(filepath.Join(o.verif, "evidence"), 0o755)
	old, _ := filepath.Glob(filepath.Join(o.verif, "evidence", o.prop+".replay-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	// interpreter validation against native runs; a native run that breaks an assertion becomes a candidate as well
	validated, mismatched, samples := e.validate(o, rp, runs)
	findings := loadFindings(o.verif)
	var violations []string
	var inconclusive []string
	known := map[string]bool{}
	nrep := 0
	unreproduced := 0
	for _, h := range runs {
		seen := map[string]bool{}
		for _, c := range h.cands {
			if seen[c.msg] {
				continue
			}
			limit := 200 * time.Second
			if c.weak {
				limit = 30 * time.Second
			}
			res, err := rp.run([]job{{ID: 0, Harness: h.name, Attempts: c.attempts(e.seed), StopOn: "fail"}}, limit)
			var bad *jobResult
			for i := range res {
				if x := res[i].Outcome; x == "fail" || x == "panic" || x == "hang" {
					bad = &res[i]
				}
			}
			msgs := ""
			var att attempt
			if bad == nil && err != nil && err != errReplayTime {
				// the process itself died (stack overflow, out of memory, fatal error)
				k := len(res)
				as := c.attempts(e.seed)
				if k < len(as) {
					att = as[k]
					msgs = "native run crashed: " + firstLines(err.Error(), 3)
				}
			} else if bad != nil {
				att = c.attempts(e.seed)[bad.Attempt]
				msgs = strings.Join(bad.Msgs, "; ")
			}
			if msgs == "" {
				unreproduced++
				if c.weak {
					c.reproduced = true
					continue
				}
				if o.verbose {
					oc := map[string]int{}
					for _, x := range res {
						oc[x.Outcome]++
					}
					fmt.Printf("  candidate not reproduced natively: %s: %s (%s) outcomes %v model %v\n", h.name, c.msg, c.pos, oc, c.model)
				}
				continue
			}
			seen[c.msg] = true
			c.reproduced = true
			f := matchFinding(findings, o.prop, h.name, c.msg+" | "+msgs)
			if f != nil {
				k := fmt.Sprintf("KNOWN-FINDING: property=%s %s", o.prop, f.What)
				if !known[k] {
					known[k] = true
					fmt.Println(k)
				}
				continue
			}
			nrep++
			file := filepath.Join(o.verif, "evidence", fmt.Sprintf("%s.replay-%d.json", o.prop, nrep))
			rec := map[string]interface{}{"property": o.prop, "harness": h.name, "assertion": c.msg, "where": c.pos, "native": msgs, "job": job{0, h.name, []attempt{att}, "fail"}}
			if bad != nil {
				rec["inputs"] = bad.Inputs
			}
			rec["rerun"] = fmt.Sprintf("/verif/run.sh replay %s %s", o.prop, file)
			b, _ := json.MarshalIndent(rec, "", " ")
			os.WriteFile(file, b, 0o644)
			violations = append(violations, fmt.Sprintf("%s: %s", h.name, c.msg))
			fmt.Printf("  %s: %s [native: %s] at %s\n", h.name, c.msg, firstLines(msgs, 2), c.pos)
			fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, file)
		}
		for _, c := range h.cands {
			if !c.reproduced && !seen[c.msg] {
				inconclusive = append(inconclusive, fmt.Sprintf("%s: counterexample to %q was not reproducible natively", h.name, c.msg))
				seen[c.msg] = true
			}
		}
	}

	// reachability witnesses and interpreter validation against native runs
	var jobs []job
	type rv struct {
		h     *HarnessRun
		label string
	}
	var rvs []rv
	for _, h := range runs {
		for l, ri := range h.reach {
			var as []attempt
			for _, m := range ri.models {
				as = append(as, attemptsFor(m, e.seed, 4)...)
			}
			as = append(as, attemptsFor(map[string]string{}, e.seed+7, 24)...)
			jobs = append(jobs, job{len(rvs), h.name, as, "reach:" + l})
			rvs = append(rvs, rv{h, l})
		}
	}
	reachOK := map[int]bool{}
	if len(jobs) > 0 {
		res, _ := rp.run(jobs, 100*time.Second)
		for _, r := range res {
			for _, l := range r.Reach {
				if l == rvs[r.ID].label {
					reachOK[r.ID] = true
				}
			}
		}
	}
	var noReach []string
	for i, x := range rvs {
		if !reachOK[i] {
			noReach = append(noReach, x.h.name+"/"+x.label)
		}
	}
	for _, m := range mismatched {
		inconclusive = append(inconclusive, "interpreter/native disagreement: "+m)
	}

	writeEvidence(o, e, runs, violations, inconclusive, noReach, len(reachOK), validated, samples, known, time.Since(t0))
	for _, s := range inconclusive {
		fmt.Println("INCONCLUSIVE", s)
	}
	for _, s := range noReach {
		fmt.Println("reachability witness not replayed natively:", s)
	}
	fmt.Printf("%s %s: %d violations, %d reach witnesses replayed, %d native traces compared, solver %d queries %.1fs, wall %.1fs\n", o.prop, o.tier, len(violations), len(reachOK), validated, atomic.LoadInt64(&solverS.queries), float64(solverS.nanos)/1e9, time.Since(t0).Seconds())
	if len(violations) > 0 {
		return 1
	}
	return 0
}

func matchFinding(fs []finding, prop, h, text string) *finding {
	for i := range fs {
		f := &fs[i]
		if f.Status == "known" && f.Property == prop && f.Harness == h {
			if ok, _ := regexp.MatchString(f.Match, text); ok {
				return f
			}
		}
	}
	return nil
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " / ")
}

// validate runs the interpreter on concrete inputs and compares its trace with the native one
func (e *Engine) validate(o *options, rp *replayer, runs []*HarnessRun) (int, []string, []map[string]interface{}) {
	var jobs []job
	var evs [][]string
	var res []string
	var hs []*HarnessRun
	n := 3
	if e.thorough {
		n = 12
	}
	type item struct {
		h *HarnessRun
		a attempt
	}
	var items []item
	for _, h := range runs {
		for i := 0; i < n; i++ {
			items = append(items, item{h, attempt{fmt.Sprintf("v%d-%d", e.seed, i), map[string]string{}}})
		}
		// solver witnesses as well
		k := 0
		for _, ri := range h.reach {
			for _, m := range ri.models {
				if k < n {
					items = append(items, item{h, attemptsFor(m, e.seed, 0)[0]})
					k++
				}
			}
		}
	}
	out := make([]*Path, len(items))
	sem := make(chan bool, e.jobs)
	for i := range items {
		sem <- true
		go func(i int) {
			defer func() { <-sem }()
			out[i] = e.runPath(items[i].h, nil, &concInputs{items[i].a.Seed, items[i].a.Model})
		}(i)
	}
	for i := 0; i < e.jobs; i++ {
		sem <- true
	}
	for i, it := range items {
		p := out[i]
		if strings.HasPrefix(p.result, "unsupported") || strings.HasPrefix(p.result, "limit") || len(p.forks) > 0 {
			if o.verbose {
				fmt.Println("  concrete run not supported:", it.h.name, p.result, len(p.forks))
			}
			p.result = "skip"
		}
		jobs = append(jobs, job{len(hs), it.h.name, []attempt{it.a}, ""})
		evs = append(evs, p.events)
		r := p.result
		if strings.HasPrefix(r, "infeasible") {
			r = "assume"
		}
		res = append(res, r)
		hs = append(hs, it.h)
	}
	var bad []string
	var samples []map[string]interface{}
	ok := 0
	rs, err := rp.run(jobs, 120*time.Second)
	if err != nil {
		bad = append(bad, err.Error())
	}
	for _, r := range rs {
		i := r.ID
		if r.Outcome == "fail" || r.Outcome == "panic" || r.Outcome == "hang" {
			msg := "no crash"
			if len(r.Msgs) > 0 {
				msg = r.Msgs[0]
			}
			at := jobs[i].Attempts[0]
			hs[i].cands = append(hs[i].cands, &candidate{h: hs[i], msg: msg, att: &at, panic: r.Outcome == "panic"})
			continue
		}
		a, b := strings.Join(evs[i], "\n"), strings.Join(r.Events, "\n")
		nat := r.Outcome
		if nat == "fail" || nat == "pass" {
			nat = "done"
		}
		if res[i] == "skip" {
			continue
		}
		if nat != res[i] || a != b {
			d := ""
			for k := range evs[i] {
				if k >= len(r.Events) || evs[i][k] != r.Events[k] {
					d = evs[i][k]
					if k < len(r.Events) {
						d += " <> " + r.Events[k]
					}
					break
				}
			}
			bad = append(bad, fmt.Sprintf("%s attempt %v: engine %s native %s (%v) %s", hs[i].name, jobs[i].Attempts[0].Seed, res[i], r.Outcome, r.Msgs, d))
			continue
		}
		ok++
		if len(samples) < 4 && len(r.Events) > 0 {
			samples = append(samples, map[string]interface{}{"harness": hs[i].name, "inputs": clip(r.Inputs, 6), "trace": clip(r.Events, 6)})
		}
	}
	return ok, bad, samples
}

func clip(s []string, n int) []string {
	var o []string
	for i, x := range s {
		if i >= n {
			o = append(o, fmt.Sprintf("... %d more", len(s)-n))
			break
		}
		if len(x) > 120 {
			x = x[:120] + "..."
		}
		o = append(o, x)
	}
	return o
}

func writeEvidence(o *options, e *Engine, runs []*HarnessRun, viol, inc, noReach []string, reached, validated int, samples []map[string]interface{}, known map[string]bool, wall time.Duration) {
	paths, complete, infeas, obl, ok, triv := 0, 0, 0, 0, 0, 0
	unk := 0
	var steps int64
	assume := map[string]bool{}
	var hs []map[string]interface{}
	forks := 0
	var reaches []string
	for _, h := range runs {
		paths += h.paths
		complete += h.complete
		infeas += h.infeasible
		obl += h.obl
		ok += h.oblOK
		triv += h.oblTriv
		steps += h.steps
		forks += h.forksN
		for _, n := range h.oblUnk {
			unk += n
		}
		for k, n := range h.assumed {
			assume[fmt.Sprintf("%s (used %d times)", k, n)] = true
			_ = n
		}
		for k := range h.ideal {
			assume["ideal: "+k] = true
		}
		d := e.directives(h.fn)
		m := map[string]interface{}{"harness": h.name, "bounds": docText(e, h.fn), "paths": h.paths, "completed": h.complete, "infeasible": h.infeasible, "obligations": h.obl, "discharged": h.oblOK, "asserts": len(h.asserts), "steps": h.steps}
		if len(d) > 0 {
			m["directives"] = d
		}
		if len(h.aborted) > 0 {
			m["aborted"] = h.aborted
		}
		if len(h.oblUnk) > 0 {
			m["undecided"] = h.oblUnk
		}
		var rl []string
		for l, ri := range h.reach {
			rl = append(rl, fmt.Sprintf("%s:%d paths", l, ri.hits))
			reaches = append(reaches, h.name+"/"+l)
		}
		sort.Strings(rl)
		m["reach"] = rl
		hs = append(hs, m)
	}
	var fns []string
	e.covered.Range(func(k, v interface{}) bool {
		f := k.(*ssa.Function)
		fns = append(fns, strings.ReplaceAll(e.fnName(f), repo+"/", ""))
		return true
	})
	sort.Strings(fns)
	var asl []string
	for k := range assume {
		asl = append(asl, k)
	}
	sort.Strings(asl)
	asl = append(asl, globalAssumptions...)
	cov := map[string]interface{}{
		"obligations":                   obl,
		"discharged":                    ok,
		"discharged_syntactically":      triv,
		"undecided":                     unk,
		"states":                        forks + paths,
		"states_are":                    "nodes of the symbolic execution tree: branch points plus path ends",
		"transitions":                   steps,
		"transitions_are":               "SSA instructions executed symbolically",
		"paths_explored":                paths,
		"paths_completed":               complete,
		"paths_infeasible":              infeas,
		"branch_forks":                  forks,
		"functions_encoded":             fns,
		"functions_encoded_count":       len(fns),
		"solver_queries":                solverS.queries,
		"solver_cached":                 solverS.cached,
		"solver_unsat":                  solverS.unsat,
		"solver_sat":                    solverS.sat,
		"solver_unknown":                solverS.unknown,
		"solver_seconds":                float64(solverS.nanos) / 1e9,
		"solver_max_query_seconds":      float64(solverS.maxNanos) / 1e9,
		"normal_form_identities":        e.idTotal,
		"normal_form_identities_proved": e.idOK,
		"reach_labels":                  reaches,
		"reach_labels_replayed":         reached,
		"reach_labels_not_replayed":     noReach,
		"traces_validated_against_impl": validated,
		"samples":                       samples,
		"harnesses":                     hs,
		"inconclusive":                  inc,
		"known_findings":                keys(known),
		"explanation":                   "bounded symbolic execution of the Go SSA of the current tree; every assertion is an SMT query (z3 finite-field and bit-vector theories) over all inputs within the stated bounds; counterexamples are replayed on a native build before they are reported",
		"checker_cmd":                   z3Path + " -in (SMT-LIB 2 scripts generated per query)",
		"trusted_base":                  []string{"z3", "golang.org/x/tools/go/ssa", "the engine's models of math/big, field arithmetic, hashes, ChaCha20 and CBOR (validated on concrete traces)"},
	}
	ev := map[string]interface{}{
		"property": o.prop, "tier": o.tier, "seed": e.seed, "level": levelOf(o), "coverage": cov, "wall_s": wall.Seconds(), "assumptions": asl, "violations": len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(o.verif, "evidence", o.prop+".json"), b, 0o644)
}

var globalAssumptions = []string{
	"field and group arithmetic of the kryptology dependency is modelled as exact arithmetic in GF(p), GF(q) and the prime-order group",
	"sha256/sha512/hmac/chacha20 are exact on concrete inputs and uninterpreted functions otherwise",
}

func keys(m map[string]bool) []string {
	o := []string{}
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func docText(e *Engine, fn *ssa.Function) string {
	for _, f := range e.pkgs[0].Syntax {
		for _, d := range f.Decls {
			if fd, ok := funcDoc(d, fn.Name()); ok {
				return fd
			}
		}
	}
	return ""
}

func levelOf(o *options) string {
	b, err := os.ReadFile(filepath.Join(o.verif, "MANIFEST.json"))
	if err == nil {
		var m struct {
			Checks []struct{ Property, Level string }
		}
		if json.Unmarshal(b, &m) == nil {
			for _, c := range m.Checks {
				if c.Property == o.prop {
					return c.Level
				}
			}
		}
	}
	return "model_checking"
}

// runReplay re-runs a recorded counterexample natively
func runReplay(o *options) int {
	b, err := os.ReadFile(o.file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rec struct {
		Property string `json:"property"`
		Job      job    `json:"job"`
	}
	if err := json.Unmarshal(b, &rec); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	o.prop = rec.Property
	e, err := loadEngine(o.repo, o.verif, hdir(o.prop), false, 1)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var names []string
	for _, f := range e.harnesses() {
		names = append(names, f.Name())
	}
	rp := startReplayBuild(o, e.overlay, names)
	defer rp.close()
	res, err := rp.run([]job{rec.Job}, 120*time.Second)
	if err != nil {
		fmt.Println(err)
		return 1
	}
	code := 0
	for _, r := range res {
		x, _ := json.MarshalIndent(r, "", " ")
		fmt.Println(string(x))
		if r.Outcome != "pass" && r.Outcome != "assume" {
			code = 1
		}
	}
	return code
}
