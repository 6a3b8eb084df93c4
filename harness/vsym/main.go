package vsym

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"time"
)

type Attempt struct {
	Seed  string            `json:"seed"`
	Model map[string]string `json:"model"`
}
type Job struct {
	ID       int       `json:"id"`
	Harness  string    `json:"harness"`
	Attempts []Attempt `json:"attempts"`
	StopOn   string    `json:"stop_on"` // "fail": stop at the first failing attempt; "reach:<l>": first reaching l; "": run all
}
type Result struct {
	ID      int      `json:"id"`
	Attempt int      `json:"attempt"`
	Outcome string   `json:"outcome"` // pass, assume, fail, panic, hang
	Msgs    []string `json:"msgs"`
	Reach   []string `json:"reach"`
	Events  []string `json:"events"`
	Inputs  []string `json:"inputs"`
}

func runOne(f func(), a Attempt) (r Result) {
	st = &state{seed: a.Seed, model: a.Model, seen: map[string]int{}}
	me := st
	done := make(chan Result, 1)
	go func() {
		var r Result
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(assumeFailed); ok {
					r.Outcome = "assume"
					if len(me.failed) > 0 { // an assertion failed before the run was discarded
						r.Outcome, r.Msgs = "fail", me.failed
					}
				} else {
					r.Outcome = "panic"
					r.Msgs = append(me.failed, fmt.Sprintf("panic: %v", e))
					if os.Getenv("VERIF_STACK") != "" {
						fmt.Fprintf(os.Stderr, "%s\n", debug.Stack())
					}
				}
			}
			r.Reach, r.Events, r.Inputs = me.reach, me.events, me.inputs
			done <- r
		}()
		f()
		if len(me.failed) > 0 {
			r.Outcome, r.Msgs = "fail", me.failed
		} else {
			r.Outcome = "pass"
		}
	}()
	select {
	case r = <-done:
	case <-time.After(30 * time.Second):
		r.Outcome = "hang"
		r.Msgs = []string{"no termination within 30 s"}
		r.Inputs = me.inputs
	}
	return r
}

// Main runs the jobs on stdin (native replay)
func Main(fs map[string]func()) {
	debug.SetMaxStack(256 << 20)
	var jobs []Job
	if err := json.NewDecoder(os.Stdin).Decode(&jobs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out := json.NewEncoder(os.Stdout)
	for _, j := range jobs {
		f := fs[j.Harness]
		if f == nil {
			fmt.Fprintln(os.Stderr, "no harness", j.Harness)
			os.Exit(3)
		}
		for i, a := range j.Attempts {
			r := runOne(f, a)
			r.ID, r.Attempt = j.ID, i
			bad := r.Outcome == "fail" || r.Outcome == "panic" || r.Outcome == "hang"
			stop := false
			if j.StopOn == "fail" {
				stop = bad
			} else if len(j.StopOn) > 6 && j.StopOn[:6] == "reach:" {
				for _, l := range r.Reach {
					if l == j.StopOn[6:] {
						stop = true
					}
				}
			}
			out.Encode(r)
			if stop || r.Outcome == "hang" {
				break
			}
		}
	}
}
