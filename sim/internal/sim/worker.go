package sim

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"verifsim/internal/proc"
)

// Result is what a worker found.
type Result struct {
	Worker    int            `json:"worker"`
	Race      bool           `json:"race"`
	Evals     int            `json:"evals"`
	Rejected  int            `json:"rejected"`
	Why       map[string]int `json:"why"`
	Nontriv   int            `json:"nontriv"`
	Hashes    []uint64       `json:"hashes"` // of the non-trivial cases
	Procs     int            `json:"procs"`
	Ops       int64          `json:"ops"`
	SimNS     int64          `json:"simNS"`
	Yields    uint64         `json:"yields"`
	Picks     uint64         `json:"picks"`
	Traces    int            `json:"traces"`
	Fired     map[string]int `json:"fired"`
	Probes    map[string]int `json:"probes"`
	Samples   []*Case        `json:"samples"`
	Violation *Violation     `json:"violation,omitempty"`
	Case      *Case          `json:"case,omitempty"`
	Index     uint64         `json:"index"`
	Done      []uint64       `json:"done,omitempty"` // the seeds before the violation, if there is one
	WallS     float64        `json:"wallS"`
}

// Safe runs a case; a panic of the simulator itself is an error.
func Safe(e *Env, c *Case) (v *Violation, why string, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("%v\n%s", x, debug.Stack())
			e.quiet = false
		}
	}()
	v, why = Run(e, c)
	return
}

// Work runs the cases of one worker until the time is over or a violation is found. progress is told about each.
func Work(prop string, base, worker, workers uint64, dur time.Duration, maxCases int, known func(*Violation, *Case) bool, progress func(i uint64)) *Result {
	e := NewEnv()
	r := &Result{Worker: int(worker), Race: proc.Race, Why: map[string]int{}}
	t0 := time.Now()
	seen := map[uint64]bool{}
	var done []uint64
	for i := worker; time.Since(t0) < dur && (maxCases == 0 || r.Evals+r.Rejected < maxCases); i += workers {
		progress(i)
		seed := RunSeed(base, prop, i)
		c, why := Make(e, prop, seed)
		if why == "" {
			var v *Violation
			v, why = Run(e, c)
			if v != nil && !known(v, c) {
				r.Violation, r.Case, r.Index, r.Done = v, c, i, done
				r.Evals++
				break
			}
		}
		done = append(done, seed)
		if why != "" {
			r.Rejected++
			w := strings.Split(why, "\n")[0]
			if len(w) > 100 {
				w = w[:100]
			}
			if len(r.Why) < 40 || r.Why[w] > 0 {
				r.Why[w]++
			}
			continue
		}
		r.Evals++
		if e.nontriv {
			r.Nontriv++
			if !seen[e.Digest] {
				seen[e.Digest] = true
				r.Hashes = append(r.Hashes, e.Digest)
			}
			if len(r.Samples) < 1 {
				r.Samples = append(r.Samples, c)
			}
		}
		if r.Evals%4 == 0 {
			Collect(memLimit())
		}
	}
	r.Procs, r.Ops, r.SimNS, r.Yields, r.Picks, r.Traces = e.Procs, e.Ops, e.SimNS, e.Yields, e.Picks, len(e.Traces)
	r.Fired, r.Probes = e.Fired, e.Probes
	r.WallS = time.Since(t0).Seconds()
	return r
}

func memLimit() uint64 {
	if proc.Race {
		return 300 << 20
	}
	return 1 << 30
}

// Collect frees memory if much is in use (the garbage collector is off while cases run).
func Collect(limit uint64) {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.HeapAlloc > limit {
		runtime.GC()
	}
}

// Digests runs cases and returns what they did as one number each.
func Digests(prop string, seeds []uint64) []string {
	e := NewEnv()
	e.DigestOn = true
	var out []string
	for _, s := range seeds {
		c, why := Make(e, prop, s)
		c = c.Clone() // what a replay file holds
		if why != "" {
			out = append(out, "rejected: "+why)
			continue
		}
		v, why := Run(e, c)
		out = append(out, fmt.Sprintf("%016x %v %s", e.Digest, v, why))
		Collect(1 << 30)
	}
	return out
}

// Replay is a violation that can be reproduced.
type Replay struct {
	Violation *Violation `json:"violation"`
	Base      uint64     `json:"verifSeed"`
	Index     uint64     `json:"index"`
	Seed      uint64     `json:"seed"`
	Race      bool       `json:"race,omitempty"`    // found by the build with the race detector
	Minimised bool       `json:"minimised"`         // smaller than the case of the seed
	Fatal     bool       `json:"fatal,omitempty"`   // the case ends the simulator's process
	Earlier   []uint64   `json:"earlier,omitempty"` // cases that have to run before it in the same process
	Case      *Case      `json:"case"`
}

// LoadReplay reads a replay file.
func LoadReplay(f string) (*Replay, error) {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, err
	}
	r := &Replay{}
	return r, json.Unmarshal(b, r)
}

// Save writes a replay file.
func (r *Replay) Save(f string) error {
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(f, b, 0644)
}

// Again runs the case of a replay.
func (r *Replay) Again(e *Env) (v *Violation, why string, err error) {
	for _, s := range r.Earlier {
		c, why := Make(e, r.Violation.Prop, s)
		if why == "" {
			Run(e, c)
		}
		Collect(1 << 30)
	}
	if r.Case == nil {
		c, why := Make(e, r.Violation.Prop, r.Seed)
		if why != "" {
			return nil, why, nil
		}
		return Safe(e, c)
	}
	return Safe(e, r.Case)
}
