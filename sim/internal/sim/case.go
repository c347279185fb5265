package sim

import (
	"encoding/json"
	"fmt"

	"verifsim/internal/proc"
)

// Violation is a broken property.
type Violation struct {
	Prop  string `json:"prop"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

func (v *Violation) String() string { return fmt.Sprintf("%s [%s] %s", v.Prop, v.Class, v.Msg) }

// Attempt is one run of a generation, or of some of its processes.
type Attempt struct {
	Roles []string       `json:"roles,omitempty"` // all of them when empty
	Seams proc.Seams     `json:"seams"`
	Sched Sched          `json:"sched"`
	Plans [][]proc.Fault `json:"plans,omitempty"`
	Wipe  bool           `json:"wipe,omitempty"`  // remove .astra first (the cache is elsewhere)
	Keep  bool           `json:"keep,omitempty"`  // on the disk the previous attempt left
	Moved bool           `json:"moved,omitempty"` // the checkout is in another directory
}

// Act is one thing a program does in a session.
type Act struct {
	Svc   int    `json:"svc"`
	Do    string `json:"do"` // run again abandon edit load clear cache
	N     int    `json:"n,omitempty"`
	Calm  bool   `json:"calm,omitempty"` // faults stop before it
	Edits []Edit `json:"edits,omitempty"`
}

// Edit changes a file between acts.
type Edit struct {
	Path string `json:"path"`
	Data string `json:"data,omitempty"`
	Del  bool   `json:"del,omitempty"`
}

// LoadCase is a cache file that is loaded after something happened to it.
type LoadCase struct {
	Kind  string       `json:"kind"` // intact truncate garbage mistyped fault
	N     int          `json:"n,omitempty"`
	Data  string       `json:"data,omitempty"`
	Plan  []proc.Fault `json:"plan,omitempty"`
	Prior bool         `json:"prior,omitempty"` // the loading service already holds routes of its own
}

// PMOp is one call on a package manager.
type PMOp struct {
	Op   string `json:"op"` // add find findOrAdd imports
	Path string `json:"path"`
}

// Case is one simulated scenario; running it is a pure function of it and the code.
type Case struct {
	Prop     string       `json:"prop"`
	Seed     uint64       `json:"seed"`
	Svcs     []*Svc       `json:"svcs,omitempty"`
	Attempts []Attempt    `json:"attempts,omitempty"`
	Acts     []Act        `json:"acts,omitempty"`
	Parallel bool         `json:"parallel,omitempty"`
	Seams    proc.Seams   `json:"seams"`
	Sched    Sched        `json:"sched"`
	Plan     []proc.Fault `json:"plan,omitempty"`
	Load     *LoadCase    `json:"load,omitempty"`
	PM       [][]PMOp     `json:"pm,omitempty"`
}

// Clone copies a case.
func (c *Case) Clone() *Case {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	var d Case
	if err := json.Unmarshal(b, &d); err != nil {
		panic(err)
	}
	return &d
}

// Reject means a case says nothing (its reference does not succeed).
type Reject struct{ Why string }

func reject(f string, a ...any) { panic(Reject{fmt.Sprintf(f, a...)}) }

// Found is raised by a check that sees a violation.
type Found struct{ V *Violation }

func violate(c *Case, class, f string, a ...any) {
	panic(Found{&Violation{c.Prop, class, fmt.Sprintf(f, a...)}})
}

// Property decides one property.
type Property struct {
	ID   string
	Make func(e *Env, r *Rng, c *Case)
	Run  func(e *Env, c *Case)
}

var props = map[string]*Property{}

func register(p *Property) { props[p.ID] = p }

// Make makes the case of a seed; why is set if it is rejected.
func Make(e *Env, prop string, seed uint64) (c *Case, why string) {
	c = &Case{Prop: prop, Seed: seed}
	defer func() {
		if x := recover(); x != nil {
			if rj, ok := x.(Reject); ok {
				why = rj.Why
				return
			}
			panic(x)
		}
	}()
	e.quiet = true
	props[prop].Make(e, &Rng{S: seed}, c)
	e.quiet = false
	return c, ""
}

// Run runs a case.
func Run(e *Env, c *Case) (v *Violation, why string) {
	defer func() {
		if x := recover(); x != nil {
			switch x := x.(type) {
			case Reject:
				why = x.Why
			case Found:
				v = x.V
			default:
				panic(x)
			}
		}
	}()
	e.quiet = false
	e.CaseFired, e.Digest, e.nontriv, e.Switches = 0, 14695981039346656037, false, nil
	e.races()
	props[c.Prop].Run(e, c)
	return nil, ""
}
