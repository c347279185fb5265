package sim

import (
	"encoding/json"
	"fmt"
	"path"
	"strings"

	"github.com/ls6-events/astra"
	"gopkg.in/yaml.v3"

	"verifsim/internal/proc"
	"verifsim/internal/registry"
	"verifsim/internal/vfs"
)

func init() {
	register(&Property{ID: "C06", Make: makeC06, Run: runC06})
	register(&Property{ID: "C07", Make: makeC07, Run: runC07})
}

// --- C06 ---

func makeC06(e *Env, r *Rng, c *Case) {
	if r.P(2, 5) {
		makeC06Load(e, r, c)
		return
	}
	sv := randSvc(r, SvcOpt{Flows: []string{"parse", "two", "steps", "cli", "cli", "load"}, Cache: 1, Azure: r.P(1, 3), Old: r.P(2, 3), Small: r.P(1, 2)})
	c.Svcs = []*Svc{sv}
	e.reference(sv)
	cp := sv.CachePath()
	n := r.PickI(1, 1, 1, 2, 3)
	o := FaultOpt{Crash: true, Errno: r.P(2, 3), Global: true}
	makeAttempts(e, r, c, sv, World(sv), n, o, func() int { return r.PickI(0, 1, 1, 2) })
	// more at the cache itself
	for i := range c.Attempts {
		if !r.P(1, 2) {
			continue
		}
		g := e.generate(sv, World(sv), sv.Roles(), proc.Seams{}, Sched{}, nil, nil, false)
		k := r.N(len(g.Runs))
		o.Only = func(ev *proc.Event) bool {
			return strings.HasPrefix(ev.Path, cp) || strings.HasPrefix(ev.Path2, cp) || strings.HasPrefix(ev.Path, path.Join(path.Dir(cp), "."+path.Base(cp)))
		}
		if f := pickFault(r, g.Runs[k].P.Events, o); f != nil {
			c.Attempts[i].Plans = make([][]proc.Fault, len(g.Runs))
			c.Attempts[i].Plans[k] = []proc.Fault{*f}
		}
	}
	for i := range c.Attempts {
		c.Attempts[i].Keep = true
	}
}

// realPath follows the links at a path.
func realPath(fs *vfs.FS, p string) string {
	l, en := fs.Resolve(fs.Root, "/", p, true)
	if en != 0 {
		return p
	}
	return l.Path
}

// cacheWatch follows what a path holds.
type cacheWatch struct {
	path string
	ok   map[string]bool // complete contents
	had  bool
	init string
	note string
}

func (w *cacheWatch) look(fs *vfs.FS, where string) {
	if w.note != "" {
		return
	}
	d, ok := get(fs, w.path)
	switch {
	case !ok && w.had:
		w.note = where + ": the cache is missing"
	case ok && w.had && d == w.init:
	case ok && w.ok[d]:
		w.had = true
		w.init = d
	case ok:
		w.note = fmt.Sprintf("%s: the cache (%d bytes) is neither the previous one nor a complete new one", where, len(d))
	}
}

// completeCaches lists what a fault-free run puts at the cache path.
func (e *Env) completeCaches(sv *Svc, fs *vfs.FS, a *Attempt) map[string]bool {
	q := e.quiet
	e.quiet = true
	defer func() { e.quiet = q }()
	real := realPath(fs, sv.CachePath())
	ok := map[string]bool{}
	obs := func(role string, p *proc.Proc, ev *proc.Event) {
		if ev.Errno != 0 {
			return
		}
		hit := ev.Name == "close" && (ev.Path == real || ev.Path == sv.CachePath()) || (ev.Name == "rename" || ev.Name == "link") && (ev.Path2 == real || ev.Path2 == sv.CachePath() || under(real, ev.Path2))
		if hit {
			if d, there := get(fs, sv.CachePath()); there {
				ok[d] = true
			}
		}
	}
	g := e.generate(sv, fs, sv.Roles(), a.Seams, a.Sched, nil, obs, false)
	if !g.OK {
		reject("reference: %s", g.Why())
	}
	if d, there := get(fs, sv.CachePath()); there {
		ok[d] = true
	}
	return ok
}

func runC06(e *Env, c *Case) {
	if c.Load != nil {
		runC06Load(e, c)
		return
	}
	sv := c.Svcs[0]
	fs := World(sv)
	w := &cacheWatch{path: sv.CachePath()}
	w.init, w.had = get(fs, w.path)
	for i := range c.Attempts {
		a := &c.Attempts[i]
		w.ok = e.completeCaches(sv, fs.Clone(), a)
		obs := func(role string, p *proc.Proc, ev *proc.Event) { w.look(fs, role+": "+ev.String()) }
		g := e.generate(sv, fs, sv.Roles(), a.Seams, a.Sched, a.Plans, obs, false)
		e.Probe("attempt " + g.Verdict())
		w.look(fs, "at the end")
		if w.note != "" {
			violate(c, "cache", "attempt %d: %s", i, w.note)
		}
	}
}

// a cache that is loaded after something happened to it

func makeC06Load(e *Env, r *Rng, c *Case) {
	sv := randSvc(r, SvcOpt{Flows: []string{"load"}, Cache: 1, Azure: true, Small: r.P(1, 2)})
	if sv.LoadBy == "rest" {
		sv.LoadBy = ""
	}
	c.Svcs = []*Svc{sv}
	other := randSvc(r, SvcOpt{Flows: []string{"parse"}, Small: true, Root: sv.Root, Simple: true, Azure: true})
	other.Cwd, other.WorkDir = sv.Cwd, sv.WorkDir
	c.Svcs = append(c.Svcs, other)
	e.reference(sv)
	l := &LoadCase{Prior: r.P(1, 2)}
	c.Load = l
	c.Seams = proc.Seams{}
	fs := World(sv)
	g := e.generate(sv, fs, []string{"first"}, proc.Seams{}, Sched{}, nil, nil, false)
	if !g.OK {
		reject("first: %s", g.Why())
	}
	data, _ := get(fs, sv.CachePath())
	e.nontriv = e.nontriv || c.Load.Kind != "intact"
	jsonFmt := strings.HasSuffix(sv.CachePath(), ".json")
	switch k := r.N(10); {
	case k < 2:
		l.Kind = "intact"
	case k < 5:
		l.Kind = "fault"
	case k < 8 && jsonFmt:
		l.Kind = "truncate"
		l.N = r.N(len(data))
		if r.P(1, 4) {
			l.N = max(0, len(data)-1-r.N(40))
		}
	case k < 9:
		l.Kind = "garbage"
		if jsonFmt {
			l.Data = r.Pick("", "\x00\x00\x00\x00", "{", "not json", data[:len(data)/2]+"\x00"+data[len(data)/2:], data[:len(data)/3]+"}}]"+data[len(data)/3:])
		} else {
			l.Data = r.Pick("", "\x00\x00\x00\x00", "a: [", "\tx: y", "a: b: c", data+"\n\tz: [", "inputs: [\n"+data)
		}
	default:
		l.Kind = "mistyped"
		if jsonFmt {
			l.Data = r.Pick(`{"inputs":[],"outputs":[],"routes":5}`, `{"inputs":[{"mode":"gin"}],"outputs":"x"}`, `{"config":{"port":"a"}}`, `[]`, `{"inputs":[{"mode":"gin"}],"outputs":[],"config":{"title":"other","port":1},"routes":[{"path":"/x","method":"GET"}],"components":[{"structFields":[]}]}`)
		} else {
			l.Data = r.Pick("inputs: []\nroutes: 5\n", "config:\n  port: abc\n", "- a\n- b\n", "inputs:\n- mode: gin\nconfig:\n  title: other\n  port: 1\nroutes:\n- path: /x\ncomponents: 5\n")
		}
	}
	if l.Kind == "fault" {
		s := e.loadSession(c, fs.Clone(), nil)
		o := FaultOpt{Errno: true, Global: true}
		for j, m := 0, r.PickI(1, 1, 2); j < m; j++ {
			if f := pickFault(r, s.after, o); f != nil {
				l.Plan = append(l.Plan, *f)
			}
		}
	}
}

type loadResult struct {
	p             *proc.Proc
	rec           *Rec
	before, after []proc.Event
	was, is       string
	err           string
}

// whole is everything observable of a service.
func whole(s *astra.Service) string {
	return fmt.Sprintf("%s wd=%q cache=%v %q mode=%q deny=%d funcs=%d types=%v inputs=%v outputs=%v", Canon(s), s.WorkDir, s.CacheEnabled, s.CachePath, s.CLIMode, len(s.PathDenyList), len(s.CustomFuncs), s.CustomTypeMapping, fnPtrs(s), fnPtrsOut(s))
}

func fnPtrs(s *astra.Service) (out []string) {
	for _, i := range s.Inputs {
		out = append(out, fmt.Sprint(i.Mode, i.CreateRoutes != nil, i.ParseRoutes != nil))
	}
	return
}

func fnPtrsOut(s *astra.Service) (out []string) {
	for _, o := range s.Outputs {
		out = append(out, fmt.Sprint(o.Mode, o.Generate != nil, o.Configuration))
	}
	return
}

// loadSession loads the cache of the first service in a process of its own.
func (e *Env) loadSession(c *Case, fs *vfs.FS, plan []proc.Fault) *loadResult {
	sv, other := c.Svcs[0], c.Svcs[1]
	registry.Reset()
	p := proc.New(1, fs, sv.Cwd, c.Seams, plan)
	lr := &loadResult{p: p, rec: &Rec{}}
	r := &runner{sv: sv, rec: lr.rec, p: p}
	st := proc.Run(c.Sched.Seed, c.Sched.SwitchP, false, nil, proc.Prog{P: p, F: func() {
		var opts []astra.Option
		if c.Load.Prior {
			opts = other.options(p, true)
		} else {
			opts = sv.options(p, false)
		}
		opts = sv.cacheOpt(opts)
		r.s = astra.New(opts...)
		if sv.WorkDir == "" && r.s.WorkDir == "" {
			r.s.WorkDir = sv.Cwd
		}
		if c.Load.Prior {
			r.s.Routes = []astra.Route{{Handler: "main.prior", Path: "/prior", Method: "GET"}}
			r.s.Components = []astra.Field{{Name: "Prior", Package: "main", Type: "struct"}}
		}
		lr.was = whole(r.s)
		n := len(p.Events)
		var ok bool
		if sv.LoadBy == "path" {
			ok = r.step("LoadCacheFromCustomPath", func() error { return r.s.LoadCacheFromCustomPath(sv.CachePath()) })
		} else {
			ok = r.step("LoadCache", r.s.LoadCache)
		}
		lr.rec.OK = ok
		lr.is = whole(r.s)
		lr.rec.Loaded = Canon(r.s)
		lr.after = p.Events[n:]
		lr.rec.Done = true
	}})
	e.account(p, st)
	return lr
}

func runC06Load(e *Env, c *Case) {
	sv := c.Svcs[0]
	fs := World(sv)
	g := e.generate(sv, fs, []string{"first"}, proc.Seams{}, Sched{}, nil, nil, false)
	if !g.OK {
		reject("first: %s", g.Why())
	}
	stored := g.Runs[0].Rec.Stored
	data, ok := get(fs, sv.CachePath())
	if !ok {
		reject("no cache")
	}
	jsonFmt := strings.HasSuffix(sv.CachePath(), ".json")
	l := c.Load
	mustFail := false
	switch l.Kind {
	case "truncate":
		n := min(l.N, len(data))
		if n >= len(strings.TrimRight(data, " \n")) {
			break
		}
		fs.WriteFile(sv.CachePath(), []byte(data[:n]), 0644)
		mustFail = true
	case "garbage":
		if !jsonFmt {
			// the format decides what is garbage
			var x any
			if err := yaml.NewDecoder(strings.NewReader(l.Data)).Decode(&x); err == nil {
				reject("readable after all")
			}
		}
		var y any
		if jsonFmt && json.NewDecoder(strings.NewReader(l.Data)).Decode(&y) == nil {
			reject("readable after all")
		}
		fs.WriteFile(sv.CachePath(), []byte(l.Data), 0644)
		mustFail = true
	case "mistyped":
		fs.WriteFile(sv.CachePath(), []byte(l.Data), 0644)
	}
	e.Probe("load " + l.Kind + map[bool]string{true: " json", false: " yaml"}[jsonFmt])
	lr := e.loadSession(c, fs, l.Plan)
	if lr.p.Panic != "" || lr.p.Hang != "" {
		violate(c, "load", "loading (%s): %s%s", l.Kind, lr.p.Panic, lr.p.Hang)
	}
	if !lr.rec.Done {
		reject("the process ended")
	}
	if lr.rec.OK {
		if mustFail {
			violate(c, "load", "loading a damaged cache (%s) succeeds", l.Kind)
		}
		if l.Kind == "mistyped" {
			return
		}
		if lr.rec.Loaded != stored {
			violate(c, "load", "the loaded service differs from what was stored: %s", firstDiff(lr.rec.Loaded, stored))
		}
		return
	}
	if l.Kind == "intact" {
		violate(c, "load", "loading an intact cache fails: %s", lr.rec.Err)
	}
	if lr.is != lr.was {
		violate(c, "load", "loading fails (%s), but the service was changed: %s", lr.rec.Err, firstDiff(lr.is, lr.was))
	}
}

// --- C07 ---

func makeC07(e *Env, r *Rng, c *Case) {
	sv := randSvc(r, SvcOpt{Flows: []string{"cli", "load"}, Cache: 1, Azure: true, Old: r.P(1, 4), Small: r.P(1, 3)})
	c.Svcs = []*Svc{sv}
	e.direct(sv)
	fs := World(sv)
	roles := sv.Roles()
	run := func(a Attempt) bool {
		if a.Wipe {
			wipe(sv, fs)
		}
		g := e.generate(sv, fs, a.Roles, a.Seams, a.Sched, a.Plans, nil, false)
		return g.OK
	}
	add := func(a Attempt) bool { c.Attempts = append(c.Attempts, a); return run(a) }
	seams := func() proc.Seams {
		if r.P(1, 2) {
			return randSeams(r)
		}
		return proc.Seams{}
	}
	away := !under(sv.CachePath(), sv.Astra())
	if !add(Attempt{Roles: roles[:1], Seams: seams()}) {
		return
	}
	for i, n := 0, r.PickI(0, 0, 1, 1, 2, 3); i < n; i++ {
		a := Attempt{Roles: roles[1:], Seams: seams(), Wipe: away && r.P(1, 4)}
		switch r.N(4) {
		case 0: // once more from the start
			a.Roles = roles
		case 1, 2: // interrupted
			probe := fs.Clone()
			if a.Wipe {
				wipe(sv, probe)
			}
			g := e.generate(sv, probe, a.Roles, a.Seams, a.Sched, nil, nil, false)
			o := FaultOpt{Crash: true, Errno: true, Load: true, Global: true, Focus: sv.focusOutputs(fs)}
			if len(g.Runs) > 0 {
				if f := pickFault(r, g.Runs[0].P.Events, o); f != nil {
					a.Plans = [][]proc.Fault{{*f}}
				}
			}
		}
		add(a)
	}
	c.Attempts = append(c.Attempts, Attempt{Roles: roles[1:], Seams: seams(), Wipe: away && r.P(1, 3)})
}

func wipe(sv *Svc, fs *vfs.FS) { fs.Remove(sv.Astra()) }

// direct is what one process that does everything, without a cache, leaves.
func (e *Env) direct(sv *Svc) (*vfs.FS, *Gen) {
	d := *sv
	d.Flow, d.Cache = "parse", ""
	return e.reference(&d)
}

func runC07(e *Env, c *Case) {
	sv := c.Svcs[0]
	dfs, _ := e.direct(sv)
	want := sv.outFiles(dfs)
	fs := World(sv)
	for i, a := range c.Attempts {
		if a.Wipe {
			wipe(sv, fs)
		}
		g := e.generate(sv, fs, a.Roles, a.Seams, a.Sched, a.Plans, nil, false)
		e.Probe("attempt " + g.Verdict())
		e.nontriv = true
		faulted := false
		for _, p := range a.Plans {
			faulted = faulted || len(p) > 0
		}
		if !g.OK {
			if faulted {
				continue
			}
			violate(c, "fails", "step %d (%v) fails although one process that does everything succeeds: %s", i, a.Roles, g.Why())
		}
		last := a.Roles[len(a.Roles)-1]
		if last == "generate" || last == "second" {
			if faulted {
				continue // C03
			}
			if d := sameFiles(sv.outFiles(fs), want); d != "" {
				violate(c, "differs", "step %d (%v), compared with one process that does everything: %s", i, a.Roles, d)
			}
		}
	}
}
