package sim

import (
	"fmt"
	"path"
	"strings"

	"verifsim/internal/proc"
	"verifsim/internal/proj"
	"verifsim/internal/vfs"
)

func init() {
	register(&Property{ID: "C08", Make: makeC08, Run: runC08})
	register(&Property{ID: "C09", Make: makeC09, Run: runC09})
	register(&Property{ID: "C10", Make: makeC10, Run: runC10})
	register(&Property{ID: "C12", Make: makeC12, Run: runC12})
}

// --- C08 ---

func makeC08(e *Env, r *Rng, c *Case) {
	sv := randSvc(r, SvcOpt{Flows: []string{"parse", "two", "steps"}, Cache: r.PickI(0, 1, 1), Azure: true, Old: r.P(1, 2), Small: true})
	sv.LoadBy = r.Pick("", "path")
	c.Svcs = []*Svc{sv}
	e.reference(sv)
	for i, n := 0, 1+r.N(4); i < n; i++ {
		a := Act{Do: r.Pick("run", "run", "again", "abandon")}
		if sv.Cache != "" {
			a.Do = r.Pick("run", "again", "abandon", "load", "loadpath", "clear", "cache", "second")
		}
		if a.Do == "abandon" {
			a.N = 1 + r.N(5)
		}
		if a.Do == "second" {
			sv.Split = 5
		}
		c.Acts = append(c.Acts, a)
	}
	if r.P(1, 3) {
		c.Seams = randSeams(r)
	}
	s := e.Session(c, World(sv), sv.Cwd, c.Acts, nil, nil)
	o := FaultOpt{Errno: true, Load: true, Global: true, Focus: sv.focusOutputs(nil)}
	for j, m := 0, r.PickI(0, 1, 1, 1, 2, 3); j < m; j++ {
		if f := pickFault(r, s.P.Events, o); f != nil {
			c.Plan = append(c.Plan, *f)
		}
	}
}

func runC08(e *Env, c *Case) {
	sv := c.Svcs[0]
	s := e.Session(c, World(sv), sv.Cwd, c.Acts, c.Plan, nil)
	for i, a := range s.Acts {
		e.nontriv = e.nontriv || i > 0
		e.Probe(c.Acts[i].Do + " " + a.Verdict())
		for _, st := range a.Rec.Steps {
			if len(st.Leak) > 0 {
				how := "succeeds"
				if st.Err != "" {
					how = "fails (" + st.Err + ")"
				}
				violate(c, "leak", "%s (act %d, %s) %s and leaves open %v", st.Name, i, c.Acts[i].Do, how, st.Leak)
			}
		}
		if a.Rec.Panic == "" && a.Rec.Done {
			if l := diffMulti(a.After, a.Base); len(l) > 0 {
				violate(c, "leak", "act %d (%s) leaves open %v", i, c.Acts[i].Do, l)
			}
		}
	}
}

// --- C09 ---

func makeC09(e *Env, r *Rng, c *Case) {
	n := r.PickI(2, 2, 2, 3, 4)
	c.Parallel = true
	shared := randSpec(r, true)
	shared.Up = ""
	for i := 0; i < n; i++ {
		root := fmt.Sprintf("/home/u/%s", []string{"app", "api", "srv", "app2"}[i])
		sv := randSvc(r, SvcOpt{Flows: []string{"parse", "parse", "two", "steps"}, Cache: 0, Azure: true, Old: r.P(1, 4), Small: r.P(2, 3), Root: root, Simple: true})
		if r.P(1, 3) { // the same module, another version of it
			sv.Spec.Module, sv.Spec.GoMod = shared.Module, shared.GoMod
			if r.P(1, 3) {
				sv.Spec = copyJSON(shared)
				for _, o := range sv.Outputs {
					if o.Mode == "azure" {
						sv.Spec.OneFunc1()
					}
				}
			}
			sv.rend = nil
		}
		sv.Cwd = "/home/u"
		sv.WorkDir = r.Pick(root, path.Base(root))
		if sv.Cache != "" && sv.Cache != "default" {
			sv.Cache = path.Join(root, r.Pick("cache.yaml", "c.json"))
		}
		for j := range sv.Outputs {
			if strings.HasPrefix(sv.Outputs[j].Path, "..") {
				sv.Outputs[j].Path = "own.json"
			}
		}
		if len(sv.Outputs) > 1 && sv.Outputs[0] == sv.Outputs[1] {
			sv.Outputs = sv.Outputs[:1]
		}
		sv.Deny, sv.DenyFn, sv.DenyRe = nil, nil, nil
		sv.Stub = i * 8 % 32
		sv.Log = r.Pick("nop", "nop", "", "buf")
		c.Svcs = append(c.Svcs, sv)
		c.Acts = append(c.Acts, Act{Svc: i, Do: r.Pick("run", "run", "run", "again")})
	}
	c.Sched = Sched{Seed: r.U64(), SwitchP: uint32(r.PickI(8, 64, 512, 4096, 20000))}
	if r.P(1, 3) {
		c.Seams = randSeams(r)
	}
	c.Seams.MapMode = 0 // alone and together have to draw the same
	c.Seams.LoadSeed = 0
	e.soloRuns(c)
	if r.P(1, 4) { // one of them fails
		sv := c.Svcs[0]
		solo := *c
		solo.Parallel = false
		s := e.Session(&solo, World(c.Svcs...), sv.Cwd, c.Acts[:1], nil, nil)
		o := FaultOpt{Errno: true, Only: func(ev *proc.Event) bool { return under(ev.Path, sv.Root) }}
		if f := pickFault(r, s.P.Events, o); f != nil {
			c.Plan = append(c.Plan, *f)
		}
	}
}

type solo struct {
	verdict string
	files   map[string]string
}

// soloRuns runs every service of a session alone.
func (e *Env) soloRuns(c *Case) []solo {
	q := e.quiet
	e.quiet = true
	defer func() { e.quiet = q }()
	var out []solo
	for i, a := range c.Acts {
		sv := c.Svcs[a.Svc]
		fs := World(c.Svcs...)
		one := *c
		one.Parallel = false
		one.Sched = Sched{}
		s := e.Session(&one, fs, sv.Cwd, []Act{a}, nil, nil)
		if s.Bad() != "" || s.Acts[0].Verdict() != "ok" {
			dumpSources(sv)
			reject("alone, service %d: %s %s %s", i, s.Acts[0].Verdict(), s.Acts[0].Rec.Err, s.Bad())
		}
		out = append(out, solo{s.Acts[0].Verdict(), sv.generated(fs)})
	}
	return out
}

func runC09(e *Env, c *Case) {
	alone := e.soloRuns(c)
	fs := World(c.Svcs...)
	s := e.Session(c, fs, c.Svcs[0].Cwd, c.Acts, c.Plan, nil)
	if b := s.Bad(); b != "" {
		violate(c, "process", "services running concurrently: %s", b)
	}
	if len(s.St.Switches) > 0 {
		e.Probe("interleaved")
	}
	if r := e.races(); r != "" {
		violate(c, "race", "services running concurrently share memory without synchronisation:\n%s", r)
	}
	for i, a := range c.Acts {
		if len(c.Plan) > 0 && i == 0 {
			continue
		}
		sv := c.Svcs[a.Svc]
		if v := s.Acts[i].Verdict(); v != alone[i].verdict {
			violate(c, "outcome", "service %d ends with %s (%s %s) when others run, alone with %s", i, v, s.Acts[i].Rec.Err, s.Acts[i].Rec.Panic, alone[i].verdict)
		}
		if d := sameFiles(sv.generated(fs), alone[i].files); d != "" {
			violate(c, "outputs", "service %d, compared with running alone: %s", i, d)
		}
	}
}

// --- C10 ---

func makeC10(e *Env, r *Rng, c *Case) {
	n := r.PickI(1, 2, 2, 3)
	base := randSvc(r, SvcOpt{Flows: []string{"parse", "two", "steps"}, Azure: true, Small: r.P(2, 3), Simple: true, Root: "/home/u/app", Old: r.P(1, 5)})
	base.Stub = 0 // the services must not share handlers
	base.Cwd = "/home/u"
	base.WorkDir = r.Pick(base.Root, path.Base(base.Root))
	fix := func(sv *Svc) {
		if sv.Cache != "" && sv.Cache != "default" {
			sv.Cache = path.Join(sv.Root, r.Pick("cache.yaml", "c.json"))
		}
	}
	fix(base)
	c.Svcs = []*Svc{base}
	for i := 1; i < n; i++ {
		sv := randSvc(r, SvcOpt{Flows: []string{"parse", "two", "steps"}, Azure: true, Small: r.P(2, 3), Simple: true, Root: "/home/u/app"})
		sv.Cwd, sv.WorkDir = base.Cwd, r.Pick(base.Root, path.Base(base.Root))
		switch r.N(4) {
		case 0: // the same project, other settings
			sv.Spec = copyJSON(base.Spec)
		case 1: // another project elsewhere, with the same import paths
			sv.Root = "/home/u/api"
			sv.WorkDir = r.Pick(sv.Root, "api")
			sv.Spec.Module, sv.Spec.GoMod = base.Spec.Module, base.Spec.GoMod
		case 2: // the same project, changed
			sv.Spec = mutate(r, base.Spec)
		case 3:
			sv.Root = "/home/u/api"
			sv.WorkDir = r.Pick(sv.Root, "api")
		}
		sv.rend = nil
		sv.Deny, sv.DenyFn, sv.DenyRe = nil, nil, nil
		if sv.Cache != "" {
			fix(sv)
		}
		sv.Stub = (i * 8) % 32
		c.Svcs = append(c.Svcs, sv)
	}
	k := 1 + r.N(4)
	last := r.N(n)
	on := 0 // whose sources are there
	use := func(i int) {
		if c.Svcs[i].Root == base.Root && on != i {
			on = i
			c.Acts = append(c.Acts, Act{Svc: i, Do: "install"})
		}
	}
	for i := 0; i < k; i++ {
		a := Act{Svc: r.N(n), Do: r.Pick("run", "run", "again", "abandon", "abandon")}
		if r.P(1, 3) {
			a.Svc = last
		}
		if a.Do == "abandon" {
			a.N = 1 + r.N(5)
		}
		use(a.Svc)
		c.Acts = append(c.Acts, a)
	}
	use(last)
	m := len(c.Acts)
	c.Acts = append(c.Acts, Act{Svc: last, Do: r.Pick("run", "run", "again", "again"), Calm: true})
	if r.P(1, 2) {
		c.Seams = randSeams(r)
	}
	if r.P(2, 3) { // earlier ones fail
		s := e.Session(c, e.c10World(c), base.Cwd, c.Acts, nil, nil)
		o := FaultOpt{Errno: true, Load: true, Global: true, Only: func(ev *proc.Event) bool { return ev.Op <= s.Acts[m].From }}
		for j, q := 0, 1+r.N(2); j < q; j++ {
			if f := pickFault(r, s.P.Events, o); f != nil {
				c.Plan = append(c.Plan, *f)
			}
		}
	}
}

// atOf finds the number of the call a fault is placed at.
func atOf(evs []proc.Event, f *proc.Fault) int {
	for i := range evs {
		if evs[i].Name == f.Op && evs[i].Path == f.Path && evs[i].Nth == f.Nth {
			return evs[i].Op
		}
	}
	return 0
}

// mutate changes a project a little.
func mutate(r *Rng, s *proj.Spec) *proj.Spec {
	t := copyJSON(s)
	for i := range t.Types {
		ty := &t.Types[i]
		if r.P(1, 2) {
			ty.Doc = ty.Doc + r.Pick("changed", "")
		}
		for j := range ty.Fields {
			if r.P(1, 3) && !ty.Fields[j].Embed {
				ty.Fields[j].Tag = fmt.Sprintf(`json:"changed_%d"`, j)
			}
			if r.P(1, 6) && !ty.Fields[j].Embed {
				ty.Fields[j].Type = proj.Ref{K: "basic", N: r.Pick("string", "int64", "bool")}
			}
		}
	}
	for i := range t.Handlers {
		if r.P(1, 4) {
			t.Handlers[i].Doc += "New words."
		}
		if len(t.Handlers) > 1 && i > 0 && r.P(1, 5) {
			t.Handlers[i].Drop = true
		}
	}
	return t
}

func (e *Env) c10World(c *Case) *vfs.FS {
	// the first service's sources are there; services elsewhere have theirs
	var there []*Svc
	there = append(there, c.Svcs[0])
	for _, sv := range c.Svcs[1:] {
		if sv.Root != c.Svcs[0].Root {
			there = append(there, sv)
		}
	}
	fs := World(there...)
	for _, sv := range c.Svcs {
		for _, o := range sv.Old {
			if strings.HasSuffix(o.Path, "/") {
				fs.MkdirAll(path.Join(sv.Root, o.Path))
			}
		}
	}
	return fs
}

func runC10(e *Env, c *Case) {
	fs := e.c10World(c)
	s := e.Session(c, fs, c.Svcs[0].Cwd, c.Acts, c.Plan, nil)
	k := len(c.Acts) - 1
	if !c.Acts[k].Calm {
		reject("faults do not stop")
	}
	last := s.Acts[k]
	if b := s.Bad(); b != "" || last.Before == nil {
		reject("an earlier service ended the process: %s", b)
	}
	for i := range s.Acts[:k] {
		e.nontriv = true
		e.Probe("earlier " + c.Acts[i].Do + " " + s.Acts[i].Verdict())
	}
	// the same in a process of its own
	sv := c.Svcs[c.Acts[k].Svc]
	fresh := last.Before.Clone()
	one := *c
	one.Plan = nil
	act := c.Acts[k]
	act.Do = "run"
	f := e.Session(&one, fresh, sv.Cwd, []Act{act}, nil, nil)
	if b := f.Bad(); b != "" {
		reject("alone: %s", b)
	}
	fv := f.Acts[0]
	if fv.Verdict() != "ok" {
		e.Probe("alone " + fv.Verdict())
	}
	if last.Verdict() != fv.Verdict() {
		violate(c, "outcome", "the last service ends with %s (%s%s) after others in the same process, in its own process with %s (%s)", last.Verdict(), last.Rec.Err, last.Rec.Panic, fv.Verdict(), fv.Rec.Err)
	}
	if fv.Verdict() == "ok" {
		if d := sameFiles(sv.generated(fs), sv.generated(fresh)); d != "" {
			violate(c, "outputs", "the last service, compared with a process of its own: %s", d)
		}
	}
}

// --- C12 ---

func makeC12(e *Env, r *Rng, c *Case) {
	flows := []string{"parse", "two", "steps", "cli", "load"}
	sess := r.P(1, 2)
	if sess {
		flows = flows[:3]
	}
	sv := randSvc(r, SvcOpt{Flows: flows, Azure: r.P(1, 3), Old: r.P(1, 4), Small: r.P(1, 3)})
	c.Svcs = []*Svc{sv}
	_, rg := e.reference(sv)
	if !sess {
		if r.P(1, 2) {
			c.Seams = randSeams(r)
		}
		a := Attempt{Seams: c.Seams}
		g := rg
		if c.Seams != (proc.Seams{}) {
			g = e.generate(sv, World(sv), sv.Roles(), c.Seams, Sched{}, nil, nil, false)
		}
		a.Plans = make([][]proc.Fault, len(g.Runs))
		for i, run := range g.Runs {
			a.Plans[i] = loadFaults(r, run.P.Events)
		}
		c.Attempts = []Attempt{a}
		return
	}
	if r.P(1, 2) {
		c.Seams = randSeams(r)
	}
	if r.P(1, 2) { // broken sources
		ed, undo := breakSource(r, sv)
		c.Acts = []Act{{Do: "edit", Edits: ed}, {Do: "run"}, {Do: "edit", Edits: undo}, {Do: r.Pick("run", "again"), Calm: true}}
		return
	}
	c.Acts = []Act{{Do: "run"}, {Do: r.Pick("run", "again"), Calm: true}}
	s := e.Session(c, World(sv), sv.Cwd, c.Acts[:1], nil, nil)
	for _, f := range loadFaults(r, s.P.Events) {
		if f.Nth == 0 {
			f.Nth = 1
		}
		f.At, f.Op, f.Path, f.Nth = atOf(s.P.Events, &f), "", "", 0
		c.Plan = append(c.Plan, f)
	}
}

// loadFaults makes loads fail.
func loadFaults(r *Rng, evs []proc.Event) []proc.Fault {
	var loads []proc.Event
	for _, e := range evs {
		if e.Name == "load" {
			loads = append(loads, e)
		}
	}
	if len(loads) == 0 {
		return nil
	}
	var out []proc.Fault
	for i, n := 0, r.PickI(1, 1, 1, 2, 3); i < n; i++ {
		l := loads[r.N(len(loads))]
		f := proc.Fault{Op: "load", Path: l.Path, Nth: l.Nth, Kind: "load", Load: r.Pick(loadKinds...)}
		if r.P(1, 3) {
			f.Nth = 0 // whenever it is loaded
		}
		out = append(out, f)
	}
	return out
}

// breakSource makes a project not build, and undoes it.
func breakSource(r *Rng, sv *Svc) (ed, undo []Edit) {
	var gos []string
	rd := sv.Rend()
	for _, k := range sortedKeys(rd.Files) {
		if strings.HasSuffix(k, ".go") {
			gos = append(gos, k)
		}
	}
	k := gos[r.N(len(gos))]
	src := rd.Files[k]
	n := r.N(5)
	if n == 2 && !strings.Contains(src, "\nfunc ") && !strings.Contains(src, "\ntype ") {
		n = 1 // without a file that has only constants the project can still build
	}
	switch n {
	case 0:
		return []Edit{{Path: k, Data: src + "\nfunc broken( {\n"}}, []Edit{{Path: k, Data: src}}
	case 1:
		return []Edit{{Path: k, Data: src + "\nvar brokenVar int = \"text\"\n"}}, []Edit{{Path: k, Data: src}}
	case 2:
		return []Edit{{Path: k, Del: true}}, []Edit{{Path: k, Data: src}}
	case 3:
		n := path.Join(path.Dir(k), "zz_other.go")
		return []Edit{{Path: n, Data: "package somethingelse\n"}}, []Edit{{Path: n, Del: true}}
	default:
		return []Edit{{Path: k, Data: strings.Replace(src, "package ", "package \x00", 1)}}, []Edit{{Path: k, Data: src}}
	}
}

// undone says that the edits of a case undo one another.
func undone(c *Case) bool {
	n := map[string]int{}
	for _, a := range c.Acts {
		for _, ed := range a.Edits {
			n[ed.Path]++
		}
	}
	for _, k := range n {
		if k%2 != 0 {
			return false
		}
	}
	return true
}

func runC12(e *Env, c *Case) {
	sv := c.Svcs[0]
	want, _ := e.reference(sv)
	fs := World(sv)
	if len(c.Attempts) > 0 {
		a := c.Attempts[0]
		g := e.generate(sv, fs, sv.Roles(), a.Seams, a.Sched, a.Plans, nil, false)
		e.Probe("attempt " + g.Verdict())
		for _, run := range g.Runs {
			if bad(run) {
				violate(c, run.Verdict(), "%s", run.Why())
			}
		}
		if g.OK {
			if d := sameFiles(sv.outFiles(fs), sv.outFiles(want)); d != "" {
				violate(c, "shrinks", "success although a package could not be loaded, and %s", d)
			}
		}
		return
	}
	s := e.Session(c, fs, sv.Cwd, c.Acts, c.Plan, nil)
	if b := s.Bad(); b != "" {
		violate(c, "process", "%s", b)
	}
	k := -1 // the act after the cause is gone
	if n := len(c.Acts) - 1; n >= 0 && c.Acts[n].Calm && undone(c) {
		k = n
	}
	for i, a := range s.Acts {
		if c.Acts[i].Do == "edit" {
			e.nontriv = true
			continue
		}
		e.Probe(fmt.Sprintf("act %d %s", i, a.Verdict()))
		if a.Verdict() == "panic" {
			violate(c, "panic", "act %d: %s", i, a.Rec.Panic)
		}
		after := fs
		if i < len(s.Acts)-1 {
			after = s.Acts[i+1].Before
		}
		if i == k && a.Verdict() != "ok" {
			violate(c, "remembered", "the cause is gone, but the program still cannot generate: %s", a.Rec.Err)
		}
		if a.Verdict() == "ok" {
			if d := sameFiles(sv.outFiles(after), sv.outFiles(want)); d != "" {
				if i == k {
					violate(c, "remembered", "the cause is gone, but %s", d)
				}
				violate(c, "shrinks", "success although a package could not be loaded, and %s", d)
			}
		}
	}
}
