package sim

import (
	"encoding/json"
	"path"
	"strings"

	"verifsim/internal/proc"
	"verifsim/internal/vfs"
)

// reference runs a generation on a fresh disk without faults.
func (e *Env) reference(sv *Svc) (*vfs.FS, *Gen) {
	q := e.quiet
	e.quiet = true
	defer func() { e.quiet = q }()
	fs := World(sv)
	g := e.generate(sv, fs, sv.Roles(), proc.Seams{}, Sched{}, nil, nil, true)
	if !g.OK {
		reject("reference: %s", g.Why())
	}
	return fs, g
}

// bad tells whether a process neither succeeded nor reported an error nor was killed.
func bad(r *PRun) bool {
	v := r.Verdict()
	return v == "panic" || v == "hang"
}

func cacheOf(sv *Svc, fs *vfs.FS) map[string]string {
	m := map[string]string{}
	if sv.HasCache() {
		if d, ok := get(fs, sv.CachePath()); ok {
			m[sv.CachePath()] = d
		}
	}
	return m
}

func merge(ms ...map[string]string) map[string]string {
	out := map[string]string{}
	for _, m := range ms {
		for k, v := range m {
			out[k] = v
		}
	}
	return out
}

// generated are the files of a generation: outputs (of azure: the functions of this configuration) and cache.
func (sv *Svc) generated(fs *vfs.FS) map[string]string {
	return merge(sv.outFiles(fs), cacheOf(sv, fs))
}

// --- C01 ---

func init() {
	register(&Property{ID: "C01", Make: makeC01, Run: runC01})
	register(&Property{ID: "C02", Make: makeC02, Run: runC02})
	register(&Property{ID: "C03", Make: makeC03, Run: runC03})
	register(&Property{ID: "C04", Make: makeC04, Run: runC04})
	register(&Property{ID: "C05", Make: makeC05, Run: runC05})
	register(&Property{ID: "C13", Make: makeC13, Run: runC13})
}

func makeC01(e *Env, r *Rng, c *Case) {
	sv := randSvc(r, SvcOpt{Flows: []string{"parse", "parse", "two", "steps", "cli", "load"}, Azure: true, Old: r.P(1, 3)})
	c.Svcs = []*Svc{sv}
	n := 3 + r.N(3)
	for i := 0; i < n; i++ {
		a := Attempt{Seams: randSeams(r), Sched: randSched(r)}
		if i == 0 { // extremes first: everything at once
			a.Seams.MapMode, a.Seams.MapSeed = 1, r.U64()
			a.Seams.LoadSeed, a.Seams.DirSeed = r.U64(), r.U64()
		}
		if i > 0 && r.P(1, 4) {
			a.Keep = true
		} else if r.P(1, 4) {
			a.Moved = true
		}
		c.Attempts = append(c.Attempts, a)
	}
}

// The places of a checkout and those of a moved one.
var places = []string{"/home/u", "/data/ci runner/4", "/srv", "/mnt/x"}

// moved is the service of a checkout in another directory.
func (sv *Svc) moved() *Svc {
	b, err := json.Marshal(sv)
	if err != nil {
		panic(err)
	}
	m := &Svc{}
	if err := json.Unmarshal([]byte(strings.NewReplacer(places...).Replace(string(b))), m); err != nil {
		panic(err)
	}
	return m
}

// back are files of a moved checkout as they would be at the place that it came from.
func back(files map[string]string) map[string]string {
	re := strings.NewReplacer(places[1], places[0], places[3], places[2])
	out := map[string]string{}
	for k, v := range files {
		out[re.Replace(k)] = re.Replace(v)
	}
	return out
}

func runC01(e *Env, c *Case) {
	home := c.Svcs[0]
	rfs, rg := e.reference(home)
	want := home.generated(rfs)
	var fs *vfs.FS
	sv, same := home, func(m map[string]string) map[string]string { return m }
	for i, a := range c.Attempts {
		if fs == nil || !a.Keep {
			sv, same = home, func(m map[string]string) map[string]string { return m }
			if a.Moved {
				sv, same = home.moved(), back
			}
			fs = World(sv)
			fs.MkdirAll(places[1] + "/other")
		}
		g := e.generate(sv, fs, sv.Roles(), a.Seams, a.Sched, nil, nil, true)
		e.nontriv = true
		if !g.OK {
			violate(c, "outcome", "run %d of the same project fails: %s", i, g.Why())
		}
		if d := sameFiles(same(sv.generated(fs)), want); d != "" {
			violate(c, "bytes", "run %d of the same project (seams %+v): %s", i, a.Seams, d)
		}
		// the cache that the first of two processes leaves
		for k := range g.Disks {
			if a.Keep || k >= len(rg.Disks) {
				continue
			}
			if d := sameFiles(same(cacheOf(sv, g.Disks[k])), cacheOf(home, rg.Disks[k])); d != "" {
				violate(c, "bytes", "run %d of the same project, after %s: %s", i, g.Runs[k].Role, d)
			}
		}
	}
}

// --- histories of faulted attempts ---

// makeAttempts plants faults into n attempts, each placed by what the process would do on the disk it finds.
func makeAttempts(e *Env, r *Rng, c *Case, sv *Svc, fs *vfs.FS, n int, o FaultOpt, perRun func() int) *vfs.FS {
	for i := 0; i < n; i++ {
		a := Attempt{Keep: i > 0}
		if r.P(1, 3) {
			a.Seams = randSeams(r)
		}
		if r.P(1, 6) {
			a.Sched = randSched(r)
		}
		probe := fs.Clone()
		g := e.generate(sv, probe, sv.Roles(), a.Seams, a.Sched, nil, nil, false)
		fo := o
		fo.Focus = sv.focusOutputs(fs)
		k := r.N(len(g.Runs))
		if len(g.Runs) > 1 && r.P(1, 2) {
			k = len(g.Runs) - 1
		}
		a.Plans = make([][]proc.Fault, len(g.Runs))
		for j, m := 0, perRun(); j < m; j++ {
			q := k
			if j > 0 && r.P(1, 3) {
				q = r.N(len(g.Runs))
			}
			if f := pickFault(r, g.Runs[q].P.Events, fo); f != nil {
				a.Plans[q] = append(a.Plans[q], *f)
			}
		}
		c.Attempts = append(c.Attempts, a)
		if i+1 < n {
			e.generate(sv, fs, sv.Roles(), a.Seams, a.Sched, a.Plans, nil, false)
		}
	}
	return fs
}

func makeHistory(e *Env, r *Rng, c *Case, sv *Svc) {
	e.reference(sv)
	n := r.PickI(1, 1, 1, 2, 2, 3)
	o := FaultOpt{Crash: true, Errno: r.P(2, 3), Load: true, Global: true}
	makeAttempts(e, r, c, sv, World(sv), n, o, func() int { return r.PickI(1, 1, 1, 2, 3) })
	for i := range c.Attempts {
		c.Attempts[i].Keep = true
	}
	if r.P(1, 3) {
		c.Seams = randSeams(r)
	}
}

func makeC02(e *Env, r *Rng, c *Case) {
	sv := randSvc(r, SvcOpt{Flows: []string{"parse", "parse", "two", "steps", "cli", "cli", "load"}, Azure: true, Old: r.P(1, 3), Small: r.P(1, 2)})
	c.Svcs = []*Svc{sv}
	makeHistory(e, r, c, sv)
}

func (e *Env) history(c *Case, sv *Svc, fs *vfs.FS, each func(i int, g *Gen)) {
	for i, a := range c.Attempts {
		g := e.generate(sv, fs, sv.Roles(), a.Seams, a.Sched, a.Plans, nil, false)
		e.Probe("attempt " + g.Verdict())
		if each != nil {
			each(i, g)
		}
	}
}

func runC02(e *Env, c *Case) {
	sv := c.Svcs[0]
	want, _ := e.reference(sv)
	fs := World(sv)
	e.history(c, sv, fs, nil)
	g := e.generate(sv, fs, sv.Roles(), c.Seams, c.Sched, nil, nil, false)
	if !g.OK {
		violate(c, "fails", "the next run without faults fails: %s", g.Why())
	}
	if d := sameTree(fs, want, nil); d != "" {
		violate(c, "differs", "after the next run without faults, compared with a fresh checkout: %s", d)
	}
}

// --- C03 ---

func makeC03(e *Env, r *Rng, c *Case) {
	sv := randSvc(r, SvcOpt{Flows: []string{"parse", "parse", "two", "steps", "cli", "cli", "load"}, Azure: true, Old: r.P(2, 3), Small: r.P(1, 2)})
	c.Svcs = []*Svc{sv}
	e.reference(sv)
	makeAttempts(e, r, c, sv, World(sv), 1, FaultOpt{Errno: true, Global: true, Load: r.P(1, 3)}, func() int { return r.PickI(1, 1, 1, 1, 2, 3) })
}

func runC03(e *Env, c *Case) {
	sv := c.Svcs[0]
	want, rg := e.reference(sv)
	fs := World(sv)
	a := c.Attempts[0]
	g := e.generate(sv, fs, sv.Roles(), a.Seams, a.Sched, a.Plans, nil, true)
	e.Probe("attempt " + g.Verdict())
	for i, run := range g.Runs {
		if bad(run) {
			violate(c, run.Verdict(), "%s", run.Why())
		}
		if run.Verdict() == "ok" && i < len(rg.Disks) {
			if d := sameFiles(cacheOf(sv, g.Disks[i]), cacheOf(sv, rg.Disks[i])); d != "" {
				violate(c, "cache", "%s reports success, but the cache: %s", run.Role, d)
			}
		}
	}
	if g.OK {
		if e.CaseFired > 0 {
			e.Probe("success in spite of faults")
		}
		got := sv.outFiles(fs)
		for _, f := range sv.wantFiles() {
			if _, ok := got[f]; !ok {
				violate(c, "missing", "success reported, but %s is not there", f)
			}
		}
		if d := sameFiles(got, sv.outFiles(want)); d != "" {
			violate(c, "contents", "success reported, but %s", d)
		}
	}
}

// --- C04 ---

// zones are the places a service may touch.
type zones struct {
	sv     *Svc
	init   map[string]vfs.Entry
	outs   map[string]bool // output and cache files (and what they link to)
	dirs   map[string]bool // directories that hold them
	azure  []string
	fns    map[string]bool
	funcs  map[string]bool // definitions of functions of this configuration or generated earlier
	parent map[string]bool // missing parents of outputs
	note   string
}

func (sv *Svc) zones(fs *vfs.FS) *zones {
	z := &zones{sv: sv, init: fs.Tree("/"), outs: map[string]bool{}, dirs: map[string]bool{}, parent: map[string]bool{}, fns: map[string]bool{}, funcs: map[string]bool{}}
	addFile := func(p string) {
		for i := 0; i < 5; i++ {
			z.outs[p] = true
			z.dirs[path.Dir(p)] = true
			for d := path.Dir(p); d != "/"; d = path.Dir(d) {
				z.parent[d] = true
			}
			en, ok := z.init[p]
			if !ok || en.Target == "" {
				break
			}
			if path.IsAbs(en.Target) {
				p = path.Clean(en.Target)
			} else {
				p = path.Join(path.Dir(p), en.Target)
			}
		}
	}
	for _, o := range sv.Outputs {
		p := sv.OutPath(o)
		if o.Mode != "azure" {
			addFile(p)
			continue
		}
		z.azure = append(z.azure, p)
		z.dirs[path.Dir(p)] = true
		for d := p; d != "/"; d = path.Dir(d) {
			z.parent[d] = true
		}
		for _, rt := range sv.Rend().Routes {
			if !sv.denied(rt.Path) {
				z.fns[funcName(rt.Func)] = true
				z.funcs[path.Join(p, funcName(rt.Func), "function.json")] = true
			}
		}
		// functions an earlier run generated: a directory that holds a definition of our form and nothing else
		for _, k := range sortedKeys(z.init) {
			if path.Base(k) != "function.json" || path.Dir(path.Dir(k)) != p {
				continue
			}
			only := true
			for q := range z.init {
				if q != k && path.Dir(q) == path.Dir(k) {
					only = false
				}
			}
			if only && generatedShape(z.init[k].Data) {
				z.funcs[k], z.funcs[path.Dir(k)] = true, true
			}
		}
	}
	if sv.HasCache() {
		addFile(sv.CachePath())
	}
	return z
}

func generatedShape(s string) bool {
	return strings.Contains(s, `"httpTrigger"`) && strings.Contains(s, `"options"`) && strings.Contains(s, `"res"`) && strings.HasPrefix(s, "{\n  \"bindings\": [\n")
}

// free tells whether a path may be created, changed or removed.
func (z *zones) free(p string) bool {
	if under(p, z.sv.Astra()) || z.outs[p] || z.funcs[p] {
		return true
	}
	_, there := z.init[p]
	if there {
		return false
	}
	// new: a temporary sibling of an output, of the cache or of a function directory, or a directory for one
	for d := range z.dirs {
		if under(p, d) && !strings.Contains(strings.TrimPrefix(p, strings.TrimSuffix(d, "/")+"/"), "/") {
			return true
		}
		// inside a new (temporary) directory next to them
		if under(p, d) {
			top := path.Join(d, strings.SplitN(strings.TrimPrefix(p, strings.TrimSuffix(d, "/")+"/"), "/", 2)[0])
			if _, ok := z.init[top]; !ok {
				return true
			}
		}
	}
	for _, a := range z.azure {
		if under(p, a) {
			return true
		}
	}
	return z.parent[p]
}

// lasting tells whether a path may be there after a successful run.
func (z *zones) lasting(p string) bool {
	if under(p, z.sv.Astra()) || z.outs[p] || z.funcs[p] || z.parent[p] {
		return true
	}
	for _, a := range z.azure {
		if path.Dir(p) == a && z.fns[path.Base(p)] {
			return true
		}
	}
	return false
}

// intact compares everything that has to stay, at or below a path.
func (z *zones) intact(fs *vfs.FS, at string) string {
	for k, en := range z.init {
		if at != "" && !under(k, at) || z.free(k) {
			continue
		}
		n := fs.Lstat(k)
		switch {
		case n == nil:
			return k + " is gone"
		case n.Kind != en.Kind:
			return k + " changed its kind"
		case n.Kind == vfs.File && string(n.Data) != en.Data:
			return k + " was changed: " + firstDiff(string(n.Data), en.Data)
		case n.Perm != en.Perm:
			return k + " has other permissions"
		case n.Target != en.Target:
			return k + " links elsewhere"
		}
	}
	return ""
}

func makeC04(e *Env, r *Rng, c *Case) {
	sv := randSvc(r, SvcOpt{Flows: []string{"parse", "parse", "two", "steps", "cli", "load"}, Azure: true, Old: r.P(4, 5), Small: r.P(1, 2)})
	c.Svcs = []*Svc{sv}
	e.reference(sv)
	if r.P(1, 4) {
		c.Attempts = []Attempt{{Seams: randSeams(r), Keep: true}, {Keep: true}}
		return
	}
	n := r.PickI(1, 1, 2, 3)
	makeAttempts(e, r, c, sv, World(sv), n, FaultOpt{Crash: r.P(1, 2), Errno: true, Load: true, Global: true}, func() int { return r.PickI(1, 1, 1, 2) })
	for i := range c.Attempts {
		c.Attempts[i].Keep = true
	}
}

func runC04(e *Env, c *Case) {
	sv := c.Svcs[0]
	fs := World(sv)
	z := sv.zones(fs)
	obs := func(role string, p *proc.Proc, ev *proc.Event) {
		if !ev.Mut || p.Panic != "" {
			return
		}
		for _, q := range []string{ev.Path, ev.Path2} {
			if !strings.HasPrefix(q, "/") || z.note != "" {
				continue
			}
			if !z.free(q) && (ev.Name == "symlink" && q == ev.Path2) {
				continue // only the target's name
			}
			if !z.free(q) {
				if _, there := z.init[q]; !there {
					z.note = role + ": " + ev.String() + ": touches " + q
					return
				}
			}
			if d := z.intact(fs, q); d != "" {
				z.note = role + ": " + ev.String() + ": " + d
			}
		}
	}
	for _, a := range c.Attempts {
		before := fs.Tree("/")
		g := e.generate(sv, fs, sv.Roles(), a.Seams, a.Sched, a.Plans, obs, false)
		e.Probe("attempt " + g.Verdict())
		if z.note != "" {
			violate(c, "touches", "%s", z.note)
		}
		if d := z.intact(fs, ""); d != "" {
			violate(c, "touches", "after a run that ended with %s: %s", g.Verdict(), d)
		}
		for _, k := range sortedKeys(fs.Tree("/")) {
			if _, ok := z.init[k]; !ok && !z.free(k) {
				violate(c, "touches", "after a run that ended with %s: %s was created", g.Verdict(), k)
			}
			if _, ok := before[k]; !ok && g.OK && !z.lasting(k) {
				violate(c, "touches", "after a run that ended with %s: %s was created and is still there", g.Verdict(), k)
			}
		}
	}
}

// --- C05 ---

func makeC05(e *Env, r *Rng, c *Case) {
	sv := randSvc(r, SvcOpt{Flows: []string{"parse", "parse", "two", "steps", "cli", "cli", "load"}, Azure: true, Old: r.P(1, 2), Small: r.P(1, 2)})
	c.Svcs = []*Svc{sv}
	makeHistory(e, r, c, sv)
}

// leftovers lists what a successful run may not leave.
func (sv *Svc) leftovers(fs *vfs.FS, init map[string]vfs.Entry) string {
	allowed := map[string]bool{}
	parents := func(p string) {
		for d := path.Dir(p); d != "/"; d = path.Dir(d) {
			allowed[d] = true
		}
	}
	for _, o := range sv.Outputs {
		p := sv.OutPath(o)
		allowed[p] = true
		parents(p)
		if en, ok := init[p]; ok && en.Target != "" {
			allowed[path.Join(path.Dir(p), en.Target)] = true
		}
	}
	for _, f := range sv.wantFiles() {
		allowed[f] = true
		parents(f)
	}
	if !under(sv.WD(), sv.Astra()) {
		delete(allowed, sv.Astra())
	}
	if sv.HasCache() {
		allowed[sv.CachePath()] = true
		parents(sv.CachePath())
		allowed[sv.Astra()] = true
		allowed[path.Join(sv.Astra(), ".gitignore")] = true
	}
	for _, k := range sortedKeys(fs.Tree("/")) {
		if under(k, sv.Astra()) {
			if !allowed[k] {
				return k + " is left behind"
			}
			continue
		}
		if _, ok := init[k]; ok || allowed[k] {
			continue
		}
		return k + " is left behind"
	}
	if n := fs.Lookup(sv.Astra()); n != nil {
		d, ok := get(fs, path.Join(sv.Astra(), ".gitignore"))
		if !ok {
			return ".astra has no .gitignore"
		}
		all := false
		for _, l := range strings.Split(d, "\n") {
			l = strings.TrimSpace(l)
			if l == "*" || l == "**" || l == "/**" || l == "/*" {
				all = true
			}
			if strings.HasPrefix(l, "!") {
				all = false
			}
		}
		if !all {
			return ".astra/.gitignore does not ignore everything: " + d
		}
	}
	return ""
}

func runC05(e *Env, c *Case) {
	sv := c.Svcs[0]
	e.reference(sv)
	fs := World(sv)
	init := fs.Tree("/")
	e.history(c, sv, fs, func(i int, g *Gen) {
		if g.OK {
			if d := sv.leftovers(fs, init); d != "" {
				violate(c, "left", "attempt %d succeeds with a fault, but %s", i, d)
			}
		}
	})
	g := e.generate(sv, fs, sv.Roles(), c.Seams, c.Sched, nil, nil, false)
	if !g.OK {
		reject("the last run fails (C02): %s", g.Why())
	}
	if d := sv.leftovers(fs, init); d != "" {
		violate(c, "left", "after a successful run: %s", d)
	}
}

// --- C13 ---

func makeC13(e *Env, r *Rng, c *Case) {
	sv := randSvc(r, SvcOpt{Flows: []string{"parse", "parse", "two", "steps", "cli", "load"}, Azure: true, Old: r.P(4, 5), Small: r.P(1, 2), Cache: r.PickI(0, 2, 2)})
	c.Svcs = []*Svc{sv}
	e.reference(sv)
	fs := World(sv)
	if r.P(1, 2) { // outputs of an older version of the project
		old := copyJSON(sv)
		old.Old = nil
		old.Spec = randSpec(r, true)
		old.Spec.Up = sv.Spec.Up
		old.Config = randConfig(r)
		ofs := World(old)
		old.Old = sv.Old
		for _, o := range sv.Old {
			if strings.HasSuffix(o.Path, "/") {
				ofs.MkdirAll(path.Join(sv.Root, o.Path))
			}
		}
		if g := e.generate(old, ofs, old.Roles(), proc.Seams{}, Sched{}, nil, nil, false); g.OK {
			for k, d := range old.outFiles(ofs) {
				if _, ok := get(fs, k); !ok {
					sv.Old = append(sv.Old, Old{Path: sv.rel(k), Data: d})
				}
			}
			fs = World(sv)
		}
	}
	n := r.PickI(1, 1, 1, 2, 3)
	makeAttempts(e, r, c, sv, fs, n, FaultOpt{Crash: true, Errno: r.P(2, 3), Global: true}, func() int { return r.PickI(1, 1, 1, 2) })
	for i := range c.Attempts {
		c.Attempts[i].Keep = true
	}
}

func runC13(e *Env, c *Case) {
	sv := c.Svcs[0]
	want, _ := e.reference(sv)
	fs := World(sv)
	next := sv.outFiles(want)
	prev := sv.outFiles(fs)
	paths := merge(next, prev)
	keys := sortedKeys(paths)
	note := ""
	look := func(where string) {
		for _, k := range keys {
			d, ok := get(fs, k)
			o, was := prev[k]
			n, will := next[k]
			switch {
			case ok && (was && d == o || will && d == n):
			case !ok && !was:
			case !ok && !will: // a function that does not exist any more
			case !ok:
				note = where + ": " + k + " is missing"
			default:
				note = where + ": " + k + " is neither the previous nor the new one: " + firstDiff(d, n)
			}
			if note != "" {
				return
			}
		}
		// no function that is not one of those
		for k := range sv.outFiles(fs) {
			if _, ok := paths[k]; !ok {
				note = where + ": " + k + " is new"
				return
			}
		}
	}
	for i, a := range c.Attempts {
		obs := func(role string, p *proc.Proc, ev *proc.Event) {
			if note == "" && ev.Mut {
				look(role + ": " + ev.String())
			}
		}
		g := e.generate(sv, fs, sv.Roles(), a.Seams, a.Sched, a.Plans, obs, false)
		e.Probe("attempt " + g.Verdict())
		if note == "" {
			look("after attempt")
		}
		if note != "" {
			violate(c, "torn", "attempt %d: %s", i, note)
		}
		prev = sv.outFiles(fs)
	}
}
