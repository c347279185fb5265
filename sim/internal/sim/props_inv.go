package sim

import (
	"encoding/json"
	"fmt"
	"os"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"

	"verifsim/internal/proc"
	"verifsim/internal/proj"
	"verifsim/internal/vfs"
)

// Properties that an independent model of the project decides: what was registered and declared is known from the
// generated project, not from another run of the code.

func init() {
	register(&Property{ID: "C14", Make: makeC14, Run: runC14})
	register(&Property{ID: "C16", Make: makeC16, Run: runC16})
	register(&Property{ID: "C18", Make: makeC18, Run: runC18})
}

// invOpt shapes the scenarios.
type invOpt struct {
	spec   func(r *Rng) *proj.Spec
	faults bool
	late   bool
	small  bool
	edits  bool
}

// makeInv makes a scenario: one generation over processes with faults, a program that does several things, or
// services side by side.
func makeInv(e *Env, r *Rng, c *Case, o invOpt) {
	switch r.N(10) {
	case 0, 1, 2, 3:
		sv := randSvc(r, SvcOpt{Flows: []string{"parse", "two", "steps", "cli", "cli", "load", "load"}, Azure: true, Old: r.P(1, 4), Spec: o.spec, Small: o.small})
		c.Svcs = []*Svc{sv}
		n := 1 + r.N(2)
		if o.faults && r.P(1, 2) {
			n = 1 + r.N(3)
		}
		fs := World(sv)
		for i := 0; i < n; i++ {
			a := Attempt{Keep: i > 0 && r.P(2, 3)}
			if r.P(1, 2) {
				a.Seams = randSeams(r)
			}
			if !a.Keep {
				fs = World(sv)
			}
			probe := fs.Clone()
			g := e.generate(sv, probe, sv.Roles(), a.Seams, a.Sched, nil, nil, false)
			if o.faults && r.P(1, 2) {
				k := r.N(len(g.Runs))
				fo := FaultOpt{Crash: true, Errno: true, Load: true, Global: true, Focus: sv.focusOutputs(fs)}
				a.Plans = make([][]proc.Fault, len(g.Runs))
				if f := pickFault(r, g.Runs[k].P.Events, fo); f != nil {
					a.Plans[k] = append(a.Plans[k], *f)
				}
				if g.OK {
					e.generate(sv, fs, sv.Roles(), a.Seams, a.Sched, a.Plans, nil, false)
				}
			} else {
				fs = probe
			}
			c.Attempts = append(c.Attempts, a)
		}
	case 4, 5, 6, 7:
		n := r.PickI(1, 1, 2, 3)
		for i := 0; i < n; i++ {
			c.Svcs = append(c.Svcs, sideSvc(r, i, o))
		}
		for i, k := 0, 2+r.N(4); i < k; i++ {
			a := Act{Svc: r.N(n), Do: r.Pick("run", "run", "again", "again", "abandon", "register")}
			if a.Do == "abandon" {
				a.N = 1 + r.N(5)
			}
			if a.Do == "register" {
				a.N = 1 + r.N(3)
				if !o.late {
					a.Do = "again"
				}
			}
			c.Acts = append(c.Acts, a)
		}
		if o.edits && r.P(1, 2) { // someone edits the sources meanwhile
			i := 1 + r.N(len(c.Acts))
			c.Acts = append(c.Acts[:i:i], append([]Act{{Svc: c.Acts[i-1].Svc, Do: "edit", N: 1 + r.N(1<<20)}}, c.Acts[i:]...)...)
			if r.P(1, 2) {
				c.Acts = append(c.Acts, Act{Svc: c.Acts[i-1].Svc, Do: "again"})
			}
		}
		calm := len(c.Acts)
		c.Acts = append(c.Acts, Act{Svc: r.N(n), Do: r.Pick("run", "again"), Calm: true})
		if r.P(1, 2) {
			c.Seams = randSeams(r)
		}
		if o.faults && r.P(1, 2) {
			s := e.Session(c, World(c.Svcs...), c.Svcs[0].Cwd, c.Acts, nil, nil)
			fo := FaultOpt{Errno: true, Load: true, Global: true, Only: func(ev *proc.Event) bool { return ev.Op <= s.Acts[calm].From }}
			for j, q := 0, 1+r.N(2); j < q; j++ {
				if f := pickFault(r, s.P.Events, fo); f != nil {
					c.Plan = append(c.Plan, *f)
				}
			}
		}
	default:
		n := r.PickI(2, 2, 3)
		c.Parallel = true
		for i := 0; i < n; i++ {
			c.Svcs = append(c.Svcs, sideSvc(r, i, o))
			c.Acts = append(c.Acts, Act{Svc: i, Do: r.Pick("run", "run", "again")})
		}
		c.Sched = Sched{Seed: r.U64(), SwitchP: uint32(r.PickI(8, 64, 512, 4096, 20000))}
		if r.P(1, 3) {
			c.Seams = randSeams(r)
		}
		if o.faults && r.P(1, 3) {
			sv := c.Svcs[0]
			solo := *c
			solo.Parallel = false
			s := e.Session(&solo, World(c.Svcs...), sv.Cwd, c.Acts[:1], nil, nil)
			if f := pickFault(r, s.P.Events, FaultOpt{Errno: true, Load: true, Only: func(ev *proc.Event) bool { return ev.Name == "load" || under(ev.Path, sv.Root) }}); f != nil {
				c.Plan = append(c.Plan, *f)
			}
		}
	}
}

// sideSvc is a service that shares a process with others.
func sideSvc(r *Rng, i int, o invOpt) *Svc {
	root := fmt.Sprintf("/home/u/%s", []string{"app", "api", "srv", "app2"}[i])
	sv := randSvc(r, SvcOpt{Flows: []string{"parse", "parse", "two", "steps"}, Azure: true, Old: r.P(1, 5), Small: r.P(1, 2), Root: root, Simple: true, Spec: o.spec})
	sv.Cwd = "/home/u"
	sv.WorkDir = r.Pick(root, path.Base(root))
	if sv.Cache != "" && sv.Cache != "default" {
		sv.Cache = path.Join(root, r.Pick("cache.yaml", "c.json"))
	}
	for j := range sv.Outputs {
		if strings.HasPrefix(sv.Outputs[j].Path, "..") {
			sv.Outputs[j].Path = "own.json"
		}
	}
	sv.Stub = i * 8 % 32
	if n := len(sv.Rend().Routes); o.late && n > 1 && r.P(1, 2) {
		sv.Late = 1 + r.N(n-1)
	}
	return sv
}

// runInv runs a scenario; check is called after every generation that reports success. A healthy one has to succeed.
func runInv(e *Env, c *Case, check func(sv *Svc, fs *vfs.FS, known int, when string), healthy bool) {
	ended := func(verdict, why, when string, faulty bool) {
		switch {
		case verdict == "hang" || verdict == "unfinished":
			violate(c, "endless", "%s: %s", when, why)
		case verdict == "panic":
			violate(c, "panic", "%s: %s", when, why)
		case verdict == "error" && !faulty && healthy:
			violate(c, "refused", "%s fails although nothing is wrong: %s", when, why)
		}
	}
	if len(c.Attempts) > 0 {
		sv := c.Svcs[0]
		var fs *vfs.FS
		for i, a := range c.Attempts {
			if fs == nil || !a.Keep {
				fs = World(sv)
			}
			g := e.generate(sv, fs, sv.Roles(), a.Seams, a.Sched, a.Plans, nil, false)
			e.nontriv = e.nontriv || i > 0 || len(g.Runs) > 1 || a.Seams != (proc.Seams{})
			for _, run := range g.Runs {
				e.Probe(run.Role + " " + run.Verdict())
				v := run.Verdict()
				if v == "crashed" {
					continue
				}
				ended(v, run.Why(), fmt.Sprintf("run %d (%s)", i, run.Role), len(a.Plans) > 0)
			}
			if g.OK {
				check(sv, fs, len(sv.Rend().Routes), fmt.Sprintf("run %d", i))
			}
		}
		return
	}
	fs := World(c.Svcs...)
	s := e.Session(c, fs, c.Svcs[0].Cwd, c.Acts, c.Plan, nil)
	if b := s.Bad(); b != "" {
		ended(map[bool]string{true: "hang", false: "panic"}[s.P.Hang != ""], b, "the program", true)
	}
	known := map[int]int{}
	now, edited := map[int]*Svc{}, map[int]*Svc{}
	for i, a := range s.Acts {
		act := c.Acts[i]
		sv := c.Svcs[act.Svc]
		e.nontriv = e.nontriv || i > 0
		e.Probe(act.Do + " " + a.Verdict())
		when := fmt.Sprintf("act %d (%s of service %d)", i, act.Do, act.Svc)
		ended(a.Verdict(), a.Rec.Err+a.Rec.Panic, when, len(c.Plan) > 0 && !act.Calm)
		switch act.Do {
		case "edit":
			edited[act.Svc] = sv.edited(act.N)
			dumpSources(edited[act.Svc])
		case "config":
			if _, ok := known[act.Svc]; ok {
				now[act.Svc] = sv.reconfigured(act.N)
			}
		case "abandon":
			delete(now, act.Svc)
			known[act.Svc] = len(sv.Rend().Routes) - sv.Late
		case "register":
			if n, ok := known[act.Svc]; ok {
				known[act.Svc] = min(len(sv.Rend().Routes), n+act.N)
			}
		case "run", "again":
			if _, ok := known[act.Svc]; act.Do == "run" || !ok { // a new router
				delete(now, act.Svc)
				known[act.Svc] = len(sv.Rend().Routes) - sv.Late
			}
			if a.Verdict() == "ok" {
				after := fs
				if !c.Parallel && i+1 < len(s.Acts) {
					after = s.Acts[i+1].Before
				}
				if now[act.Svc] != nil {
					sv = now[act.Svc]
				}
				if edited[act.Svc] != nil {
					sv = edited[act.Svc]
				}
				check(sv, after, known[act.Svc], when)
			}
		}
	}
}

// --- C14 ---

func makeC14(e *Env, r *Rng, c *Case) {
	if r.P(1, 40) {
		// functions of the same name: they can be refused, but none of them is left out
		sv := randSvc(r, SvcOpt{Flows: []string{"parse", "two", "cli"}, Azure: true, Small: true, Clash: true})
		c.Svcs, c.Attempts = []*Svc{sv}, []Attempt{{}}
		return
	}
	makeInv(e, r, c, invOpt{faults: true, edits: true, late: true, spec: func(r *Rng) *proj.Spec {
		s := randSpec(r, r.P(1, 2))
		for i := range s.Handlers {
			h := &s.Handlers[i]
			if i > 0 && r.P(1, 4) && s.Handlers[i-1].Path == s.Handlers[0].Path { // several methods of a path
				h.Method, h.Path = []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS"}[i%7], s.Handlers[0].Path
				if h.Method == s.Handlers[0].Method {
					h.Method = "POST"
				}
				h.More = nil
				continue
			}
			switch r.N(9) {
			case 0:
				h.Path = fmt.Sprintf("/:id/x%d", i)
			case 1:
				h.Path = fmt.Sprintf("/deep/:a/:b/:c_%d", i)
			case 2:
				h.Path = fmt.Sprintf("/files%d/:dir/*filepath", i)
			case 3:
				h.Path = fmt.Sprintf("/a.b-c~%d/", i)
			case 4:
				h.Path = fmt.Sprintf("/o%d", i) + r.Pick("/:user-id", "/:user-id/:user", "/:a.b/*file.path", "/:größe", "/:id,x/y")
			}
		}
		uniquePaths(s)
		return s
	}})
}

// uniquePaths gives routes that gin would refuse next to others a prefix of their own.
func uniquePaths(s *proj.Spec) {
	seen := map[string]bool{}
	only := func(method string, p *string) {
		for seen[method+*p] {
			*p = "/again" + *p
		}
		seen[method+*p] = true
	}
	for i := range s.Handlers {
		h := &s.Handlers[i]
		if strings.ContainsAny(h.Path, ":*") {
			h.Path = fmt.Sprintf("/n%d%s", i, h.Path)
		}
		for j := range h.More {
			if strings.ContainsAny(h.More[j].Path, ":*") {
				h.More[j].Path = fmt.Sprintf("/m%d_%d%s", i, j, h.More[j].Path)
			}
			only(h.More[j].Method, &h.More[j].Path)
		}
		only(h.Method, &h.Path)
	}
}

// wanted are the routes that outputs have to list, known of the first of which are registered.
func (sv *Svc) wanted(known int) []proj.Route {
	var out []proj.Route
	for i, rt := range sv.Rend().Routes {
		if i < known && !sv.denied(rt.Path) {
			out = append(out, rt)
		}
	}
	return out
}

// pathParams are the names in a gin path, with a "*" after those that match the rest.
func pathParams(p string) []string {
	var out []string
	replaceParams(p, func(name string, rest bool) string {
		if rest {
			name += "*"
		}
		out = append(out, name)
		return ""
	})
	sort.Strings(out)
	return out
}

// replaceParams replaces the parameters of a gin path; a segment can have one, at its end.
func replaceParams(p string, f func(name string, rest bool) string) string {
	segs := strings.Split(p, "/")
	for i, s := range segs {
		if k := strings.IndexByte(s, ':'); k >= 0 {
			segs[i] = s[:k] + f(s[k+1:], false)
		} else if s != "" && s[0] == '*' {
			segs[i] = f(s[1:], true)
		}
	}
	return strings.Join(segs, "/")
}

func multi(got, want []string, what string) string {
	miss, extra := diffMulti(want, got), diffMulti(got, want)
	switch {
	case len(miss) > 0 && len(extra) > 0:
		return fmt.Sprintf("%s missing: %v, wrong: %v", what, miss, extra)
	case len(miss) > 0:
		return fmt.Sprintf("%s missing: %v", what, miss)
	case len(extra) > 0:
		return fmt.Sprintf("%s that should not be there: %v", what, extra)
	}
	return ""
}

func runC14(e *Env, c *Case) {
	runInv(e, c, func(sv *Svc, fs *vfs.FS, known int, when string) {
		want := sv.wanted(known)
		for _, o := range sv.Outputs {
			if d := listed(sv, fs, o, want); d != "" {
				violate(c, "routes", "%s succeeds, but %s: %s", when, sv.OutPath(o), d)
			}
		}
	}, !c.Svcs[0].Clash)
}

// listed compares the routes in an output with those wanted.
func listed(sv *Svc, fs *vfs.FS, o Out, want []proj.Route) string {
	p := sv.OutPath(o)
	var w, g []string
	switch o.Mode {
	case "json":
		var doc struct {
			Routes []struct {
				Method, Path, Handler string
				Params                []struct {
					Name       string
					IsRequired bool
				}
			}
		}
		d, _ := get(fs, p)
		if err := json.Unmarshal([]byte(d), &doc); err != nil {
			return err.Error()
		}
		for _, r := range doc.Routes {
			var ps []string
			for _, q := range r.Params {
				if q.Name == "" { // the structure that ShouldBind fills
					continue
				}
				if !q.IsRequired {
					q.Name += "*"
				}
				ps = append(ps, q.Name)
			}
			sort.Strings(ps)
			g = append(g, fmt.Sprintf("%s %s %v %s", r.Method, r.Path, ps, r.Handler))
		}
		for _, r := range want {
			w = append(w, fmt.Sprintf("%s %s %v %s", r.Method, r.Path, pathParams(r.Path), r.Func))
		}
	case "openapi":
		doc, err := openapiDoc(fs, p)
		if err != nil {
			return err.Error()
		}
		paths, _ := doc["paths"].(map[string]any)
		for k, x := range paths {
			item, _ := x.(map[string]any)
			for m, op := range item {
				var ps []string
				ob, _ := op.(map[string]any)
				l, _ := ob["parameters"].([]any)
				for _, q := range l {
					if q, _ := q.(map[string]any); q["in"] == "path" && q["name"] != nil {
						n := fmt.Sprint(q["name"])
						if q["required"] != true {
							n += "*"
						}
						ps = append(ps, n)
					}
				}
				sort.Strings(ps)
				g = append(g, fmt.Sprintf("%s %s %v", strings.ToUpper(m), k, ps))
			}
		}
		for _, r := range want {
			w = append(w, fmt.Sprintf("%s %s %v", r.Method, openapiPath(r.Path), pathParams(r.Path)))
		}
	case "azure":
		for _, r := range want {
			f := path.Join(p, funcName(r.Func), "function.json")
			d, ok := get(fs, f)
			if !ok {
				return "no " + f + " for " + r.Method + " " + r.Path
			}
			var doc struct {
				Bindings []struct {
					Type, Route string
					Methods     []string
				}
			}
			if err := json.Unmarshal([]byte(d), &doc); err != nil {
				return f + ": " + err.Error()
			}
			if len(doc.Bindings) == 0 || len(doc.Bindings[0].Methods) == 0 {
				return f + " has no binding"
			}
			w = append(w, strings.ToLower(r.Method)+" "+replaceParams(r.Path, func(name string, rest bool) string {
				if rest {
					return "{" + name + ":alpha?}"
				}
				return "{" + name + ":alpha}"
			}))
			g = append(g, doc.Bindings[0].Methods[0]+" "+doc.Bindings[0].Route)
		}
	}
	return multi(g, w, "routes")
}

func openapiDoc(fs *vfs.FS, p string) (map[string]any, error) {
	d, ok := get(fs, p)
	if !ok {
		return nil, fmt.Errorf("it is missing")
	}
	var doc map[string]any
	if strings.HasSuffix(p, ".json") {
		return doc, json.Unmarshal([]byte(d), &doc)
	}
	return doc, yaml.Unmarshal([]byte(d), &doc)
}

// --- C18 ---

func makeC18(e *Env, r *Rng, c *Case) {
	makeInv(e, r, c, invOpt{faults: true, edits: true, late: true, spec: func(r *Rng) *proj.Spec {
		z := proj.Size{Pkgs: 1 + r.N(4), Types: 2 + r.N(8), Handlers: 1 + r.N(5), Stmts: 1 + r.N(4), Rec: r.P(3, 4)}
		return proj.Generate(r, z)
	}})
}

func runC18(e *Env, c *Case) {
	runInv(e, c, func(sv *Svc, fs *vfs.FS, known int, when string) {}, false)
}

// --- C16 ---

// clashes are packages whose paths are alike.
var clashes = [][]string{
	{"a/x/types", "a/y/types", "b/x/types", "types", "b/types", "b/y/types"},
	{"v1/model", "v2/model", "model", "internal/model", "v1/inner/model"},
	{"json/types", "types", "types/json", "x/types/json", "form/types"},
}

func makeC16(e *Env, r *Rng, c *Case) {
	makeInv(e, r, c, invOpt{faults: true, late: true, spec: func(r *Rng) *proj.Spec {
		s := proj.Generate(r, proj.Size{Pkgs: 2 + r.N(5), Types: 3 + r.N(8), Handlers: 2 + r.N(4), Stmts: 1 + r.N(4), Rec: r.P(1, 3)})
		if r.P(2, 3) {
			dirs := append([]string(nil), clashes[r.N(len(clashes))]...)
			for i := 1; i < len(s.Pkgs) && len(dirs) > 0; i++ {
				j := r.N(len(dirs))
				s.Pkgs[i] = proj.Pkg{Dir: dirs[j], Name: path.Base(dirs[j])}
				if n := &s.Pkgs[i].Name; *n == "json" || *n == "form" {
					*n = "wire"
				}
				dirs = append(dirs[:j:j], dirs[j+1:]...)
			}
		}
		s.Mark(r, 1000*r.N(9000), r.P(1, 2))
		return s
	}})
	for _, sv := range c.Svcs {
		sv.Types = nil
	}
}

var markName = regexp.MustCompile(`^[mM]k(\d+)(_[a-z])?$`)

// schemas of an OpenAPI document.
type schemas struct {
	sv  *Svc
	all map[string]any
}

// own are the markers among the properties of a schema itself.
func (d *schemas) own(x any) map[int]bool {
	out := map[int]bool{}
	m, _ := x.(map[string]any)
	ps, _ := m["properties"].(map[string]any)
	for k := range ps {
		if f := markName.FindStringSubmatch(k); f != nil {
			n, _ := strconv.Atoi(f[1])
			out[n] = true
		}
	}
	l, _ := m["allOf"].([]any)
	for _, y := range l {
		for n := range d.own(y) {
			out[n] = true
		}
	}
	return out
}

const schemaPrefix = "#/components/schemas/"

// refs lists the references in a part of the document.
func refs(x any, f func(ref string)) {
	switch t := x.(type) {
	case map[string]any:
		for k, y := range t {
			if s, ok := y.(string); ok && k == "$ref" {
				f(s)
				continue
			}
			refs(y, f)
		}
	case []any:
		for _, y := range t {
			refs(y, f)
		}
	}
}

// first are the markers of the types that a part of the document refers to.
func (d *schemas) first(x any, seen map[string]bool) map[int]bool {
	out := map[int]bool{}
	refs(x, func(ref string) {
		name := strings.TrimPrefix(ref, schemaPrefix)
		if seen[name] {
			return
		}
		seen[name] = true
		o := d.own(d.all[name])
		if len(o) == 0 {
			o = d.first(d.all[name], seen)
		}
		for n := range o {
			out[n] = true
		}
	})
	return out
}

func outside(got, allowed map[int]bool) []string {
	var l []string
	for n := range got {
		if !allowed[n] {
			l = append(l, fmt.Sprint("Mk", n))
		}
	}
	sort.Strings(l)
	return l
}

func runC16(e *Env, c *Case) {
	runInv(e, c, func(sv *Svc, fs *vfs.FS, known int, when string) {
		for _, o := range sv.Outputs {
			if o.Mode != "openapi" {
				continue
			}
			p := sv.OutPath(o)
			doc, err := openapiDoc(fs, p)
			if os.Getenv("DUMP") != "" {
				x, _ := get(fs, p)
				fmt.Println(p + "\n" + x)
			}
			if err != nil {
				violate(c, "unreadable", "%s succeeds, but %s: %v", when, p, err)
			}
			comps, _ := doc["components"].(map[string]any)
			all, _ := comps["schemas"].(map[string]any)
			d := &schemas{sv, all}
			refs(doc, func(ref string) {
				if _, ok := all[strings.TrimPrefix(ref, schemaPrefix)]; !ok || !strings.HasPrefix(ref, schemaPrefix) {
					violate(c, "dangling", "%s succeeds, but %s has a reference to %s, which isn't in it", when, p, ref)
				}
			})
			s := sv.Spec
			names := make([]string, 0, len(all))
			for n := range all {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				own := d.own(all[n])
				if len(own) > 1 {
					violate(c, "mixed", "%s succeeds, but the schema %s in %s mixes the fields of the types %v", when, n, p, outside(own, nil))
				}
				for m := range own {
					owners := s.Owners(m)
					if len(owners) == 0 {
						violate(c, "foreign", "%s succeeds, but the schema %s in %s has a field of another project (Mk%d)", when, n, p, m)
					}
					ti := owners[0]
					named := false
					for _, i := range owners {
						named = named || strings.HasSuffix(n, "."+s.Types[i].Name)
					}
					if !named {
						violate(c, "misnamed", "%s succeeds, but the schema %s in %s describes the type %s", when, n, p, s.Types[ti].Name)
					}
					if l := outside(d.first(all[n], map[string]bool{}), s.Direct(ti)); len(l) > 0 {
						violate(c, "astray", "%s succeeds, but the schema %s in %s (type %s of %s) refers to types it has nothing to do with: %v", when, n, p, s.Types[ti].Name, s.PkgPath(s.Types[ti].Pkg), l)
					}
				}
			}
			for i, rt := range sv.Rend().Routes {
				if i >= known || sv.denied(rt.Path) {
					continue
				}
				h := rt.Handler
				op := operation(doc, rt)
				if op == nil {
					continue // C14
				}
				if l := outside(d.first(op, map[string]bool{}), s.Used(h)); len(l) > 0 {
					violate(c, "astray", "%s succeeds, but %s %s in %s refers to types its handler has nothing to do with: %v", when, rt.Method, rt.Path, p, l)
				}
			}
			e.Probe(fmt.Sprintf("documents with %d+ schemas", len(all)/4*4))
		}
	}, false)
}

// openapiPath is the form of a path in an OpenAPI document.
func openapiPath(p string) string {
	return replaceParams(p, func(name string, rest bool) string {
		if rest {
			name += "*"
		}
		return "{" + name + "}"
	})
}

func operation(doc map[string]any, rt proj.Route) map[string]any {
	paths, _ := doc["paths"].(map[string]any)
	item, _ := paths[openapiPath(rt.Path)].(map[string]any)
	op, _ := item[strings.ToLower(rt.Method)].(map[string]any)
	return op
}
