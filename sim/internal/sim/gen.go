package sim

import (
	"encoding/json"
	"fmt"
	"path"
	"strings"
	"syscall"

	"github.com/ls6-events/astra"

	"verifsim/internal/proc"
	"verifsim/internal/proj"
	"verifsim/internal/vfs"
)

// Rng is the generator of cases.
type Rng = proj.Rng

// SvcOpt restricts the services made.
type SvcOpt struct {
	Flows  []string
	Cache  int // 0: any, 1: on, 2: off
	Azure  bool
	Outs   int
	Old    bool // put files there before
	Small  bool
	Root   string
	Spec   func(r *Rng) *proj.Spec
	Clash  bool // routes can have the same function of Azure
	Simple bool // workdir = cwd = root, ordinary paths
}

func randSpec(r *Rng, small bool) *proj.Spec {
	z := proj.Size{Pkgs: 1 + r.N(4), Types: 2 + r.N(6), Handlers: 1 + r.N(5), Stmts: 1 + r.N(4)}
	if small {
		z = proj.Size{Pkgs: 1 + r.N(2), Types: 1 + r.N(3), Handlers: 1 + r.N(3), Stmts: 1 + r.N(2)}
	}
	z.Rec = r.P(1, 4)
	return proj.Generate(r, z)
}

func randConfig(r *Rng) *astra.Config {
	c := &astra.Config{Port: 8000 + r.N(3), Host: r.Pick("localhost", "", "api.example.com")}
	c.Title = r.Pick("Shop", "API: the \"best\"", "")
	c.Description = r.Pick("", "Some text", "with $cycle_1")
	c.Version = r.Pick("", "1.0", "v2")
	c.BasePath = r.Pick("", "/", "/api", "/api/v1")
	c.Secure = r.P(1, 3)
	if r.P(1, 3) {
		c.Contact = astra.Contact{Name: "N", Email: "n@example.com"}
	}
	if r.P(1, 4) {
		c.License = astra.License{Name: "MIT"}
	}
	return c
}

// randSvc makes a service.
func randSvc(r *Rng, o SvcOpt) *Svc {
	sv := &Svc{Config: randConfig(r)}
	if o.Spec != nil {
		sv.Spec = o.Spec(r)
	} else {
		sv.Spec = randSpec(r, o.Small)
	}
	sv.Root = o.Root
	if sv.Root == "" {
		sv.Root = r.Pick("/home/u/app", "/home/u/app", "/home/u/app", "/srv/my app", "/home/u/src/github.com/acme/api")
	}
	if o.Simple || o.Root != "" {
		sv.Spec.Up = ""
	}
	sv.Root = path.Join(sv.Root, sv.Spec.Up)
	sv.Cwd = sv.Root
	if !o.Simple {
		switch r.N(10) {
		case 0:
			sv.WorkDir = sv.Root
		case 1:
			sv.Cwd, sv.WorkDir = path.Dir(sv.Root), sv.Root
		case 2:
			sv.Cwd, sv.WorkDir = path.Dir(sv.Root), path.Base(sv.Root)
		case 3:
			sv.WorkDir = "."
		}
	}
	sv.Flow = o.Flows[r.N(len(o.Flows))]
	on := r.P(1, 2)
	switch o.Cache {
	case 1:
		on = true
	case 2:
		on = false
	}
	if sv.Flow == "cli" || sv.Flow == "load" {
		on = true
	}
	if on {
		sv.Cache = r.Pick("default", "default", path.Join(sv.Root, "cache.json"), "cache/astra.yaml", "/home/u/other/api.yml", "cache.yaml", "build/c.json")
		if o.Simple {
			sv.Cache = r.Pick("default", "cache.yaml", "cache/astra.json")
		}
		if sv.Flow == "load" {
			sv.Split = 1 + r.N(5)
			sv.LoadBy = r.Pick("", "path", "rest")
		} else if sv.Flow == "cli" {
			sv.LoadBy = r.Pick("", "rel")
		}
	}
	n := 1 + r.N(3)
	if o.Outs > 0 {
		n = o.Outs
	}
	taken := map[string]bool{}
	for tries := 0; len(sv.Outputs) < n && tries < 20; tries++ {
		var ot Out
		switch k := r.N(10); {
		case k < 4:
			ot = Out{"openapi", r.Pick("openapi.json", "openapi", "docs/openapi.json", "static/api.json", "../openapi.json", "v1.api.json", "openapi.yaml", "docs/api.yml")}
		case k < 7:
			ot = Out{"json", r.Pick("routes.json", "routes", "docs/routes.json", "handlers/out.json", "sub dir/r.json")}
		default:
			if !o.Azure {
				continue
			}
			ot = Out{"azure", r.Pick("functions", "functions", "azure/fn", ".", "docs")}
		}
		p := sv.OutPath(ot)
		if taken[p] {
			continue
		}
		bad := false
		for t := range taken { // no directory of functions inside another one
			if d := strings.TrimPrefix(t, "azure:"); ot.Mode == "azure" && d != t && (under(d, p) || under(p, d)) {
				bad = true
			}
		}
		if bad {
			continue
		}
		taken[p] = true
		if ot.Mode == "azure" {
			taken["azure:"+p] = true
			sv.Clash = o.Clash
			if !o.Clash {
				sv.Spec.OneFunc1()
			}
			sv.rend = nil
		}
		sv.Outputs = append(sv.Outputs, ot)
	}
	if len(sv.Outputs) == 0 {
		sv.Outputs = []Out{{"openapi", "openapi.json"}}
	}
	// directories that have to be there
	for _, o := range sv.Outputs {
		p := sv.OutPath(o)
		if o.Mode == "azure" {
			p = path.Dir(p)
		} else {
			p = path.Dir(p)
		}
		sv.needDir(p)
	}
	if sv.HasCache() {
		sv.needDir(path.Dir(sv.CachePath()))
	}
	rs := sv.Rend().Routes
	if len(rs) > 1 && r.P(1, 3) {
		p := rs[r.N(len(rs))].Path
		switch r.N(3) {
		case 0:
			sv.Deny = []string{p}
		case 1:
			sv.DenyFn = []string{p[len(p)/2:]}
		case 2:
			sv.DenyRe = []string{"^" + p[:len(p)-1]}
		}
	}
	if r.P(1, 3) {
		sv.Types = map[string]astra.TypeFormat{
			"time.Time":                   {Type: "integer", Format: "epoch"},
			"github.com/google/uuid.UUID": {Type: "string", Format: "id"},
		}
		for i := range sv.Spec.Types {
			if t := &sv.Spec.Types[i]; r.P(1, 3) && t.Kind != "alias" && t.Kind != "generic" {
				sv.Types[sv.Spec.PkgPath(t.Pkg)+"."+t.Name] = astra.TypeFormat{Type: r.Pick("string", "object"), Format: r.Pick("", "own")}
			}
		}
		if r.P(1, 2) {
			sv.Types["string"] = astra.TypeFormat{Type: "string", Format: "text"}
		}
	}
	sv.Single = r.P(1, 3)
	sv.Custom = sv.Flow != "cli" && r.P(1, 4)
	if r.P(1, 5) {
		sv.Inputs = 2
	}
	sv.Log = r.Pick("nop", "nop", "", "debug", "buf")
	sv.Stub = r.N(8)
	if o.Old {
		sv.randOld(r)
	}
	return sv
}

func (sv *Svc) needDir(p string) {
	if under(p, sv.Astra()) {
		return
	}
	rel := strings.TrimPrefix(p, sv.Root)
	if !under(p, sv.Root) {
		rel = relUp(sv.Root, p)
	}
	rel = strings.TrimPrefix(rel, "/")
	if rel == "" {
		return
	}
	sv.Old = append(sv.Old, Old{Path: rel + "/"})
}

// relUp is the path of p relative to root.
func relUp(root, p string) string {
	up := ""
	for d := root; ; d = path.Dir(d) {
		if under(p, d) {
			return up + strings.TrimPrefix(strings.TrimPrefix(p, d), "/")
		}
		up += "../"
	}
}

func (sv *Svc) rel(p string) string { return strings.TrimSuffix(relUp(sv.Root, p), "/") }

const staleFn = `{
  "bindings": [
    {
      "type": "httpTrigger",
      "direction": "in",
      "name": "req",
      "methods": [
        "get",
        "options"
      ],
      "route": "old/route"
    },
    {
      "type": "http",
      "direction": "out",
      "name": "res"
    }
  ]
}`

// randOld puts files where the outputs go and next to them.
func (sv *Svc) randOld(r *Rng) {
	add := func(o Old) { sv.Old = append(sv.Old, o) }
	for _, o := range sv.Outputs {
		p := sv.rel(sv.OutPath(o))
		if o.Mode == "azure" {
			if p != "" {
				p += "/"
			}
			if r.P(1, 3) {
				continue
			}
			var names []string
			for _, rt := range sv.Rend().Routes {
				names = append(names, funcName(rt.Func))
			}
			if len(names) > 0 && r.P(2, 3) {
				add(Old{Path: p + names[r.N(len(names))] + "/function.json", Data: strings.Replace(staleFn, "old/route", "earlier", 1)})
			}
			if len(names) > 0 && r.P(1, 3) {
				add(Old{Path: p + names[r.N(len(names))] + "/index.js", Data: "module.exports = 1\n"})
			}
			if r.P(1, 2) {
				add(Old{Path: p + "oldFn/function.json", Data: staleFn})
			}
			if r.P(1, 2) {
				add(Old{Path: p + "timer/function.json", Data: `{"bindings":[{"type":"timerTrigger"}]}`})
				add(Old{Path: p + "timer/index.js", Data: "x\n"})
			}
			if r.P(1, 4) {
				add(Old{Path: p + "queue/function.json", Data: `{"bindings":[{"type":"queueTrigger","direction":"in","name":"q"}]}`})
			}
			if r.P(1, 3) {
				add(Old{Path: p + "host.json", Data: "{}\n", Perm: 0600})
			}
			continue
		}
		switch r.N(6) {
		case 0, 1, 2:
			data := r.Pick("", "{}", `{"openapi":"3.0.0","paths":{}}`, strings.Repeat("older contents\n", 1+r.N(2000)))
			add(Old{Path: p, Data: data, Perm: uint32(r.PickI(0644, 0644, 0600, 0664, 0444))})
		case 3:
			if r.P(1, 2) {
				add(Old{Path: p + ".target", Data: "linked"})
				add(Old{Path: p, Link: path.Base(p) + ".target"})
			}
		}
		if r.P(1, 3) {
			add(Old{Path: p + ".bak", Data: "a backup\n"})
		}
		if r.P(1, 4) {
			add(Old{Path: path.Join(path.Dir(p), "notes.txt"), Data: "notes\n", Perm: 0600})
		}
	}
	if sv.HasCache() {
		c := sv.rel(sv.CachePath())
		if !strings.HasPrefix(c, ".astra/") {
			if r.P(1, 3) {
				add(Old{Path: c, Data: r.Pick("", "{}", `{"routes": [{"handler": "old"}]}`, strings.Repeat("# old\n", 900))})
			}
			if r.P(1, 3) {
				add(Old{Path: c + ".orig", Data: "o\n"})
			}
		} else if r.P(1, 4) {
			add(Old{Path: ".astra/.gitignore", Data: "*\n"})
			add(Old{Path: c, Data: r.Pick("{}", `{"routes": [{"handler": "old"}]}`, strings.Repeat(" ", 5000))})
		}
	}
}

func randSeams(r *Rng) proc.Seams {
	s := proc.Seams{}
	if r.P(3, 4) {
		s.MapMode, s.MapSeed = 1, r.U64()
	}
	s.RandSeed = r.U64()
	if r.P(2, 3) {
		s.DirSeed = r.U64()
	}
	if r.P(2, 3) {
		s.LoadSeed = r.U64()
	}
	if r.P(1, 3) {
		s.Clock = int64(r.N(2000000000)) * 1e9
		if s.Clock == 0 {
			s.Clock = 1
		}
	}
	if r.P(1, 4) {
		s.ClockInc = int64(r.N(1 << 30))
	}
	if r.P(1, 2) {
		s.Pid = 1 + r.N(60000)
	}
	if r.P(1, 3) {
		s.Env = r.U64()
	}
	return s
}

func randSched(r *Rng) Sched {
	s := Sched{Seed: r.U64()}
	s.SwitchP = uint32(r.PickI(0, 0, 64, 1024, 8192))
	return s
}

// --- faults ---

// FaultOpt says which faults may be used.
type FaultOpt struct {
	Crash, Errno, Load, Global bool
	Focus                      func(e *proc.Event) bool // prefer these
	Only                       func(e *proc.Event) bool // nothing but these
}

func pickErr(r *Rng, es ...syscall.Errno) int { return int(es[r.N(len(es))]) }

var (
	eNoSpc  = syscall.ENOSPC
	eIO     = syscall.EIO
	eAcc    = syscall.EACCES
	eMFile  = syscall.EMFILE
	eNFile  = syscall.ENFILE
	eDQuot  = syscall.EDQUOT
	eRofs   = syscall.EROFS
	eNoMem  = syscall.ENOMEM
	eXDev   = syscall.EXDEV
	eBusy   = syscall.EBUSY
	ePerm   = syscall.EPERM
	eNoEnt  = syscall.ENOENT
	eMLink  = syscall.EMLINK
	eFBig   = syscall.EFBIG
	eIntr   = syscall.EINTR
	eAgain  = syscall.EAGAIN
	eLoop   = syscall.ELOOP
	eNameTL = syscall.ENAMETOOLONG
)

// faultable tells whether a call can be made to fail.
func faultable(e *proc.Event) bool {
	if strings.HasPrefix(e.Name, "denied") || e.Name == "log" {
		return false
	}
	return true
}

func errFor(r *Rng, e *proc.Event) *proc.Fault {
	f := &proc.Fault{Op: e.Name, Path: e.Path, Nth: e.Nth, Kind: "errno"}
	switch e.Name {
	case "open", "openw", "create":
		f.Errno = pickErr(r, eIO, eAcc, eMFile, eNFile, eNoMem, eIntr)
		if e.Name != "open" {
			f.Errno = pickErr(r, eIO, eAcc, eMFile, eNoSpc, eRofs, eDQuot)
		}
	case "write":
		switch r.N(7) {
		case 6:
			f.Errno = int(eIntr)
		case 0:
			f.Kind, f.Arg = "short", r.N(1<<20)
		case 1, 2:
			f.Kind, f.Arg, f.Errno = "torn", r.N(1<<20), pickErr(r, eNoSpc, eIO)
		default:
			f.Errno = pickErr(r, eNoSpc, eIO, eDQuot, eFBig)
		}
	case "read":
		f.Errno = pickErr(r, eIO, eIO, eNoMem, eIntr)
		if r.P(1, 4) {
			f.Kind, f.Arg, f.Errno = "short", r.N(1<<20), 0
		}
	case "close":
		f.Errno = pickErr(r, eIO, eNoSpc, eDQuot)
		if e.Mut || r.P(1, 2) {
			f.Kind = r.Pick("errno", "closelost")
		}
	case "stat", "access", "readlink":
		f.Errno = pickErr(r, eIO, eAcc, eNoMem, eLoop)
	case "fstat":
		f.Errno = pickErr(r, eIO, eNoMem)
	case "getdents":
		f.Errno = pickErr(r, eIO, eNoMem)
	case "rename":
		f.Errno = pickErr(r, eIO, eXDev, eAcc, eNoSpc, eBusy, eRofs)
	case "mkdir":
		f.Errno = pickErr(r, eNoSpc, eAcc, eIO, eDQuot, eRofs, eMLink)
	case "unlink", "rmdir":
		f.Errno = pickErr(r, eIO, eAcc, eBusy, ePerm)
	case "chmod", "fchmod", "utimes":
		f.Errno = pickErr(r, ePerm, eIO, eRofs)
	case "fsync", "ftruncate", "truncate", "symlink", "link":
		f.Errno = pickErr(r, eIO, eNoSpc)
	case "getcwd":
		f.Errno = pickErr(r, eNoEnt, eAcc)
	case "seek", "fcntl", "dup", "flock":
		f.Errno = pickErr(r, eIO, eMFile)
	default:
		f.Errno = pickErr(r, eIO, eNoMem)
	}
	return f
}

var loadKinds = []string{"err", "empty", "list", "parse", "type", "unknown"}

// pickFault chooses a fault for a process whose fault-free run made these calls.
func pickFault(r *Rng, evs []proc.Event, o FaultOpt) *proc.Fault {
	var any, mut, foc, load []*proc.Event
	for i := range evs {
		e := &evs[i]
		if o.Only != nil && !o.Only(e) {
			continue
		}
		if e.Name == "load" {
			if o.Load {
				load = append(load, e)
			}
			if o.Crash {
				any = append(any, e)
			}
			continue
		}
		if !faultable(e) {
			continue
		}
		any = append(any, e)
		if e.Mut {
			mut = append(mut, e)
		}
		if o.Focus != nil && o.Focus(e) {
			foc = append(foc, e)
		}
	}
	if len(load) > 0 && (r.P(1, 10) || len(any) == 0) {
		e := load[r.N(len(load))]
		return &proc.Fault{Op: "load", Path: e.Path, Nth: e.Nth, Kind: "load", Load: r.Pick(loadKinds...)}
	}
	if len(any) == 0 {
		return nil
	}
	pool := any
	switch k := r.N(10); {
	case k < 5 && len(foc) > 0:
		pool = foc
	case k < 8 && len(mut) > 0:
		pool = mut
	}
	e := pool[r.N(len(pool))]
	if o.Global && r.P(1, 9) {
		switch r.N(3) {
		case 0:
			return &proc.Fault{At: e.Op, Kind: "diskfull", Arg: r.PickI(0, 1, 40, 300, 2000, 9000)}
		case 1:
			return &proc.Fault{At: e.Op, Kind: "fdlimit", Arg: r.N(3)}
		default:
			return &proc.Fault{At: e.Op, Kind: "iodead"}
		}
	}
	crash := o.Crash && (!o.Errno || r.P(1, 2) || e.Name == "load")
	if crash {
		f := &proc.Fault{Op: e.Name, Path: e.Path, Nth: e.Nth, Kind: r.Pick("crash-before", "crash-after")}
		if e.Name == "write" && r.P(2, 3) {
			f.Kind, f.Arg = "crash-torn", r.N(1<<20)
		}
		return f
	}
	if e.Name == "load" {
		return nil
	}
	return errFor(r, e)
}

func copyJSON[T any](x *T) *T {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	y := new(T)
	if err := json.Unmarshal(b, y); err != nil {
		panic(err)
	}
	return y
}

// focusOutputs prefers calls on the outputs, the cache and .astra.
func (sv *Svc) focusOutputs(fs *vfs.FS) func(e *proc.Event) bool {
	var dirs []string
	for _, o := range sv.Outputs {
		p := sv.OutPath(o)
		if o.Mode == "azure" {
			dirs = append(dirs, p)
		} else {
			dirs = append(dirs, path.Join(path.Dir(p), "."+path.Base(p)), p)
		}
	}
	if sv.HasCache() {
		p := sv.CachePath()
		dirs = append(dirs, p, path.Join(path.Dir(p), "."+path.Base(p)))
	}
	return func(e *proc.Event) bool {
		for _, d := range dirs {
			if strings.HasPrefix(e.Path, d) || strings.HasPrefix(e.Path2, d) {
				return true
			}
		}
		return under(e.Path, path.Join(sv.Astra(), "azure"))
	}
}

func (c *Case) String() string {
	b, _ := json.MarshalIndent(c, "", " ")
	return string(b)
}

func seedName(n uint64) string { return fmt.Sprintf("%#x", n) }
