package sim

import (
	"fmt"
	"hash/fnv"
	"path"
	"runtime"
	"sort"
	"strings"

	"verifsim/internal/proc"
	"verifsim/internal/registry"
	"verifsim/internal/vfs"
)

// Sched decides the interleaving of a run.
type Sched struct {
	Seed    uint64   `json:"seed,omitempty"`
	SwitchP uint32   `json:"switchP,omitempty"`
	Replay  bool     `json:"replay,omitempty"`
	Forced  []uint64 `json:"forced,omitempty"`
}

// PRun is one finished process.
type PRun struct {
	Role string
	Rec  *Rec
	P    *proc.Proc
	St   proc.SchedStats
}

// Verdict of a process: "ok", "error", "crashed", "panic", "hang".
func (r *PRun) Verdict() string {
	p := r.P
	switch {
	case p.Hang != "":
		return "hang"
	case p.Crashed:
		return "crashed"
	case p.Panic != "" || r.Rec.Panic != "":
		return "panic"
	case p.Exited:
		if p.ExitCode == 0 {
			return "ok"
		}
		return "error"
	case r.Rec.OK:
		return "ok"
	}
	return "error"
}

// Why describes a failure.
func (r *PRun) Why() string {
	s := r.Role + " " + r.Verdict()
	if r.Rec.Err != "" {
		s += ": " + r.Rec.Err
	}
	if r.P.Panic != "" {
		s += ": " + r.P.Panic + "\n" + trimStack(r.P.Stack)
	}
	if r.Rec.Panic != "" {
		s += ": " + r.Rec.Panic
	}
	if r.P.Hang != "" {
		s += ": " + r.P.Hang
	}
	if r.P.Exited {
		s += fmt.Sprintf(" (exit status %d) %s", r.P.ExitCode, lastLines(string(r.P.Out), 3))
	}
	return s
}

func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, " | ")
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "ls6-events/astra") || strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Gen is one finished generation.
type Gen struct {
	Runs  []*PRun
	Disks []*vfs.FS // after each process, if asked for
	OK    bool
}

// Run returns the run of a role.
func (g *Gen) Run(role string) *PRun {
	for _, r := range g.Runs {
		if r.Role == role {
			return r
		}
	}
	return nil
}

// Verdict is that of the last process.
func (g *Gen) Verdict() string {
	if len(g.Runs) == 0 {
		return "error"
	}
	return g.Runs[len(g.Runs)-1].Verdict()
}

// Why describes the last process.
func (g *Gen) Why() string {
	if len(g.Runs) == 0 {
		return "nothing ran"
	}
	return g.Runs[len(g.Runs)-1].Why()
}

// Env collects statistics of a worker.
type Env struct {
	Procs     int
	Ops       int64
	SimNS     int64
	Yields    uint64
	Picks     uint64
	Fired     map[string]int
	Probes    map[string]int
	Traces    map[uint64]bool
	Digest    uint64 // of every event of the case
	DigestOn  bool
	Log       func(string)
	CaseFired int
	Switches  []uint64 // of the last parallel run
	nontriv   bool     // the case tested something
	quiet     bool
}

// NewEnv makes an empty Env.
func NewEnv() *Env {
	return &Env{Fired: map[string]int{}, Probes: map[string]int{}, Traces: map[uint64]bool{}}
}

// Probe counts that a condition was reached.
func (e *Env) Probe(name string) { e.Probes[name]++ }

func (e *Env) account(p *proc.Proc, st proc.SchedStats) {
	if e.quiet {
		return
	}
	e.Procs++
	e.Ops += int64(p.Ops())
	start := p.Seams.Clock
	if start == 0 {
		start = 1700000000_000000000
	}
	e.SimNS += p.SimTime() - start
	e.Yields += st.Yields
	e.Picks += st.Picks
	for k, n := range p.Fired {
		e.Fired[k] += n
		e.CaseFired += n
	}
	h := fnv.New64a()
	for i := range p.Events {
		ev := &p.Events[i]
		fmt.Fprintf(h, "%s %s %s %d %d %s\n", ev.Name, ev.Path, ev.Path2, ev.N, ev.Errno, ev.Fault)
		if e.Log != nil {
			e.Log(ev.String())
		}
	}
	if len(p.Fired) > 0 {
		e.nontriv = true
	}
	for _, s := range st.Switches {
		fmt.Fprintf(h, "s%d\n", s)
	}
	fmt.Fprintf(h, "%v %v %d %v", p.Crashed, p.Exited, p.ExitCode, p.Hang)
	e.Traces[h.Sum64()] = true
	e.Digest = e.Digest*1099511628211 ^ h.Sum64()
	if e.Log != nil {
		e.Log(fmt.Sprintf("-- process ends: crashed=%v exited=%v(%d) hang=%q panic=%q", p.Crashed, p.Exited, p.ExitCode, p.Hang, p.Panic))
	}
}

func (e *Env) digestTree(fs *vfs.FS) {
	if e.quiet || !e.DigestOn {
		return
	}
	h := fnv.New64a()
	t := fs.Tree("/")
	for _, k := range sortedKeys(t) {
		en := t[k]
		fmt.Fprintf(h, "%s %d %o %s %s\n", k, en.Kind, en.Perm, en.Target, en.Data)
	}
	e.Digest = e.Digest*1099511628211 ^ h.Sum64()
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Observer sees every system call.
type Observer func(role string, p *proc.Proc, e *proc.Event)

// Generate runs one generation (all its processes) on a disk.
func (e *Env) Generate(sv *Svc, fs *vfs.FS, seams proc.Seams, sc Sched, plans [][]proc.Fault, obs Observer) *Gen {
	return e.generate(sv, fs, sv.Roles(), seams, sc, plans, obs, false)
}

func (e *Env) generate(sv *Svc, fs *vfs.FS, roles []string, seams proc.Seams, sc Sched, plans [][]proc.Fault, obs Observer, disks bool) *Gen {
	g := &Gen{}
	for i, role := range roles {
		var plan []proc.Fault
		if i < len(plans) {
			plan = plans[i]
		}
		r := e.Process(sv, role, fs, seams, sc, plan, obs)
		g.Runs = append(g.Runs, r)
		if disks {
			g.Disks = append(g.Disks, fs.Clone())
		}
		if r.Verdict() != "ok" {
			return g
		}
	}
	g.OK = true
	return g
}

// Process runs one process of a generation.
func (e *Env) Process(sv *Svc, role string, fs *vfs.FS, seams proc.Seams, sc Sched, plan []proc.Fault, obs Observer) *PRun {
	registry.Reset()
	p := proc.New(1, fs, sv.Cwd, seams, plan)
	if obs != nil {
		p.After = func(p *proc.Proc, ev *proc.Event) { obs(role, p, ev) }
	}
	r := &PRun{Role: role, Rec: &Rec{}, P: p}
	f := sv.Program(role, p, r.Rec)
	r.St = proc.Run(sc.Seed, sc.SwitchP, sc.Replay, sc.Forced, proc.Prog{P: p, F: f})
	e.account(p, r.St)
	e.digestTree(fs)
	return r
}

// World makes the disk every case starts with.
func World(svcs ...*Svc) *vfs.FS {
	fs := vfs.New()
	for _, d := range []string{"/tmp", "/home/u/other", "/etc", "/var/lib"} {
		fs.MkdirAll(d)
	}
	fs.WriteFile("/etc/hosts", []byte("127.0.0.1 localhost\n"), 0644)
	fs.WriteFile("/home/u/.profile", []byte("# profile\n"), 0600)
	fs.WriteFile("/home/u/other/go.mod", []byte("module other\n"), 0644)
	fs.WriteFile("/home/u/other/main.go", []byte("package main\n"), 0644)
	for _, s := range svcs {
		s.Install(fs)
	}
	return fs
}

// get returns the regular file at a path, following links.
func get(fs *vfs.FS, p string) (string, bool) {
	n := fs.Lookup(p)
	if n == nil || n.Kind != vfs.File {
		return "", false
	}
	return string(n.Data), true
}

// outFiles lists the files that make up the outputs on a disk: path -> contents.
func (sv *Svc) outFiles(fs *vfs.FS) map[string]string {
	out := map[string]string{}
	for _, o := range sv.Outputs {
		p := sv.OutPath(o)
		if o.Mode == "azure" {
			if n := fs.Lookup(p); n != nil && n.Kind == vfs.Dir {
				for _, k := range n.Names() {
					f := path.Join(p, k, "function.json")
					if d, ok := get(fs, f); ok {
						out[f] = d
					}
				}
			}
			continue
		}
		if d, ok := get(fs, p); ok {
			out[p] = d
		}
	}
	return out
}

// funcName is the name an Azure function gets from a handler.
func funcName(h string) string { return h[strings.LastIndexByte(h, '.')+1:] }

// wantFiles are the output paths a complete generation has.
func (sv *Svc) wantFiles() []string {
	var out []string
	for _, o := range sv.Outputs {
		p := sv.OutPath(o)
		if o.Mode == "azure" {
			for _, r := range sv.Rend().Routes {
				if !sv.denied(r.Path) {
					out = append(out, path.Join(p, funcName(r.Func), "function.json"))
				}
			}
			continue
		}
		out = append(out, p)
	}
	return out
}

func (sv *Svc) denied(p string) bool {
	for _, d := range sv.Deny {
		if d == p {
			return true
		}
	}
	for _, d := range sv.DenyFn {
		if strings.HasSuffix(p, d) {
			return true
		}
	}
	for _, d := range sv.DenyRe {
		if ok, _ := regexpMatch(d, p); ok {
			return true
		}
	}
	return false
}

// sameFiles compares two sets of files.
func sameFiles(got, want map[string]string) string {
	for _, k := range sortedKeys(want) {
		g, ok := got[k]
		if !ok {
			return k + " is missing"
		}
		if g != want[k] {
			return k + " differs: " + firstDiff(g, want[k])
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want[k]; !ok {
			return k + " should not be there"
		}
	}
	return ""
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := max(0, i-60), min(len(s), i+60)
		if lo > hi {
			return ""
		}
		return fmt.Sprintf("%q", s[lo:hi])
	}
	return fmt.Sprintf("at byte %d (lengths %d and %d): %s instead of %s", i, len(a), len(b), cut(a), cut(b))
}

// sameTree compares two disks (existence, kind, contents, permissions); skip leaves paths out.
func sameTree(got, want *vfs.FS, skip func(string) bool) string {
	g, w := got.Tree("/"), want.Tree("/")
	for _, k := range sortedKeys(w) {
		if skip != nil && skip(k) {
			continue
		}
		x, ok := g[k]
		y := w[k]
		switch {
		case !ok:
			return k + " is missing"
		case x.Kind != y.Kind:
			return k + " changed kind"
		case x.Data != y.Data:
			return k + " differs: " + firstDiff(x.Data, y.Data)
		case x.Target != y.Target:
			return k + " links elsewhere"
		case x.Perm != y.Perm:
			return fmt.Sprintf("%s has permissions %o instead of %o", k, x.Perm, y.Perm)
		}
	}
	for _, k := range sortedKeys(g) {
		if skip != nil && skip(k) {
			continue
		}
		if _, ok := w[k]; !ok {
			return k + " should not be there"
		}
	}
	return ""
}

func under(p, dir string) bool {
	return p == dir || strings.HasPrefix(p, strings.TrimSuffix(dir, "/")+"/")
}

func stackOf() string {
	b := make([]byte, 16384)
	return string(b[:runtime.Stack(b, false)])
}
