// Package sim runs generations of the code under test on the simulated system, judges them, and searches for
// schedules and faults that break a property.
package sim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/gin-gonic/gin"
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/cache"
	"github.com/ls6-events/astra/cli"
	"github.com/ls6-events/astra/inputs"
	"github.com/ls6-events/astra/outputs"
	"github.com/rs/zerolog"

	"verifsim/internal/climain"
	"verifsim/internal/proc"
	"verifsim/internal/proj"
	"verifsim/internal/stubs"
	"verifsim/internal/vfs"
)

// Out is one configured output.
type Out struct {
	Mode string `json:"mode"` // openapi json azure
	Path string `json:"path"`
}

// Old is a file that is there before the first run.
type Old struct {
	Path string `json:"path"` // relative to the root
	Data string `json:"data,omitempty"`
	Perm uint32 `json:"perm,omitempty"`
	Link string `json:"link,omitempty"`
}

// Svc is a service: a project and how its program uses the library.
type Svc struct {
	Spec    *proj.Spec                  `json:"spec"`
	Root    string                      `json:"root"`
	Cwd     string                      `json:"cwd"`
	WorkDir string                      `json:"workDir,omitempty"`
	Config  *astra.Config               `json:"config"`
	Builder bool                        `json:"builder,omitempty"` // the configuration comes from the builder
	Outputs []Out                       `json:"outputs"`
	Cache   string                      `json:"cache,omitempty"` // "", "default" or a path
	Flow    string                      `json:"flow"`            // parse two steps cli load
	Split   int                         `json:"split,omitempty"` // load: the first process stops after this step
	LoadBy  string                      `json:"loadBy,omitempty"`
	Inputs  int                         `json:"inputs,omitempty"`
	Deny    []string                    `json:"deny,omitempty"`
	DenyRe  []string                    `json:"denyRe,omitempty"`
	DenyFn  []string                    `json:"denyFn,omitempty"`
	Types   map[string]astra.TypeFormat `json:"types,omitempty"`
	Single  bool                        `json:"single,omitempty"` // the type mappings are given one by one
	Custom  bool                        `json:"custom,omitempty"` // calls of a helper are described by a custom function
	Log     string                      `json:"log,omitempty"`    // "", nop, debug
	Old     []Old                       `json:"old,omitempty"`
	Stub    int                         `json:"stub,omitempty"`
	Clash   bool                        `json:"clash,omitempty"` // routes have the same function of Azure, which may be refused
	Late    int                         `json:"late,omitempty"`  // routes that are registered while the program runs

	rend    *proj.Rendered
	engines []*gin.Engine // the routers of the last service made
	given   int           // routes they have
}

// Rend renders the project once.
func (sv *Svc) Rend() *proj.Rendered {
	if sv.rend == nil {
		r := sv.Spec.Render(sv.Root)
		sv.rend = &r
	}
	return sv.rend
}

// Install puts the project on a disk.
func (sv *Svc) Install(fs *vfs.FS) {
	fs.MkdirAll(sv.Root)
	fs.MkdirAll(sv.Cwd)
	sv.installSources(fs)
	sv.installOld(fs)
}

func (sv *Svc) installSources(fs *vfs.FS) {
	r := sv.Rend()
	names := make([]string, 0, len(r.Files))
	for n := range r.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fs.WriteFile(path.Join(sv.Root, n), []byte(r.Files[n]), 0644)
	}
	if sv.Spec.Odd == 3 { // an editor's
		fs.Symlink(path.Join(sv.Root, ".#main.go"), "u@host.1:2")
	}
}

func (sv *Svc) installOld(fs *vfs.FS) {
	for _, o := range sv.Old {
		p := path.Join(sv.Root, o.Path)
		if o.Link != "" {
			fs.MkdirAll(path.Dir(p))
			fs.Symlink(p, o.Link)
			continue
		}
		if strings.HasSuffix(o.Path, "/") {
			fs.MkdirAll(p)
			continue
		}
		perm := o.Perm
		if perm == 0 {
			perm = 0644
		}
		fs.WriteFile(p, []byte(o.Data), perm)
	}
}

// WD is the absolute working directory of the service.
func (sv *Svc) WD() string {
	switch {
	case sv.WorkDir == "":
		return sv.Cwd
	case path.IsAbs(sv.WorkDir):
		return path.Clean(sv.WorkDir)
	}
	return path.Join(sv.Cwd, sv.WorkDir)
}

// Astra is the service's .astra directory.
func (sv *Svc) Astra() string { return path.Join(sv.WD(), ".astra") }

// HasCache tells whether caching is on.
func (sv *Svc) HasCache() bool { return sv.Cache != "" || sv.Flow == "cli" || sv.Flow == "load" }

// CachePath is the absolute path of the cache file.
func (sv *Svc) CachePath() string {
	if sv.Cache == "" || sv.Cache == "default" {
		return path.Join(sv.Astra(), "cache.json")
	}
	if path.IsAbs(sv.Cache) {
		return path.Clean(sv.Cache)
	}
	return path.Join(sv.Cwd, sv.Cache)
}

// OutPath is the absolute path of an output (file, or directory for azure).
func (sv *Svc) OutPath(o Out) string {
	p := o.Path
	switch o.Mode {
	case "openapi":
		if !strings.HasSuffix(p, ".json") && !strings.HasSuffix(p, ".yaml") && !strings.HasSuffix(p, ".yml") {
			p += ".json"
		}
	case "json":
		if !strings.HasSuffix(p, ".json") {
			p += ".json"
		}
	}
	return path.Join(sv.WD(), p)
}

// Roles lists the processes of one generation.
func (sv *Svc) Roles() []string {
	switch sv.Flow {
	case "cli":
		return []string{"setup", "generate"}
	case "load":
		return []string{"first", "second"}
	}
	return []string{"direct"}
}

// StepRec is one API call.
type StepRec struct {
	Name string
	Err  string
	Leak []string
	Ops  int
}

// Rec is what a program reported.
type Rec struct {
	Steps  []StepRec
	OK     bool
	Err    string
	Panic  string
	Done   bool
	Stored string // canonical form of the service when it was last cached
	Loaded string // canonical form after a load
}

// program state shared by the steps of one service in one process
type runner struct {
	sv   *Svc
	rec  *Rec
	p    *proc.Proc
	s    *astra.Service
	base int // open descriptors before
}

func (r *runner) step(name string, f func() error) bool {
	before := r.p.OpenFDs()
	ops := r.p.Ops()
	err := f()
	st := StepRec{Name: name, Ops: r.p.Ops() - ops}
	if err != nil {
		st.Err = err.Error()
		if st.Err == "" {
			st.Err = "error"
		}
		r.rec.Err = name + ": " + st.Err
	}
	st.Leak = diffMulti(r.p.OpenFDs(), before)
	r.rec.Steps = append(r.rec.Steps, st)
	return err == nil
}

// diffMulti returns what is in a but not in b (as multisets).
func diffMulti(a, b []string) []string {
	n := map[string]int{}
	for _, x := range b {
		n[x]++
	}
	var out []string
	for _, x := range a {
		if n[x] > 0 {
			n[x]--
			continue
		}
		out = append(out, x)
	}
	return out
}

func (sv *Svc) routers(p *proc.Proc) []*gin.Engine {
	n := sv.Inputs
	if n < 1 {
		n = 1
	}
	rs := make([]*gin.Engine, n)
	for i := range rs {
		rs[i] = gin.New()
	}
	if p.Funcs == nil {
		p.Funcs = map[uintptr]proc.FuncInfo{}
	}
	for _, rt := range sv.Rend().Routes {
		h := stubs.Handlers[(sv.Stub+rt.Handler)%len(stubs.Handlers)]
		file := path.Join(sv.Root, rt.File)
		if rt.File == proj.Generated {
			file = rt.File
		}
		p.Funcs[reflect.ValueOf(h).Pointer()] = proc.FuncInfo{Name: rt.Func, File: file, Line: rt.Line}
	}
	sv.engines, sv.given = rs, 0
	sv.registerNext(len(sv.Rend().Routes) - sv.Late)
	return rs
}

// registerNext registers the next routes.
func (sv *Svc) registerNext(n int) {
	rts := sv.Rend().Routes
	for ; n > 0 && sv.given < len(rts); n-- {
		i := sv.given
		sv.engines[i%len(sv.engines)].Handle(rts[i].Method, rts[i].Path, stubs.Handlers[(sv.Stub+rts[i].Handler)%len(stubs.Handlers)])
		sv.given++
	}
}

// LogTo collects what every service logs when it is set, for debugging.
var LogTo *bytes.Buffer

func (sv *Svc) logOpt(opts []astra.Option) []astra.Option {
	if LogTo != nil {
		return append(opts, astra.WithCustomLogger(zerolog.New(LogTo)))
	}
	switch sv.Log {
	case "nop":
		opts = append(opts, astra.WithCustomLogger(zerolog.Nop()))
	case "debug":
		opts = append(opts, astra.WithCustomLogLevel("debug"))
	case "buf":
		opts = append(opts, astra.WithCustomLogger(zerolog.New(io.Discard)))
	}
	return opts
}

func (sv *Svc) options(p *proc.Proc, withIO bool) []astra.Option {
	var opts []astra.Option
	opts = sv.logOpt(opts)
	for _, d := range sv.Deny {
		opts = append(opts, astra.WithPathDenyList(d))
	}
	for _, d := range sv.DenyRe {
		opts = append(opts, astra.WithPathDenyListRegex(regexp.MustCompile(d)))
	}
	for _, d := range sv.DenyFn {
		d := d
		opts = append(opts, astra.WithPathDenyListFunc(func(p string) bool { return strings.HasSuffix(p, d) }))
	}
	if withIO {
		for _, r := range sv.routers(p) {
			opts = append(opts, inputs.WithGinInput(r))
		}
		for _, o := range sv.Outputs {
			opts = append(opts, sv.outOpt(o.Mode, o.Path))
		}
		if sv.Types != nil {
			m := map[string]astra.TypeFormat{}
			for k, v := range sv.Types {
				m[k] = v
			}
			if sv.Single {
				ks := make([]string, 0, len(m))
				for k := range m {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					opts = append(opts, astra.WithCustomTypeMappingSingle(k, m[k].Type, m[k].Format))
				}
			} else {
				opts = append(opts, astra.WithCustomTypeMapping(m))
			}
		}
		opts = append(opts, astra.WithConfig(sv.config()))
	}
	if sv.Custom {
		opts = append(opts, astra.WithCustomFunc(customFunc))
	}
	if sv.WorkDir != "" {
		opts = append(opts, astra.WithCustomWorkDir(sv.WorkDir))
	}
	return opts
}

// customFunc describes calls of the first helper itself.
func customFunc(ctx string, b *astra.ContextFuncBuilder) (*astra.Route, error) {
	f, err := b.Traverser.Type()
	if err != nil || f.Name() != "Help0" {
		return nil, nil
	}
	return b.Ignored().Build(func(route *astra.Route, params []any) (*astra.Route, error) {
		route.ReturnTypes = astra.AddReturnType(route.ReturnTypes, astra.ReturnType{ContentType: "text/plain", StatusCode: 299, Field: astra.Field{Type: "string"}})
		return route, nil
	})
}

func (sv *Svc) outOpt(mode, p string) astra.Option {
	switch mode {
	case "json":
		return outputs.WithJSONOutput(p)
	case "azure":
		return outputs.WithAzureFunctionsOutput(p)
	}
	return outputs.WithOpenAPIOutput(p)
}

func (sv *Svc) cacheOpt(opts []astra.Option) []astra.Option {
	switch sv.Cache {
	case "":
		if sv.Flow == "load" {
			opts = append(opts, cache.WithCache())
		}
	case "default":
		opts = append(opts, cache.WithCache())
	default:
		opts = append(opts, cache.WithCustomCachePath(sv.Cache))
	}
	return opts
}

func (r *runner) keep() bool {
	r.rec.Stored = Canon(r.s)
	return true
}

// Program returns the program of a role.
func (sv *Svc) Program(role string, p *proc.Proc, rec *Rec) func() {
	return func() {
		defer func() { rec.Done = true }()
		r := &runner{sv: sv, rec: rec, p: p}
		switch role {
		case "direct":
			r.s = astra.New(sv.cacheOpt(sv.options(p, true))...)
			rec.OK = r.flow(sv.Flow)
		case "setup":
			opts := sv.options(p, true)
			opts = append(opts, cli.WithCLI())
			if sv.Cache != "" && sv.Cache != "default" {
				opts = append(opts, cache.WithCustomCachePath(sv.Cache))
			}
			r.s = astra.New(opts...)
			rec.OK = r.step("SetupParse", r.s.SetupParse) && r.keep()
		case "generate":
			os.Args = append([]string{"astra"}, sv.cliArgs()...)
			climain.Main()
			rec.OK = true
		case "first":
			r.s = astra.New(sv.cacheOpt(sv.options(p, true))...)
			rec.OK = r.first(sv.Split)
		case "second":
			rec.OK = r.second()
		}
	}
}

func (sv *Svc) cliArgs() []string {
	args := []string{"generate"}
	c := sv.CachePath()
	if c != path.Join(sv.Cwd, ".astra/cache.json") {
		if sv.LoadBy == "rel" && strings.HasPrefix(c, sv.Cwd+"/") {
			args = append(args, "--cache="+strings.TrimPrefix(c, sv.Cwd+"/"))
		} else if sv.LoadBy == "rel" && sv.Cache != "" && sv.Cache != "default" {
			args = append(args, "-c", sv.Cache)
		} else {
			args = append(args, "-c", c)
		}
	}
	if sv.WD() != sv.Cwd {
		args = append(args, "-d", sv.WorkDir)
	}
	return args
}

func (r *runner) flow(flow string) bool {
	s := r.s
	switch flow {
	case "two":
		return r.step("SetupParse", s.SetupParse) && r.step("CompleteParse", s.CompleteParse) && r.keep()
	case "steps":
		return r.step("Setup", s.Setup) && r.step("CreateRoutes", s.CreateRoutes) && r.step("ParseRoutes", s.ParseRoutes) &&
			r.step("Clean", s.Clean) && r.step("Generate", s.Generate) && r.keep() && r.step("Teardown", s.Teardown)
	}
	return r.step("Parse", s.Parse) && r.keep()
}

var stepNames = []string{"Setup", "CreateRoutes", "ParseRoutes", "Clean", "Generate"}

func (r *runner) stepFns() []func() error {
	return []func() error{r.s.Setup, r.s.CreateRoutes, r.s.ParseRoutes, r.s.Clean, r.s.Generate}
}

func (r *runner) first(n int) bool {
	for i, f := range r.stepFns() {
		if i >= n {
			break
		}
		if !r.step(stepNames[i], f) {
			return false
		}
	}
	return r.keep()
}

// second completes from the cache the way a program would.
func (r *runner) second() bool {
	sv := r.sv
	opts := sv.options(r.p, false)
	opts = sv.cacheOpt(opts)
	r.s = astra.New(opts...)
	s := r.s
	if sv.WorkDir == "" {
		wd, err := os.Getwd()
		if err != nil {
			r.rec.Err = err.Error()
			return false
		}
		s.WorkDir = wd
	}
	ok := false
	if sv.LoadBy == "path" {
		ok = r.step("LoadCacheFromCustomPath", func() error { return s.LoadCacheFromCustomPath(sv.CachePath()) })
	} else {
		ok = r.step("LoadCache", s.LoadCache)
	}
	if !ok {
		return false
	}
	r.rec.Loaded = Canon(s)
	// rebind the functions, which a cache cannot hold
	ins, outs := s.Inputs, s.Outputs
	s.Inputs, s.Outputs = nil, nil
	var routers []*gin.Engine
	if sv.Split < 2 {
		routers = sv.routers(r.p)
		if len(routers) != len(ins) {
			r.rec.Err = fmt.Sprintf("%d inputs restored, not %d", len(ins), len(routers))
			return false
		}
	}
	for i, in := range ins {
		if in.Mode != inputs.InputModeGin {
			r.rec.Err = "input mode not restored"
			return false
		}
		var e *gin.Engine
		if routers != nil {
			e = routers[i]
		}
		inputs.WithGinInput(e)(s)
	}
	for _, o := range outs {
		key := astra.IOConfigurationKeyFilePath
		m := map[astra.OutputMode]string{outputs.OutputModeJSON: "json", outputs.OutputModeOpenAPI: "openapi", outputs.OutputModeAzureFunctions: "azure"}[o.Mode]
		if m == "azure" {
			key = astra.IOConfigurationKeyDirectoryPath
		}
		v, _ := o.Configuration[key].(string)
		if m == "" || v == "" {
			r.rec.Err = fmt.Sprintf("output not restored: %v %v", o.Mode, o.Configuration)
			return false
		}
		sv.outOpt(m, v)(s)
	}
	if sv.Split < 2 {
		if !r.step("CreateRoutes", s.CreateRoutes) {
			return false
		}
	}
	if sv.LoadBy == "rest" {
		fns := r.stepFns()
		for i := max(sv.Split, 2); i < len(fns); i++ {
			if !r.step(stepNames[i], fns[i]) {
				return false
			}
		}
		return r.keep() && r.step("Teardown", s.Teardown)
	}
	return r.step("CompleteParse", s.CompleteParse) && r.keep()
}

// Canon is a normal form of what a cache holds of a service.
func Canon(s *astra.Service) string {
	type out struct {
		Mode string
		Conf any
	}
	var v struct {
		In     []string
		Out    []out
		Config any
		Routes any
		Comps  any
		Types  any
	}
	for _, i := range s.Inputs {
		v.In = append(v.In, string(i.Mode))
	}
	for _, o := range s.Outputs {
		v.Out = append(v.Out, out{string(o.Mode), o.Configuration})
	}
	v.Config, v.Routes, v.Comps, v.Types = s.Config, s.Routes, s.Components, s.CustomTypeMapping
	b, err := json.Marshal(v)
	if err != nil {
		return "unmarshalable: " + err.Error()
	}
	var x any
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	_ = d.Decode(&x)
	x = prune(x)
	b, _ = json.Marshal(x)
	return string(b)
}

func prune(x any) any {
	switch t := x.(type) {
	case map[string]any:
		for k, v := range t {
			v = prune(v)
			if v == nil {
				delete(t, k)
			} else {
				t[k] = v
			}
		}
		if len(t) == 0 {
			return nil
		}
	case []any:
		for i := range t {
			t[i] = prune(t[i])
		}
		if len(t) == 0 {
			return nil
		}
	case string:
		if t == "" {
			return nil
		}
	case bool:
		if !t {
			return nil
		}
	}
	return x
}
