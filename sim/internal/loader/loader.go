// Package loader serves golang.org/x/tools/go/packages.Load for simulated processes: project packages come
// from the simulated disk and are parsed and type-checked per call, in an order the seed decides; packages
// outside the project come from the build cache.
package loader

import (
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/scanner"
	"go/token"
	"go/types"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/gcexportdata"
	"golang.org/x/tools/go/packages"

	"verifsim/internal/proc"
	"verifsim/internal/vfs"
)

// UPkg is a package outside the project.
type UPkg struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	ImportMap  map[string]string
	Export     string
}

type universe struct {
	mu      sync.Mutex
	pkgs    map[string]*UPkg
	imports map[string]*types.Package
	src     map[string]*packages.Package
	fset    *token.FileSet
}

var uni *universe

const uBase = 1 << 28 // positions of the project start here

// Init reads the list written by the build.
func Init(universeJSON string, warm bool) error {
	b, err := os.ReadFile(universeJSON)
	if err != nil {
		return err
	}
	var l []*UPkg
	if err := json.Unmarshal(b, &l); err != nil {
		return err
	}
	uni = &universe{pkgs: map[string]*UPkg{}, imports: map[string]*types.Package{}, src: map[string]*packages.Package{}, fset: token.NewFileSet()}
	for _, p := range l {
		uni.pkgs[p.ImportPath] = p
	}
	packages.SimLoad = load
	if warm {
		for _, p := range []string{"time", "github.com/google/uuid", "github.com/gin-gonic/gin", "net/http", "errors", "fmt", "strconv", "strings", "encoding/json", "mime/multipart"} {
			if _, err := uni.imp(p); err != nil {
				return err
			}
			if p := uni.source(p); p == nil || len(p.Errors) > 0 {
				return fmt.Errorf("universe package does not load: %+v", p)
			}
		}
	}
	return nil
}

func (u *universe) imp(p string) (*types.Package, error) {
	if p == "unsafe" {
		return types.Unsafe, nil
	}
	if t := u.imports[p]; t != nil && t.Complete() {
		return t, nil
	}
	k := u.pkgs[p]
	if k == nil || k.Export == "" {
		return nil, fmt.Errorf("no metadata for %s", p)
	}
	f, err := os.Open(k.Export)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	r, err := gcexportdata.NewReader(f)
	if err != nil {
		return nil, err
	}
	t, err := gcexportdata.Read(r, u.fset, u.imports, p)
	if err != nil {
		return nil, err
	}
	u.imports[p] = t
	return t, nil
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

// host runs f as the harness: no simulated calls, no scheduling points.
func host(f func()) {
	id := runtime.SimID()
	runtime.SimSetID(0)
	defer runtime.SimSetID(id)
	f()
}

// source loads a package outside the project from its real source (function bodies ignored).
func (u *universe) source(p string) *packages.Package {
	if r := u.src[p]; r != nil {
		return r
	}
	k := u.pkgs[p]
	if k == nil {
		return nil
	}
	res := &packages.Package{ID: p, Name: k.Name, PkgPath: p, Fset: u.fset, Imports: map[string]*packages.Package{}}
	for _, f := range append(append([]string(nil), k.GoFiles...), k.CgoFiles...) {
		full := filepath.Join(k.Dir, f)
		af, err := parser.ParseFile(u.fset, full, nil, parser.AllErrors|parser.ParseComments)
		if err != nil {
			res.Errors = append(res.Errors, packages.Error{Msg: err.Error(), Kind: packages.ParseError})
		}
		res.GoFiles = append(res.GoFiles, full)
		res.Syntax = append(res.Syntax, af)
	}
	res.CompiledGoFiles = res.GoFiles
	res.TypesInfo = newInfo()
	res.TypesSizes = types.SizesFor("gc", "amd64")
	res.Types = types.NewPackage(p, k.Name)
	cfg := &types.Config{
		IgnoreFuncBodies: true, FakeImportC: true, Sizes: res.TypesSizes,
		Importer: importerFunc(func(ip string) (*types.Package, error) {
			if m, ok := k.ImportMap[ip]; ok {
				ip = m
			}
			return u.imp(ip)
		}),
		Error: func(err error) {
			if len(k.CgoFiles) == 0 {
				res.Errors = append(res.Errors, packages.Error{Msg: err.Error(), Kind: packages.TypeError})
			}
		},
	}
	_ = types.NewChecker(cfg, u.fset, res.Types, res.TypesInfo).Files(res.Syntax)
	u.src[p] = res
	return res
}

func newInfo() *types.Info {
	return &types.Info{
		Types:        make(map[ast.Expr]types.TypeAndValue),
		Defs:         make(map[*ast.Ident]types.Object),
		Uses:         make(map[*ast.Ident]types.Object),
		Implicits:    make(map[ast.Node]types.Object),
		Instances:    make(map[*ast.Ident]types.Instance),
		Scopes:       make(map[ast.Node]*types.Scope),
		Selections:   make(map[*ast.SelectorExpr]*types.Selection),
		FileVersions: make(map[*ast.File]string),
	}
}

func errPkg(p, msg string, kind packages.ErrorKind) []*packages.Package {
	return []*packages.Package{{
		ID: p, PkgPath: p, Fset: token.NewFileSet(), Types: types.NewPackage(p, ""), TypesInfo: newInfo(),
		Imports: map[string]*packages.Package{},
		Errors:  []packages.Error{{Pos: "", Msg: msg, Kind: kind}}, IllTyped: true,
	}}
}

func load(cfg *packages.Config, patterns ...string) ([]*packages.Package, error, bool) {
	p := proc.Current()
	if p == nil {
		return nil, nil, false
	}
	if cfg == nil {
		cfg = &packages.Config{}
	}
	if len(patterns) == 0 {
		patterns = []string{"."}
	}
	var pkgs []*packages.Package
	var err error
	for _, pat := range patterns {
		var one []*packages.Package
		one, err = loadOne(p, cfg, pat)
		if err != nil {
			return nil, err, true
		}
		pkgs = append(pkgs, one...)
	}
	return pkgs, nil, true
}

func loadOne(p *proc.Proc, cfg *packages.Config, pattern string) (pkgs []*packages.Package, err error) {
	fault := p.Load(pattern)
	if cfg.Context != nil && cfg.Context.Err() != nil {
		return nil, cfg.Context.Err()
	}
	// a load takes a long time: others run meanwhile
	for i := 0; i < 8; i++ {
		runtime.SimYield()
	}
	switch fault {
	case "err":
		return nil, errors.New("err: exit status 1: stderr: go: simulated failure of the go command")
	case "empty":
		return nil, nil
	case "list":
		return errPkg(pattern, "simulated list error", packages.ListError), nil
	}
	seed := p.Seams.LoadSeed
	if seed != 0 {
		seed ^= uint64(p.NextLoad()) * 0x9e3779b97f4a7c15
	}
	cwd := p.Cwd()
	fs := p.FS
	host(func() { pkgs = Project(fs, p.ReadHost, cwd, cfg, pattern, seed) })
	switch fault {
	case "parse", "type", "unknown":
		kind := map[string]packages.ErrorKind{"parse": packages.ParseError, "type": packages.TypeError, "unknown": packages.UnknownError}[fault]
		// a copy: packages outside the project are shared
		for i := range pkgs {
			c := *pkgs[i]
			c.Errors = append(append([]packages.Error(nil), c.Errors...), packages.Error{Msg: "simulated " + fault + " error", Kind: kind})
			c.IllTyped = true
			if fault == "parse" {
				c.Syntax = nil
			}
			pkgs[i] = &c
		}
	}
	for i := 0; i < 8; i++ {
		runtime.SimYield()
	}
	return pkgs, nil
}

type ppkg struct {
	path  string
	dir   string
	name  string
	files []string
	data  map[string][]byte
	err   string // list error
	multi string // list error after which importers still get the types
	imps  []string
	res   *packages.Package
	done  bool
}

// Project loads a pattern from a disk.
func Project(fs *vfs.FS, read func(string) ([]byte, error), cwd string, cfg *packages.Config, pattern string, seed uint64) []*packages.Package {
	dir := cfg.Dir
	if dir == "" {
		dir = cwd
	} else if !path.IsAbs(dir) {
		dir = path.Join(cwd, dir)
	}
	if n := fs.Lookup(dir); n == nil || n.Kind != vfs.Dir {
		return errPkg(pattern, "chdir "+dir+": no such file or directory", packages.ListError)
	}
	// module
	root, mod := "", ""
	for d := dir; ; d = path.Dir(d) {
		if n := fs.Lookup(path.Join(d, "go.mod")); n != nil && n.Kind == vfs.File {
			b, err := read(path.Join(d, "go.mod"))
			if err != nil {
				return errPkg(pattern, err.Error(), packages.ListError)
			}
			root = d
			mod = modulePath(string(b))
			if mod == "" {
				return errPkg(pattern, "go.mod: no module declaration", packages.ListError)
			}
			break
		}
		if d == "/" {
			break
		}
	}
	if strings.HasPrefix(pattern, "./") || pattern == "." {
		if root == "" || !strings.HasPrefix(path.Join(dir, pattern)+"/", root+"/") {
			return errPkg(pattern, "directory outside module", packages.ListError)
		}
		pattern = path.Join(mod, strings.TrimPrefix(path.Join(dir, pattern), root))
	}
	inMod := func(p string) bool { return mod != "" && (p == mod || strings.HasPrefix(p, mod+"/")) }
	if !inMod(pattern) {
		uni.mu.Lock()
		defer uni.mu.Unlock()
		if uni.pkgs[pattern] == nil {
			return errPkg(pattern, "package "+pattern+" is not in std", packages.ListError)
		}
		return []*packages.Package{uni.source(pattern)}
	}

	rng := seed
	rnd := func(n int) int {
		rng += 0x9e3779b97f4a7c15
		z := rng
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return int((z ^ (z >> 31)) % uint64(n))
	}

	// the package and its project dependencies
	all := map[string]*ppkg{}
	var order []*ppkg // dependencies first
	var visit func(p string) *ppkg
	visit = func(p string) *ppkg {
		if k := all[p]; k != nil {
			return k
		}
		k := &ppkg{path: p, dir: path.Join(root, strings.TrimPrefix(strings.TrimPrefix(p, mod), "/")), data: map[string][]byte{}}
		all[p] = k
		list(fs, read, k)
		for _, i := range k.imps {
			if inMod(i) {
				visit(i)
			}
		}
		order = append(order, k)
		return k
	}
	top := visit(pattern)
	if top.err != "" {
		return errPkg(pattern, top.err, packages.ListError)
	}

	// parse: in reality all files of all packages at once, so their order in the file set is arbitrary
	fset := token.NewFileSet()
	fset.AddFile("$outside", fset.Base(), uBase)
	type job struct {
		k *ppkg
		f string
	}
	var jobs []job
	for _, k := range order {
		for _, f := range k.files {
			jobs = append(jobs, job{k, f})
		}
	}
	if seed != 0 {
		for i := len(jobs) - 1; i > 0; i-- {
			j := rnd(i + 1)
			jobs[i], jobs[j] = jobs[j], jobs[i]
		}
	}
	parsed := map[string]*ast.File{}
	perr := map[string]error{}
	for i, j := range jobs {
		if seed != 0 {
			if n := rnd(4); n > 0 {
				fset.AddFile(fmt.Sprintf("$dep%d", i), fset.Base(), rnd(300)*n)
			}
		}
		af, err := parser.ParseFile(fset, path.Join(j.k.dir, j.f), j.k.data[j.f], parser.AllErrors|parser.ParseComments)
		parsed[path.Join(j.k.dir, j.f)] = af
		if err != nil {
			perr[path.Join(j.k.dir, j.f)] = err
		}
	}
	for _, k := range order {
		check(fset, k, all, parsed, perr, inMod, root, mod)
	}
	return []*packages.Package{top.res}
}

func modulePath(s string) string {
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, "//"); i >= 0 {
			l = strings.TrimSpace(l[:i])
		}
		if strings.HasPrefix(l, "module") {
			l = strings.TrimSpace(strings.TrimPrefix(l, "module"))
			if u, err := strconv.Unquote(l); err == nil {
				return u
			}
			return l
		}
	}
	return ""
}

func list(fs *vfs.FS, read func(string) ([]byte, error), k *ppkg) {
	n := fs.Lookup(k.dir)
	if n == nil || n.Kind != vfs.Dir {
		k.err = "no required module provides package " + k.path
		return
	}
	seen := map[string]bool{}
	for _, name := range n.Names() {
		if !strings.HasSuffix(name, ".go") || name[0] == '_' || name[0] == '.' {
			continue
		}
		if c := fs.Lookup(path.Join(k.dir, name)); c != nil && c.Kind == vfs.Dir {
			continue
		}
		b, err := read(path.Join(k.dir, name))
		if err != nil {
			k.err = err.Error()
			return
		}
		if strings.HasSuffix(name, "_test.go") { // only its head is read
			f, err := parser.ParseFile(token.NewFileSet(), name, b, parser.ImportsOnly)
			if err != nil {
				k.multi = err.Error()
			} else if n := strings.TrimSuffix(f.Name.Name, "_test"); k.name != "" && n != k.name {
				k.multi = fmt.Sprintf("found packages %s and %s in %s", k.name, n, k.dir)
			}
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), name, b, parser.ImportsOnly)
		k.files = append(k.files, name)
		k.data[name] = b
		if f == nil || f.Name == nil || f.Name.Name == "" || f.Name.Name == "_" {
			continue
		}
		if err != nil && f.Name.Name == "" {
			continue
		}
		if k.name == "" {
			k.name = f.Name.Name
		} else if k.name != f.Name.Name {
			k.multi = fmt.Sprintf("found packages %s and %s in %s", k.name, f.Name.Name, k.dir)
		}
		for _, l := range strings.Split(string(b), "\n") {
			if pats, ok := strings.CutPrefix(l, "//go:embed "); ok && k.multi == "" {
				for _, pat := range strings.Fields(pats) {
					if fs.Lookup(path.Join(k.dir, pat)) == nil {
						k.multi = fmt.Sprintf("%s: pattern %s: no matching files found", name, pat)
					}
				}
			}
		}
		for _, i := range f.Imports {
			p, err := strconv.Unquote(i.Path.Value)
			if err == nil && !seen[p] {
				seen[p] = true
				k.imps = append(k.imps, p)
			}
		}
	}
	if len(k.files) == 0 {
		k.err = "no Go files in " + k.dir
		return
	}
	sort.Strings(k.imps)
}

func check(fset *token.FileSet, k *ppkg, all map[string]*ppkg, parsed map[string]*ast.File, perr map[string]error, inMod func(string) bool, root, mod string) {
	res := &packages.Package{ID: k.path, Name: k.name, PkgPath: k.path, Fset: fset, Imports: map[string]*packages.Package{}, TypesSizes: types.SizesFor("gc", "amd64"),
		Module: &packages.Module{Path: mod, Main: true, Dir: root, GoMod: path.Join(root, "go.mod"), GoVersion: "1.21"}}
	k.res = res
	res.Types = types.NewPackage(k.path, k.name)
	res.TypesInfo = newInfo()
	if k.err != "" {
		res.Errors = append(res.Errors, packages.Error{Msg: k.err, Kind: packages.ListError})
		res.IllTyped = true
		return
	}
	if k.multi != "" {
		res.Errors = append(res.Errors, packages.Error{Msg: k.multi, Kind: packages.ListError})
	}
	for _, f := range k.files {
		full := path.Join(k.dir, f)
		res.GoFiles = append(res.GoFiles, full)
		if af := parsed[full]; af != nil {
			res.Syntax = append(res.Syntax, af)
		}
		if err := perr[full]; err != nil {
			if el, ok := err.(scanner.ErrorList); ok {
				for _, e := range el {
					res.Errors = append(res.Errors, packages.Error{Pos: e.Pos.String(), Msg: e.Msg, Kind: packages.ParseError})
				}
			} else {
				res.Errors = append(res.Errors, packages.Error{Msg: err.Error(), Kind: packages.ParseError})
			}
		}
	}
	res.CompiledGoFiles = res.GoFiles
	cfg := &types.Config{
		Sizes: res.TypesSizes, GoVersion: "go1.21",
		Importer: importerFunc(func(ip string) (*types.Package, error) {
			if inMod(ip) {
				d := all[ip]
				if d == nil || d.err != "" {
					msg := "no metadata for " + ip
					if d != nil {
						msg = d.err
					}
					return nil, errors.New(msg)
				}
				if d.res == nil { // import cycle
					return nil, fmt.Errorf("import cycle not allowed: %s", ip)
				}
				return d.res.Types, nil
			}
			uni.mu.Lock()
			defer uni.mu.Unlock()
			return uni.imp(ip)
		}),
		Error: func(err error) {
			if te, ok := err.(types.Error); ok {
				res.TypeErrors = append(res.TypeErrors, te)
				res.Errors = append(res.Errors, packages.Error{Pos: fset.Position(te.Pos).String(), Msg: te.Msg, Kind: packages.TypeError})
				if Debug != nil {
					Debug(fset.Position(te.Pos).String() + ": " + te.Msg)
				}
				return
			}
			res.Errors = append(res.Errors, packages.Error{Msg: err.Error(), Kind: packages.UnknownError})
		},
	}
	_ = types.NewChecker(cfg, fset, res.Types, res.TypesInfo).Files(res.Syntax)
	for _, i := range k.imps {
		if d := all[i]; d != nil && d.res != nil {
			res.Imports[i] = d.res
		} else {
			res.Imports[i] = &packages.Package{ID: i, PkgPath: i}
		}
	}
	res.IllTyped = len(res.Errors) > 0
	for _, i := range res.Imports {
		if i.IllTyped {
			res.IllTyped = true
		}
	}
}

// Debug, if set, is told about every type error in a project package.
var Debug func(string)
