// simbuild generates the build overlay of the simulator: patched standard library, patched package loader,
// and the repository's own packages rewritten so that map iteration, scheduling points and package
// variables are under the simulator's control. Nothing in /repo is changed.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "simbuild:", err)
	os.Exit(2)
}

func writeIfChanged(p, c string) {
	if b, err := os.ReadFile(p); err == nil && string(b) == c {
		return
	}
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		fatal(err)
	}
	if err := os.WriteFile(p, []byte(c), 0644); err != nil {
		fatal(err)
	}
}

func goOut(dir string, args ...string) string {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Stderr = os.Stderr
	b, err := c.Output()
	if err != nil {
		fatal(fmt.Errorf("go %s: %w", strings.Join(args, " "), err))
	}
	return strings.TrimSpace(string(b))
}

type ins struct {
	off  int
	end  int // replaced up to here
	text string
	seq  int
}

type tailInit struct {
	fn, lhs  string
	from, to int
}

type fileEdit struct {
	src  string
	edit []ins
}

func main() {
	out := flag.String("out", "/verif/.build", "")
	level := flag.Int("level", 2, "0: no source rewriting, 1: reset only, 2: everything")
	simdir := flag.String("sim", "/verif/sim", "")
	universe := flag.String("universe", "", "write the list of packages outside the projects here")
	flag.Parse()

	goroot := goOut(*simdir, "env", "GOROOT")
	xtools := goOut(*simdir, "list", "-m", "-f", "{{.Dir}}", "golang.org/x/tools")
	replace := map[string]string{}
	stdOverlay(goroot, xtools, *out, replace)

	if *universe != "" {
		writeUniverse(*simdir, *universe)
	}
	var resets []string
	seen := map[string]bool{}
	{
		cfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedSyntax | packages.NeedTypes |
				packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedModule,
			Dir: *simdir,
		}
		pkgs, err := packages.Load(cfg,
			"github.com/ls6-events/astra", "github.com/ls6-events/astra/inputs", "github.com/ls6-events/astra/outputs",
			"github.com/ls6-events/astra/cache", "github.com/ls6-events/astra/cli", "github.com/ls6-events/astra/utils",
			"github.com/ls6-events/astra/astTraversal", "github.com/ls6-events/astra/cli/astra/cmd")
		if err != nil {
			fatal(err)
		}
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			if p.Module == nil || seen[p.PkgPath] || p.Name == "main" || !strings.HasPrefix(p.PkgPath, "github.com/ls6-events/astra") {
				return
			}
			rel := strings.TrimPrefix(p.PkgPath, "github.com/ls6-events/astra")
			for _, skip := range []string{"/tests", "/examples", "/astTraversal/testfiles"} {
				if strings.HasPrefix(rel, skip) {
					return
				}
			}
			seen[p.PkgPath] = true
			for _, e := range p.Errors {
				fatal(fmt.Errorf("%s: %s", p.PkgPath, e))
			}
			instrument(p, *out, *level, replace)
			resets = append(resets, p.PkgPath)
		})
	}
	// registry of package variable resets, in dependency order
	var b strings.Builder
	b.WriteString("package registry\n\n")
	if *level > 0 {
		b.WriteString("import (\n")
		for i, r := range resets {
			fmt.Fprintf(&b, "\tp%d %q\n", i, r)
		}
		b.WriteString(")\n")
	}
	b.WriteString("\n// Reset re-initialises every package variable of the code under test: a process restart.\nfunc Reset() {\n")
	if *level > 0 {
		for i := range resets {
			fmt.Fprintf(&b, "\tp%d.SimReset()\n", i)
		}
	}
	b.WriteString("}\n\n")
	fmt.Fprintf(&b, "// Level is the instrumentation level of this build.\nconst Level = %d\n\n// Packages are the instrumented packages.\nvar Packages = []string{\n", *level)
	for _, r := range resets {
		fmt.Fprintf(&b, "\t%q,\n", r)
	}
	b.WriteString("}\n")
	reg := filepath.Join(*out, "registry.go")
	writeIfChanged(reg, b.String())
	replace[filepath.Join(*simdir, "internal/registry/registry.go")] = reg

	// the command-line tool's package main
	cliDir := goOut(*simdir, "list", "-m", "-f", "{{.Dir}}", "github.com/ls6-events/astra/cli/astra")
	ents, err := os.ReadDir(cliDir)
	if err != nil {
		fatal(err)
	}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		src := mustRead(filepath.Join(cliDir, e.Name()))
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, e.Name(), src, 0)
		if err != nil {
			fatal(err)
		}
		type cut struct {
			from, to int
			text     string
		}
		cuts := []cut{{fset.Position(f.Name.Pos()).Offset, fset.Position(f.Name.End()).Offset, "climain"}}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				cuts = append(cuts, cut{fset.Position(fd.Name.Pos()).Offset, fset.Position(fd.Name.End()).Offset, "Main"})
			}
		}
		for i := len(cuts) - 1; i >= 0; i-- {
			src = src[:cuts[i].from] + cuts[i].text + src[cuts[i].to:]
		}
		dst := filepath.Join(*out, "src", "climain__"+e.Name())
		writeIfChanged(dst, src)
		replace[filepath.Join(*simdir, "internal/climain", e.Name())] = dst
	}

	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	writeIfChanged(filepath.Join(*out, "overlay.json"), string(j))
}

func instrument(p *packages.Package, out string, level int, replace map[string]string) {
	if level == 0 {
		return
	}
	fset := p.Fset
	edits := map[string]*fileEdit{}
	seq := 0
	add := func(pos, end token.Pos, text string) {
		f := fset.File(pos)
		fe := edits[f.Name()]
		if fe == nil {
			fe = &fileEdit{src: mustRead(f.Name())}
			edits[f.Name()] = fe
		}
		seq++
		e := f.Offset(pos)
		if end.IsValid() {
			e = f.Offset(end)
		}
		fe.edit = append(fe.edit, ins{f.Offset(pos), e, text, seq})
	}
	text := func(n ast.Node) string {
		f := fset.File(n.Pos())
		fe := edits[f.Name()]
		if fe == nil {
			fe = &fileEdit{src: mustRead(f.Name())}
			edits[f.Name()] = fe
		}
		return fe.src[f.Offset(n.Pos()):f.Offset(n.End())]
	}
	fileOf := func(pos token.Pos) string { return fset.File(pos).Name() }
	used := map[string]bool{} // files that use the rt import

	// package variables and init functions
	tail := map[string]*strings.Builder{}
	tailOf := func(file string) *strings.Builder {
		if tail[file] == nil {
			tail[file] = &strings.Builder{}
		}
		return tail[file]
	}
	tails := map[string][]tailInit{}
	var zero, order []string
	nfn := 0
	hasInit := map[*types.Var]bool{}
	specOf := map[ast.Expr]string{}
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for _, v := range vs.Values {
					specOf[v] = fileOf(v.Pos())
				}
			}
		}
	}
	for _, in := range p.TypesInfo.InitOrder {
		for _, v := range in.Lhs {
			hasInit[v] = true
		}
		var names []string
		blank := true
		for _, v := range in.Lhs {
			names = append(names, v.Name())
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank {
			continue
		}
		file, ok := specOf[in.Rhs]
		if !ok {
			continue
		}
		nfn++
		fn := fmt.Sprintf("simInitVar%d", nfn)
		tf := fset.File(in.Rhs.Pos())
		tails[file] = append(tails[file], tailInit{fn, strings.Join(names, ", "), tf.Offset(in.Rhs.Pos()), tf.Offset(in.Rhs.End())})
		order = append(order, fn)
	}
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					if len(vs.Values) > 0 || vs.Type == nil {
						continue
					}
					for _, n := range vs.Names {
						if n.Name == "_" {
							continue
						}
						nfn++
						fn := fmt.Sprintf("simInitVar%d", nfn)
						fmt.Fprintf(tailOf(fileOf(n.Pos())), "\nfunc %s() { var simZ %s; %s = simZ }\n", fn, text(vs.Type), n.Name)
						zero = append(zero, fn)
					}
				}
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					nfn++
					fn := fmt.Sprintf("simInitFn%d", nfn)
					add(d.Pos(), d.Name.End(), fmt.Sprintf("func init() { %s() }; func %s", fn, fn))
					order = append(order, fn)
				}
			}
		}
	}

	if level >= 2 {
		for _, f := range p.Syntax {
			file := fileOf(f.Pos())
			yield := func(list []ast.Stmt) {
				for _, s := range list {
					if _, ok := s.(*ast.EmptyStmt); ok {
						continue
					}
					add(s.Pos(), token.NoPos, "simrt.SimY(); ")
					used[file] = true
				}
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					// switch/select bodies hold clauses, not statements
					if len(n.List) > 0 {
						switch n.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					yield(n.List)
				case *ast.CaseClause:
					yield(n.Body)
				case *ast.CommClause:
					yield(n.Body)
				case *ast.RangeStmt:
					t := p.TypesInfo.TypeOf(n.X)
					if t == nil {
						return true
					}
					if _, isTP := t.(*types.TypeParam); isTP {
						return true
					}
					if _, ok := t.Underlying().(*types.Map); !ok {
						return true
					}
					k, v := "_", "_"
					if n.Key != nil {
						k = text(n.Key)
					}
					if n.Value != nil {
						v = text(n.Value)
					}
					// nested instrumented code inside the range expression (function literals) is left alone
					x := text(n.X)
					simple := true
					ast.Inspect(n.X, func(m ast.Node) bool {
						if _, ok := m.(*ast.FuncLit); ok {
							simple = false
						}
						return true
					})
					if !simple {
						return true
					}
					var bind string
					if n.Tok == token.ASSIGN {
						bind = fmt.Sprintf("var simOk bool; %s, %s, simOk = simE.Get(); if !simOk { continue }; ", k, v)
					} else {
						bind = fmt.Sprintf("%s, %s, simOk := simE.Get(); if !simOk { continue }; ", k, v)
					}
					add(n.For, n.Body.Lbrace+1, fmt.Sprintf("for _, simE := range simrt.SimEntries(%s) { %s", x, bind))
					used[file] = true
				}
				return true
			})
		}
	}

	// write rewritten files
	names := map[string]bool{}
	for f := range edits {
		names[f] = true
	}
	for f := range tail {
		names[f] = true
	}
	for f := range tails {
		names[f] = true
	}
	var sorted []string
	for f := range names {
		sorted = append(sorted, f)
	}
	sort.Strings(sorted)
	for _, f := range sorted {
		fe := edits[f]
		if fe == nil {
			fe = &fileEdit{src: mustRead(f)}
		}
		sort.SliceStable(fe.edit, func(i, j int) bool {
			a, b := fe.edit[i], fe.edit[j]
			if a.off != b.off {
				return a.off < b.off
			}
			// insertions before replacements at the same place
			if (a.end == a.off) != (b.end == b.off) {
				return a.end == a.off
			}
			return a.seq < b.seq
		})
		render := func(from, to int) string {
			var b strings.Builder
			last := from
			for _, e := range fe.edit {
				if e.off < last || e.end > to || (e.off == to && e.end == to) {
					continue // outside, or inside a replaced range
				}
				b.WriteString(fe.src[last:e.off])
				b.WriteString(e.text)
				last = e.end
			}
			b.WriteString(fe.src[last:to])
			return b.String()
		}
		s := render(0, len(fe.src))
		if used[f] {
			for _, sf := range p.Syntax {
				if fileOf(sf.Pos()) == f {
					off := fset.File(sf.Pos()).Offset(sf.Name.End())
					// edits before the package clause do not exist
					s = s[:off] + "; import simrt \"container/ring\"" + s[off:]
				}
			}
		}
		for _, ti := range tails[f] {
			s += fmt.Sprintf("\nfunc %s() { %s = %s }\n", ti.fn, ti.lhs, render(ti.from, ti.to))
		}
		if t := tail[f]; t != nil {
			s += t.String()
		}
		dst := filepath.Join(out, "src", strings.ReplaceAll(strings.TrimPrefix(f, "/"), "/", "__"))
		writeIfChanged(dst, s)
		replace[f] = dst
	}
	// SimReset
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\n// SimReset re-initialises the package.\nfunc SimReset() {\n", p.Name)
	for _, fn := range append(zero, order...) {
		fmt.Fprintf(&b, "\t%s()\n", fn)
	}
	b.WriteString("}\n")
	dir := filepath.Dir(p.GoFiles[0])
	dst := filepath.Join(out, "src", strings.ReplaceAll(strings.TrimPrefix(dir, "/"), "/", "__")+"__zz_simreset.go")
	writeIfChanged(dst, b.String())
	replace[filepath.Join(dir, "zz_simreset.go")] = dst
}

// writeUniverse lists the packages simulated projects may import, with their export data.
func writeUniverse(simdir, file string) {
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,CgoFiles,ImportMap,Export"}
	args = append(args, "github.com/gin-gonic/gin", "github.com/google/uuid", "net/http", "time", "errors", "fmt", "strconv", "strings", "encoding/json", "mime/multipart")
	dec := json.NewDecoder(strings.NewReader(goOut(simdir, args...)))
	var all []map[string]any
	for dec.More() {
		var m map[string]any
		if err := dec.Decode(&m); err != nil {
			fatal(err)
		}
		all = append(all, m)
	}
	b, err := json.Marshal(all)
	if err != nil {
		fatal(err)
	}
	writeIfChanged(file, string(b))
}
