// Package proj generates the user projects the simulation runs on: Go modules with gin handlers.
package proj

import (
	"fmt"
	"path"
	"regexp"
	"sort"
	"strings"
)

// Ref is a Go type expression.
type Ref struct {
	K string `json:"k"` // basic named ptr slice array map time duration uuid any ginH anon error
	N string `json:"n,omitempty"`
	T int    `json:"t,omitempty"`
	E *Ref   `json:"e,omitempty"`
	L int    `json:"l,omitempty"`
}

// Field of a struct.
type Field struct {
	Name  string `json:"name"`
	Type  Ref    `json:"type"`
	Tag   string `json:"tag,omitempty"`
	Doc   string `json:"doc,omitempty"`
	Embed bool   `json:"embed,omitempty"`
	Ptr   bool   `json:"ptr,omitempty"`  // embedded pointer
	Also  string `json:"also,omitempty"` // a second name of the same type
	Drop  bool   `json:"drop,omitempty"`
}

// Type is a declared type.
type Type struct {
	Pkg    int      `json:"pkg"`
	File   int      `json:"file,omitempty"`
	Name   string   `json:"name"`
	Kind   string   `json:"kind"` // struct enum def
	Doc    string   `json:"doc,omitempty"`
	Fields []Field  `json:"fields,omitempty"`
	Under  Ref      `json:"under"`
	Consts []string `json:"consts,omitempty"`
	Group  bool     `json:"group,omitempty"`  // declared in a group
	Spread int      `json:"spread,omitempty"` // how the constants are distributed: 0 one group, 1 a file each, 2 single declarations
	Drop   bool     `json:"drop,omitempty"`
}

// Const is a package-level constant or variable used as a status code or a parameter name.
type Const struct {
	Pkg    int    `json:"pkg"`
	Name   string `json:"name"`
	Val    string `json:"val"`
	Var    bool   `json:"var,omitempty"`
	Shadow int    `json:"shadow,omitempty"` // functions with a local of the same name
	Drop   bool   `json:"drop,omitempty"`
}

// Stmt is a statement of a handler.
type Stmt struct {
	K      string `json:"k"` // gin method, "helper", "noise"
	Status string `json:"status,omitempty"`
	C      int    `json:"c,omitempty"` // constant (index+1)
	Name   string `json:"name,omitempty"`
	Type   Ref    `json:"type"`
	Via    string `json:"via,omitempty"` // var lit ptr call
	H      int    `json:"h,omitempty"`
	If     bool   `json:"if,omitempty"`
	In     string `json:"in,omitempty"`  // what the statement is part of: for switch func defer block
	Lit    string `json:"lit,omitempty"` // how a name is written: raw esc
	Src    string `json:"src,omitempty"` // where a status or name comes from that only a run can tell: unset field
	Drop   bool   `json:"drop,omitempty"`
}

// Func is a handler or a helper.
type Func struct {
	Pkg    int    `json:"pkg"`
	File   int    `json:"file,omitempty"`
	Name   string `json:"name"`
	Doc    string `json:"doc,omitempty"`
	Body   []Stmt `json:"body,omitempty"`
	Method string `json:"method,omitempty"`
	Path   string `json:"path,omitempty"`
	Inline string `json:"inline,omitempty"` // enclosing function of an inline handler
	Made   bool   `json:"made,omitempty"`   // returned by a function
	Recv   string `json:"recv,omitempty"`   // a method: "*" of a pointer, "=" of a value, "&" of a value, taken from a pointer
	Serve  bool   `json:"serve,omitempty"`  // the method is called like the ones of other types
	Ctx    string `json:"ctx,omitempty"`    // name of the context; "-": none
	Arg    bool   `json:"arg,omitempty"`    // a helper that has another argument first
	Look   bool   `json:"look,omitempty"`   // a helper that has a context that isn't gin's first
	ErrArg bool   `json:"errArg,omitempty"` // a helper that has a pointer to an error first
	More   []Way  `json:"more,omitempty"`   // further routes it handles
	Gap    int    `json:"gap,omitempty"`    // lines without anything before it
	Drop   bool   `json:"drop,omitempty"`
}

// Way is a further route of a handler.
type Way struct {
	Method string `json:"method"`
	Path   string `json:"path"`
}

// Pkg is a package of the project.
type Pkg struct {
	Dir  string `json:"dir"`
	Name string `json:"name"`
}

// Spec is a project.
type Spec struct {
	Module   string   `json:"module"`
	GoMod    string   `json:"gomod,omitempty"`
	Pkgs     []Pkg    `json:"pkgs"`
	Types    []Type   `json:"types,omitempty"`
	Consts   []Const  `json:"consts,omitempty"`
	Helpers  []Func   `json:"helpers,omitempty"`
	Handlers []Func   `json:"handlers"`
	Extra    []string `json:"extra,omitempty"` // other files of the project
	MainTest bool     `json:"mainTest,omitempty"`
	Look     int      `json:"look,omitempty"`    // the package of a context that isn't gin's
	Groups   int      `json:"groups,omitempty"`  // types are declared in groups, 2: with a comment for what has none
	Aliases  int      `json:"aliases,omitempty"` // which imports have a name of their own: 1 of two alike the first, 2 all, each that of another package
	Up       string   `json:"up,omitempty"`      // where the main package is in the module
	Embed    bool     `json:"embed,omitempty"`   // the main package embeds a file
	Odd      int      `json:"odd,omitempty"`     // a file next to it that isn't a part of it: 1 a directory, 2 a draft, 3 a lock
	Marked   string   `json:"marked,omitempty"`  // every struct has a field of its own (plain: all of them are in every JSON document)
}

// Route is a registered handler.
type Route struct {
	Method, Path string
	Func         string // runtime name
	File         string // relative to the project
	Line         int
	Handler      int // index
}

// Rendered is the source of a project.
type Rendered struct {
	Files  map[string]string
	Routes []Route
}

// --- generation ---

var basics = []string{"string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "bool", "byte", "rune"}

// stdNames are types of packages that the programs import beside their own ones of the same name.
var stdNames = map[string][]string{"time": {"Time", "Duration", "Month"}, "uuid": {"UUID", "Domain"}}

var nouns = []string{"Pet", "Order", "User", "Item", "Tag", "Address", "Price", "Owner", "Line", "Shop", "Event", "Node"}
var attrs = []string{"ID", "Name", "Email", "Age", "Tags", "Status", "Owner", "Total", "Notes", "Count", "When", "Kind", "Flag", "Ref"}

// Size bounds a project.
type Size struct {
	Pkgs, Types, Handlers, Stmts int
	Plain                        bool // nothing exotic
	Rec                          bool // types and functions that refer to themselves
}

func (s *Spec) ref(r *Rng, pkg, upto, depth int) Ref {
	var cands []int
	for i := 0; i < upto && i < len(s.Types); i++ {
		if s.Types[i].Pkg >= pkg {
			cands = append(cands, i)
		}
	}
	for {
		switch k := r.N(24); {
		case k < 8:
			return Ref{K: "basic", N: basics[r.N(len(basics))]}
		case k < 13 && len(cands) > 0:
			return Ref{K: "named", T: cands[r.N(len(cands))]}
		case k == 13 && depth > 0:
			e := s.ref(r, pkg, upto, depth-1)
			return Ref{K: "ptr", E: &e}
		case k < 16 && depth > 0:
			e := s.ref(r, pkg, upto, depth-1)
			return Ref{K: "slice", E: &e}
		case k == 16 && depth > 0:
			e := s.ref(r, pkg, upto, depth-1)
			return Ref{K: "map", N: "string", E: &e}
		case k == 17 && depth > 0:
			e := s.ref(r, pkg, upto, 0)
			return Ref{K: "array", L: 1 + r.N(5), E: &e}
		case k == 18:
			return Ref{K: "time"}
		case k == 19:
			return Ref{K: "uuid"}
		case k == 20:
			return Ref{K: "any"}
		case k == 21 && r.P(1, 2):
			return Ref{K: "duration"}
		case k == 22 && r.P(1, 3):
			return Ref{K: r.Pick("iface", "error", "func", "chan", "bytes", "raw")}
		case k == 23 && depth > 0:
			e := s.ref(r, pkg, upto, 0)
			if r.P(1, 2) {
				return Ref{K: "anon", E: &e}
			}
			for i := range s.Types {
				if s.Types[i].Kind == "generic" && s.Types[i].Pkg >= pkg && i < upto {
					if !s.Describable(e) {
						e = Ref{K: "basic", N: "string"}
					}
					return Ref{K: "inst", T: i, E: &e}
				}
			}
		}
	}
}

func (s *Spec) isPtr(r Ref) bool {
	return r.K == "ptr" || r.K == "named" && s.Types[r.T].Kind == "alias" && s.isPtr(s.Types[r.T].Under)
}

func doc(r *Rng, what string) string {
	switch r.N(4) {
	case 0:
		return what + " of the service."
	case 1:
		return what + " described\nover two lines: \"quoted\" & more."
	}
	return ""
}

// Generate makes a project.
func Generate(r *Rng, z Size) *Spec {
	s := &Spec{}
	s.Module = r.Pick("example.com/shop", "shop", "github.com/acme/api", "acme.io/deep/er/svc")
	s.Pkgs = []Pkg{{"", "main"}}
	dirs := []Pkg{{"time", "time"}, {"lib/uuid", "uuid"}, {"handlers", "handlers"}, {"types", "types"}, {"v1/types", "types"}, {"v2/types", "types"}, {"internal/model", "model"}, {"consts", "consts"}, {"v1/model", "model"}, {"lib/v2", "lib"}, {"go-util", "util"}, {"api.v1", "api"}, {"lib", "lib"}}
	n := 1 + r.N(z.Pkgs)
	for i := 0; i < n && len(dirs) > 0; i++ {
		j := r.N(len(dirs))
		s.Pkgs = append(s.Pkgs, dirs[j])
		dirs = append(dirs[:j:j], dirs[j+1:]...)
	}
	if last := s.Pkgs[len(s.Pkgs)-1]; last.Dir == "lib/v2" && r.P(1, 2) {
		s.Pkgs = append(s.Pkgs, Pkg{"lib", "lib"})
		for i, p := range s.Pkgs[:len(s.Pkgs)-1] {
			if p.Dir == "lib" {
				s.Pkgs = append(s.Pkgs[:i:i], s.Pkgs[i+1:]...)
				break
			}
		}
	}
	s.Aliases = r.PickI(0, 0, 1, 2)
	s.Groups = r.PickI(0, 0, 0, 0, 1, 2)
	np := len(s.Pkgs)
	nt := 1 + r.N(z.Types)
	used := map[string]bool{}
	alike := 5
	if s.Pkgs[len(s.Pkgs)-1].Dir == "lib" {
		alike = 2
	}
	var twins []int // structs of the same name and fields
	for i := 0; i < nt; i++ {
		t := Type{Pkg: r.N(np), File: r.N(2)}
		if i < nt/2 {
			t.Pkg = np - 1 - r.N((np+1)/2)
		}
		for {
			t.Name = nouns[r.N(len(nouns))]
			if std := stdNames[s.Pkgs[t.Pkg].Name]; len(std) > 0 && r.P(1, 2) {
				// named like types of the library that are described in a way of their own
				t.Name = std[r.N(len(std))]
			} else if r.P(1, 4) {
				t.Name += r.Pick("Request", "Response", "Detail")
			}
			k := fmt.Sprint(t.Pkg, t.Name)
			if !used[k] {
				used[k] = true
				break
			}
			if r.P(1, 3) {
				t.Name += fmt.Sprint(i)
				used[fmt.Sprint(t.Pkg, t.Name)] = true
				break
			}
		}
		if i > 0 && r.P(1, alike) {
			// named like a type of another package, now and then the very same struct
			if u := &s.Types[r.N(i)]; u.Pkg != t.Pkg && !used[fmt.Sprint(t.Pkg, u.Name)] {
				t.Name = u.Name
				used[fmt.Sprint(t.Pkg, t.Name)] = true
				if u.Kind == "struct" && u.Pkg > t.Pkg && r.P(1, 2) {
					t.Kind, t.Doc, t.Fields = "struct", u.Doc, append([]Field(nil), u.Fields...)
					for j := range s.Types {
						if &s.Types[j] == u {
							twins = []int{j, i}
						}
					}
					s.Types = append(s.Types, t)
					continue
				}
			}
		}
		t.Doc = doc(r, t.Name)
		t.Group = s.Groups > 0 && r.P(3, 4)
		switch k := r.N(11); {
		case k == 10:
			t.Kind = r.Pick("alias", "generic")
			if t.Kind == "generic" {
				t.Fields = []Field{{Name: "Items", Type: Ref{K: "slice", E: &Ref{K: "tparam"}}, Tag: `json:"items"`}, {Name: "Next", Type: Ref{K: "basic", N: "string"}}}
				break
			}
			t.Under = s.ref(r, t.Pkg, i, 1)
		case k < 6:
			t.Kind = "struct"
			seen := map[string]bool{}
			style := r.N(8)
			for j, nf := 0, 1+r.N(6); j < nf; j++ {
				f := Field{Name: attrs[r.N(len(attrs))]}
				if seen[f.Name] {
					continue
				}
				seen[f.Name] = true
				if r.P(1, 10) {
					f.Also = f.Name + "Two"
				}
				if r.P(1, 14) {
					f.Name = strings.ToLower(f.Name[:1]) + f.Name[1:]
				}
				f.Type = s.ref(r, t.Pkg, i, 2)
				if f.Type.K == "named" && s.Types[f.Type.T].Kind == "struct" && r.P(1, 2) && !seen[s.Types[f.Type.T].Name] {
					f.Embed = true
					f.Ptr = r.P(1, 4)
					f.Also = ""
					f.Name = s.Types[f.Type.T].Name
					seen[f.Name] = true
					t.Fields = append(t.Fields, f)
					continue
				}
				lo := strings.ToLower(f.Name)
				switch r.N(11) {
				case 8, 9:
					var tags []string
					for _, k := range []string{"json", "form", "xml", "yaml", "header", "uri"} {
						if r.P(1, 2) {
							tags = append(tags, fmt.Sprintf("%s:%q", k, r.Pick(lo, lo, lo+"_"+k[:1], lo+",omitempty", lo+"_v,inline", lo+"_s,string,omitempty", ",omitempty", "")))
						}
					}
					if r.P(1, 3) {
						tags = append(tags, r.Pick(`binding:"required"`, `validate:"required,min=1"`, `binding:"-"`, `binding:"min=1,required"`))
					}
					f.Tag = strings.Join(tags, " ")
				case 0, 1, 2:
					f.Tag = fmt.Sprintf(`json:"%s"`, lo)
				case 3:
					f.Tag = fmt.Sprintf(`json:"%s,omitempty" form:"%s" binding:"required"`, lo, lo)
				case 4:
					f.Tag = fmt.Sprintf(`json:"%s" xml:"%s_x" yaml:"%s_y" form:"%s_f" header:"X-%s"`, lo, lo, lo, lo, f.Name)
				case 5:
					f.Tag = r.Pick(`json:"-"`, `json:"-"`, `json:"-" xml:"-"`, `json:"-,"`, `json:"-,omitempty" form:"-"`)
				case 6:
					f.Tag = fmt.Sprintf(`form:"%s" json:"%s" validate:"required"`, lo, lo)
				case 7:
					if r.P(1, 3) { // two fields with one name
						f.Tag = `json:"same"`
					}
				}
				switch style {
				case 0, 1:
					f.Tag = ""
				case 2:
					f.Tag = fmt.Sprintf(`json:"%s" xml:"%s" yaml:"%s" form:"%s" header:"%s" uri:"%s"`, lo, lo, lo, lo, lo, lo)
				case 3:
					f.Tag = fmt.Sprintf(`json:"%s_j" xml:"%s_x"`, lo, lo)
				}
				f.Doc = doc(r, f.Name)
				t.Fields = append(t.Fields, f)
			}
		case k < 8:
			t.Kind = "enum"
			t.Under = Ref{K: "basic", N: r.Pick("string", "string", "int", "int64", "float64", "uint8", "bool")}
			for j, nc := 0, 1+r.N(3); j < nc; j++ {
				v := ""
				switch t.Under.N {
				case "string":
					v = fmt.Sprintf("%q", r.Pick("red", "green", "blue: x", "on", "null", "12", "a-b"))
				case "float64":
					v = r.Pick("1.5", "2.25", "1e21", "0.1")
				case "bool":
					v = r.Pick("true", "false")
				case "int64":
					v = r.Pick("9007199254740993", "1", "12")
				case "int":
					v = r.Pick("-3", "1 << 3", "0x1F", "'a'", "7")
				default:
					v = fmt.Sprint(r.N(200))
				}
				if r.P(1, 12) && t.Under.N != "string" && t.Under.N != "bool" {
					v = "iota"
				}
				t.Consts = append(t.Consts, v)
			}
			t.Spread = r.PickI(0, 0, 1, 1, 2)
		default:
			t.Kind = "def"
			t.Under = s.ref(r, t.Pkg, i, 2)
			for s.isPtr(t.Under) { // no type of its own is a pointer
				if t.Under.K == "ptr" {
					t.Under = *t.Under.E
				} else {
					t.Under = s.Types[t.Under.T].Under
				}
			}
		}
		s.Types = append(s.Types, t)
	}
	if z.Rec {
		s.recurse(r)
	}
	for i, nc := 0, r.N(4); i < nc; i++ {
		c := Const{Pkg: r.N(np), Name: r.Pick("Limit", "Page", "Sort", "Code", "Accepted") + fmt.Sprint(i)}
		if strings.HasPrefix(c.Name, "Code") || strings.HasPrefix(c.Name, "Acc") {
			c.Val = r.Pick("200", "202", "418")
		} else {
			c.Val = fmt.Sprintf("%q", r.Pick("limit", "page", "sort_by"))
		}
		c.Shadow = r.N(4)
		c.Var = r.P(1, 6)
		s.Consts = append(s.Consts, c)
	}
	chain := !z.Plain && r.P(1, 10) // every helper calls the one before
	hpkg := r.N(np)
	for i, nh := 0, r.N(3); i < nh || chain && i < 6; i++ {
		h := Func{Pkg: r.N(np), File: r.N(2), Name: fmt.Sprintf("Help%d", i), Ctx: r.Pick("", "", "ctx"), Arg: r.P(1, 3)}
		h.ErrArg = !h.Arg && !z.Plain && r.P(1, 4)
		h.Look = !h.Arg && !h.ErrArg && !z.Plain && r.P(1, 4)
		if chain {
			h.Pkg = hpkg
		}
		h.Body = s.body(r, h.Pkg, 0, 1+r.N(2), z)
		if chain && i > 0 {
			h.Body = append(h.Body, Stmt{K: "helper", H: i - 1})
		}
		if i > 0 && h.Look && s.Helpers[0].Pkg >= h.Pkg {
			h.Body = append(h.Body, Stmt{K: "helper", H: 0})
		}
		s.Helpers = append(s.Helpers, h)
	}
	if z.Rec {
		for i := range s.Helpers {
			j := r.N(len(s.Helpers))
			if s.Helpers[j].Pkg >= s.Helpers[i].Pkg && (i == j || s.Helpers[j].Pkg == s.Helpers[i].Pkg || j < i) && r.P(1, 2) {
				s.Helpers[i].Body = append(s.Helpers[i].Body, Stmt{K: "helper", H: j})
			}
		}
	}
	nh := 1 + r.N(z.Handlers)
	paths := map[string]bool{}
	for i := 0; i < nh; i++ {
		h := Func{Pkg: r.N(np), File: r.N(2), Name: fmt.Sprintf("%s%s%d", r.Pick("Get", "List", "Create", "Update", "Del"), nouns[r.N(len(nouns))], i)}
		h.Method = r.Pick("GET", "GET", "POST", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS")
		h.Path = fmt.Sprintf("/%s%d", r.Pick("pets", "orders", "users"), r.N(4))
		switch r.N(5) {
		case 0:
			h.Path += "/:id"
		case 1:
			h.Path += "/:id/sub/:name"
		case 2:
			h.Path += fmt.Sprintf("/w%d/*rest", i)
		case 3:
			if r.P(1, 3) {
				h.Path = fmt.Sprintf("/z%d", i) + r.Pick("/:id/:a", "/:al/x/:alpha", "/:ab/:a/*alpha", "/v:id/:i", "/:user-id", "/:user_id/*file.path", "/:größe/:a", "/:id~x/:ID")
			}
		}
		if paths[h.Method+h.Path] {
			h.Path = fmt.Sprintf("/u%d%s", i, h.Path)
		}
		paths[h.Method+h.Path] = true
		if r.P(1, 4) {
			h.Inline = r.Pick("main", "setup", "setup", "(*server).routes", "group.register")
			h.Pkg = 0
		} else if r.P(1, 6) {
			h.Made = true
		} else if r.P(1, 5) {
			h.Recv, h.Serve = r.Pick("*", "*", "=", "&"), r.P(1, 2)
		}
		if h.Inline == "" && r.P(1, 6) {
			w := Way{h.Method, fmt.Sprintf("/more%d%s", i, h.Path)}
			if r.P(1, 3) && h.Method != "PUT" {
				w = Way{"PUT", h.Path}
			}
			if !paths[w.Method+w.Path] {
				paths[w.Method+w.Path] = true
				h.More = append(h.More, w)
			}
		}
		h.Ctx = r.Pick("", "", "", "ctx", "gc")
		h.Doc = doc(r, h.Name)
		h.Body = s.body(r, h.Pkg, len(s.Helpers), 1+r.N(z.Stmts), z)
		if r.P(9, 10) { // most handlers answer
			h.Body = append(h.Body, s.answer(r, h.Pkg))
		}
		if !z.Plain && r.P(1, 15) {
			h.Ctx, h.Body = r.Pick("-", "_"), nil
		} else if twins != nil && h.Pkg <= s.Types[twins[1]].Pkg {
			for k, j := range twins {
				h.Body = append(h.Body, Stmt{K: "JSON", Status: fmt.Sprint(202 + k), Type: Ref{K: "named", T: j}, Via: "var"})
			}
			twins = nil
		}
		s.Handlers = append(s.Handlers, h)
	}
	for _, e := range []string{"README.md", "go.sum", "Dockerfile", ".env", "docs/guide.md", "static/index.html", "handlers/data.json", ".gitignore", "Makefile"} {
		if r.P(1, 3) {
			s.Extra = append(s.Extra, e)
		}
	}
	s.MainTest = r.P(1, 6)
	s.GoMod = fmt.Sprintf([]string{"module %s\n\ngo 1.21\n", "module %s\n\ngo 1.21\n", "// A module.\n// It is called other.\nmodule %s\n\ngo 1.21\n", "module %s // it is\n\ngo 1.21\n",
		"module %q\n\ngo 1.21\n", "module %s\r\n\r\ngo 1.21\r\n", "\n\n  module\t%s\n\ngo 1.21\n", "go 1.21\n\nmodule %s\n"}[r.N(8)], s.Module)
	s.Embed = r.P(1, 8)
	s.Odd = r.PickI(0, 0, 0, 0, 0, 0, 0, 1, 2, 3)
	s.Up = r.Pick("", "", "", "cmd", "cmd/server")
	look := false
	for _, fs := range [][]Func{s.Handlers, s.Helpers} {
		for i := range fs {
			look = look || fs[i].Look
			for j := range fs[i].Body {
				look = look || fs[i].Body[j].K == "look"
			}
		}
	}
	if look {
		s.Pkgs = append(s.Pkgs, []Pkg{{"gonic/gin", "gin"}, {"web", "web"}}[r.N(2)])
		s.Look = len(s.Pkgs) - 1
	}
	return s
}

// recurse makes types refer to themselves, directly or through one another.
func (s *Spec) recurse(r *Rng) {
	for i := range s.Types {
		t := &s.Types[i]
		switch {
		case t.Kind == "struct" && r.P(1, 2):
			j := i
			for k := i + 1; k < len(s.Types); k++ {
				if o := s.Types[k]; o.Pkg == t.Pkg && o.Kind != "alias" && o.Kind != "generic" && r.P(1, 2) {
					j = k
				}
			}
			ref := Ref{K: "named", T: j}
			for k := r.N(2); k >= 0; k-- {
				e := ref
				ref = Ref{K: r.Pick("ptr", "slice", "map"), N: "string", E: &e}
			}
			name := "Again"
			if j != i {
				name = "Other"
			}
			t.Fields = append(t.Fields, Field{Name: name, Type: ref, Tag: r.Pick("", fmt.Sprintf("json:%q", strings.ToLower(name))), Doc: doc(r, name)})
		case t.Kind == "def" && r.P(1, 4):
			t.Under = Ref{K: r.Pick("slice", "map"), N: "string", E: &Ref{K: "named", T: i}}
		}
	}
}

func (s *Spec) status(r *Rng, pkg int, st *Stmt) {
	st.Status = r.Pick("200", "201", "400", "404", "http.StatusOK", "http.StatusTeapot", "http.StatusInternalServerError")
	if r.P(1, 4) {
		for i, c := range s.Consts {
			if c.Pkg >= pkg && c.Val[0] != '"' && r.P(1, 2) {
				st.C = i + 1
			}
		}
	}
}

func (s *Spec) name(r *Rng, pkg int, st *Stmt) {
	st.Name = r.Pick("limit", "page", "q", "X-Trace", "sort")
	if r.P(1, 3) {
		for i, c := range s.Consts {
			if c.Pkg >= pkg && c.Val[0] == '"' && r.P(1, 2) {
				st.C = i + 1
			}
		}
	}
}

func (s *Spec) answer(r *Rng, pkg int) Stmt {
	st := Stmt{K: r.Pick("JSON", "JSON", "JSON", "XML", "YAML", "ProtoBuf", "String", "Status", "Data", "AbortWithStatusJSON")}
	s.status(r, pkg, &st)
	st.Type = s.ref(r, pkg, len(s.Types), 2)
	if r.P(1, 8) {
		st.Type = Ref{K: "ginH"}
	} else if k := r.N(max(1, len(s.Types))); r.P(1, 8) && k < len(s.Types) && s.Types[k].Pkg >= pkg && s.Types[k].Kind != "generic" {
		st.Type = Ref{K: r.Pick("slice", "map", "array"), N: "string", L: 2, E: &Ref{K: "named", T: k}}
	}
	st.Via = r.Pick("var", "var", "lit", "ptr", "call")
	if st.Type.K == "basic" && r.P(1, 3) {
		st.Via = "const"
	}
	if r.P(1, 8) {
		st.Src = r.Pick("unset", "field", "short", "var", "second", "secondvar")
	}
	st.If = r.P(1, 4)
	return st
}

func (s *Spec) body(r *Rng, pkg, helpers, n int, z Size) []Stmt {
	var out []Stmt
	for i := 0; i < n; i++ {
		var st Stmt
		switch r.N(8) {
		case 0, 1:
			st = s.answer(r, pkg)
			if len(out) > 0 && !z.Plain && r.P(1, 6) {
				// the same status, and mostly the same type, once more
				if l := out[len(out)-1]; l.Status != "" && l.K != "helper" && !strings.HasPrefix(l.K, "AbortWithStatus") {
					st.Status, st.C = l.Status, l.C
					if l.Type.K != "" {
						st.Type = l.Type
					}
					if st.K == "Data" && l.K != "Data" && l.Type.K != "" && l.If == false {
						out[len(out)-1].Type, out[len(out)-1].Via, out[len(out)-1].Src = Ref{K: "bytes"}, "var", ""
					}
				}
			}
		case 2, 3:
			st.K = r.Pick("Query", "GetQuery", "QueryArray", "GetQueryArray", "QueryMap", "GetQueryMap", "PostForm", "GetPostForm", "PostFormArray", "PostFormMap", "GetPostFormArray", "GetPostFormMap", "GetHeader", "Header", "FormFile")
			s.name(r, pkg, &st)
			if !z.Plain {
				st.Via = r.Pick("", "", "conv", "len", "arg")
				st.Lit = r.Pick("", "", "", "raw", "esc")
				if r.P(1, 6) {
					st.Src = r.Pick("unset", "field", "short", "var", "second", "secondvar")
				}
			}
		case 4, 5:
			st.K = r.Pick("ShouldBindQuery", "BindQuery", "ShouldBind", "Bind", "ShouldBindJSON", "BindJSON", "ShouldBindXML", "BindXML", "ShouldBindYAML", "BindYAML", "ShouldBindHeader", "BindHeader")
			st.Type = s.ref(r, pkg, len(s.Types), 0)
			for k := 0; k < 6 && st.Type.K != "named"; k++ {
				st.Type = s.ref(r, pkg, len(s.Types), 0)
			}
			st.If = r.P(1, 2)
		case 6:
			st.K = r.Pick("AbortWithStatus", "AbortWithError")
			s.status(r, pkg, &st)
		case 7:
			if helpers > 0 {
				h := r.N(helpers)
				if s.Helpers[h].Pkg >= pkg {
					st.K, st.H = "helper", h
				}
			}
			if st.K == "" {
				st.K = r.Pick("noise", "noise", "odd", "mute", "look")
				if z.Plain {
					st.K = "noise"
				}
			}
		}
		if r.P(1, 5) && !z.Plain {
			st.In = r.Pick("for", "switch", "func", "block", "else")
		}
		out = append(out, st)
	}
	return out
}

// --- rendering ---

type file struct {
	pkg     int
	imports map[string]bool
	b       strings.Builder
	lines   int
	decls   []string
	funcs   []pending
}

type pending struct {
	text string
	mark []mark
}

type mark struct {
	line  int // relative to the text
	route Route
}

// Ways are the routes of a handler.
func (h *Func) Ways() []Way { return append([]Way{{h.Method, h.Path}}, h.More...) }

// Generated is the file of the functions that the compiler makes for method values.
const Generated = "<autogenerated>"

// RecvType is the type of the receiver of a method.
func (h *Func) RecvType() string { return h.Name + "Ctl" }

// FuncName is the name of a handler in its declaration.
func (h *Func) FuncName() string {
	if h.Recv != "" && h.Serve {
		return "ServeIt"
	}
	return h.Name
}

// OneFunc1 makes the last parts of the names of the handlers differ, as the directories of functions are named after them.
func (s *Spec) OneFunc1() {
	encl := ""
	for i := range s.Handlers {
		h := &s.Handlers[i]
		h.Made, h.Serve, h.More = false, false, nil
		if h.Inline != "" {
			if encl == "" {
				encl = h.Inline
			}
			h.Inline = encl
		}
	}
}

// PkgPath is the import path of a package.
func (s *Spec) PkgPath(i int) string { return path.Join(s.Module, s.Pkgs[i].Dir) }

type renderer struct {
	s     *Spec
	files map[string]*file
	n     int
}

func (re *renderer) file(pkg, i int) *file {
	p := re.s.Pkgs[pkg]
	base := []string{p.Name + ".go", "more.go", "enum_a.go", "enum_b.go", "zz.go", "aa.go"}[i]
	switch { // some names are the end of others
	case pkg == 0 && i == 0:
		base = "main.go"
	case pkg == 0 && i == 1:
		base = "domain.go"
	case i == 1 && len(p.Name)%2 == 0:
		base = "my_" + p.Name + ".go"
	}
	name := path.Join(p.Dir, base)
	f := re.files[name]
	if f == nil {
		f = &file{pkg: pkg, imports: map[string]bool{}}
		re.files[name] = f
	}
	return f
}

func (re *renderer) pkgPath(pkg int) string { return path.Join(re.s.Module, re.s.Pkgs[pkg].Dir) }

func (re *renderer) alias(pkg int) string {
	p := re.s.Pkgs[pkg]
	switch n := len(re.s.Pkgs); {
	case re.s.Aliases == 1 && p.Name != "gin" && stdNames[p.Name] == nil:
		for _, o := range re.s.Pkgs[pkg+1:] {
			if o.Name == p.Name {
				return p.Name + fmt.Sprint(pkg)
			}
		}
		return p.Name
	case re.s.Aliases == 2 && pkg > 0:
		return re.plainAlias(1 + pkg%(n-1))
	}
	return re.plainAlias(pkg)
}

func (re *renderer) plainAlias(pkg int) string {
	p := re.s.Pkgs[pkg]
	if p.Name == "gin" || stdNames[p.Name] != nil {
		return p.Name + fmt.Sprint(pkg)
	}
	for i, o := range re.s.Pkgs {
		if i != pkg && o.Name == p.Name && i < pkg {
			return p.Name + fmt.Sprint(pkg)
		}
	}
	return p.Name
}

func (re *renderer) qual(f *file, pkg int, name string) string {
	if f.pkg == pkg {
		return name
	}
	f.imports["P"+fmt.Sprint(pkg)] = true
	return re.alias(pkg) + "." + name
}

func (re *renderer) typ(f *file, r Ref) string {
	switch r.K {
	case "named":
		if r.T >= len(re.s.Types) || re.s.Types[r.T].Drop {
			return "string"
		}
		if re.s.Types[r.T].Kind == "generic" {
			return re.qual(f, re.s.Types[r.T].Pkg, re.s.Types[r.T].Name) + "[string]"
		}
		return re.qual(f, re.s.Types[r.T].Pkg, re.s.Types[r.T].Name)
	case "ptr":
		return "*" + re.typ(f, *r.E)
	case "slice":
		return "[]" + re.typ(f, *r.E)
	case "array":
		return fmt.Sprintf("[%d]%s", r.L, re.typ(f, *r.E))
	case "map":
		return "map[" + r.N + "]" + re.typ(f, *r.E)
	case "time":
		f.imports["time"] = true
		return "time.Time"
	case "duration":
		f.imports["time"] = true
		return "time.Duration"
	case "uuid":
		f.imports["github.com/google/uuid"] = true
		return "uuid.UUID"
	case "any":
		return "any"
	case "iface":
		return "interface{ Do() int }"
	case "error":
		return "error"
	case "func":
		return "func(int) string"
	case "chan":
		return "chan int"
	case "bytes":
		return "[]byte"
	case "raw":
		f.imports["encoding/json"] = true
		return "json.RawMessage"
	case "anon":
		return "struct {\n\t\tInner " + re.typ(f, *r.E) + " `json:\"inner\"`\n\t\tOther bool\n\t}"
	case "inst":
		if r.T >= len(re.s.Types) || re.s.Types[r.T].Drop || re.s.Types[r.T].Kind != "generic" {
			return "string"
		}
		return re.qual(f, re.s.Types[r.T].Pkg, re.s.Types[r.T].Name) + "[" + re.typ(f, *r.E) + "]"
	case "tparam":
		return "T"
	case "ginH":
		f.imports["github.com/gin-gonic/gin"] = true
		return "gin.H"
	case "", "basic":
		if r.N == "" {
			return "string"
		}
		return r.N
	}
	return "string"
}

func comment(indent, d string) string {
	if d == "" {
		return ""
	}
	return indent + "// " + strings.ReplaceAll(d, "\n", "\n"+indent+"// ") + "\n"
}

func (re *renderer) isStruct(r Ref) bool {
	return r.K == "named" && r.T < len(re.s.Types) && !re.s.Types[r.T].Drop && re.s.Types[r.T].Kind == "struct"
}

func (re *renderer) litOK(r Ref) bool {
	switch r.K {
	case "slice", "array", "map", "ginH", "bytes", "raw":
		return true
	case "inst":
		return r.T < len(re.s.Types) && !re.s.Types[r.T].Drop && re.s.Types[r.T].Kind == "generic"
	case "named":
		if r.T >= len(re.s.Types) || re.s.Types[r.T].Drop {
			return false
		}
		t := re.s.Types[r.T]
		if t.Kind == "struct" || t.Kind == "generic" {
			return true
		}
		if t.Kind == "def" || t.Kind == "alias" {
			return re.litOK(t.Under)
		}
	case "time":
		return true
	}
	return false
}

// stmts renders a body; every line is one entry.
func (re *renderer) stmts(f *file, body []Stmt, indent, ctx string) []string {
	var out []string
	base := indent
	ln := func(format string, a ...any) { out = append(out, indent+fmt.Sprintf(format, a...)) }
	for _, st := range body {
		if st.Drop {
			continue
		}
		re.n++
		v := fmt.Sprintf("v%d", re.n)
		status := st.Status
		name := fmt.Sprintf("%q", st.Name)
		if st.C > 0 && st.C <= len(re.s.Consts) && !re.s.Consts[st.C-1].Drop {
			c := re.s.Consts[st.C-1]
			q := re.qual(f, c.Pkg, c.Name)
			if c.Val[0] == '"' {
				name = q
			} else {
				status = q
			}
		}
		switch st.Lit {
		case "raw":
			name = "`" + st.Name + "`"
		case "esc":
			name = fmt.Sprintf("\"\\x%02x%s\"", st.Name[:min(1, len(st.Name))], st.Name[min(1, len(st.Name)):])
		}
		if st.C > 0 && st.C <= len(re.s.Consts) && !re.s.Consts[st.C-1].Drop && re.s.Consts[st.C-1].Val[0] == '"' {
			name = re.qual(f, re.s.Consts[st.C-1].Pkg, re.s.Consts[st.C-1].Name)
		}
		if st.Src != "" && status != "" {
			if strings.HasPrefix(status, "http.") {
				f.imports["net/http"] = true
			}
			status = re.indirect(f, &st, "int", status, ln)
		}
		if st.Src != "" && st.Name != "" {
			name = re.indirect(f, &st, "string", name, ln)
		}
		if strings.HasPrefix(status, "http.") {
			f.imports["net/http"] = true
		}
		open := func() {
			if st.If {
				ln("if c.IsAborted() {")
				indent += "\t"
			}
		}
		shut := func() {
			if st.If {
				indent = indent[1:]
				ln("}")
			}
		}
		end := ""
		switch st.In {
		case "for":
			ln("for i%s := 0; i%s < 2; i%s++ {", v, v, v)
			end = "}"
		case "switch":
			ln("switch c.ContentType() {")
			ln("default:")
			end = "}"
		case "func":
			ln("func() {")
			end = "}()"
		case "block":
			ln("{")
			end = "}"
		case "else":
			ln("if c.IsAborted() {")
			ln("\tc.Next()")
			ln("} else {")
			end = "}"
		}
		if end != "" {
			indent += "\t"
		}
		switch st.K {
		case "JSON", "XML", "YAML", "ProtoBuf", "AbortWithStatusJSON":
			t := re.typ(f, st.Type)
			open()
			lit := literals[st.Type.N]
			switch {
			case st.Via == "const" && st.Type.K == "basic" && lit != "":
				ln("c.%s(%s, %s)", st.K, status, lit)
			case (st.Via == "lit" || st.Via == "ptr") && re.litOK(st.Type):
				amp := ""
				if st.Via == "ptr" {
					amp = "&"
				}
				ln("c.%s(%s, %s%s{})", st.K, status, amp, t)
			case st.Via == "call":
				d := "New" + v
				f.funcs = append(f.funcs, pending{text: fmt.Sprintf("func %s() (x %s) {\n\treturn\n}\n", d, t)})
				ln("c.%s(%s, %s())", st.K, status, d)
			default:
				ln("var %s %s", v, t)
				ln("c.%s(%s, %s)", st.K, status, v)
			}
			shut()
		case "String":
			ln("c.String(%s, \"%%s\", c.ContentType())", status)
		case "Status", "AbortWithStatus":
			open()
			ln("c.%s(%s)", st.K, status)
			shut()
		case "AbortWithError":
			f.imports["errors"] = true
			ln("_ = c.AbortWithError(%s, errors.New(\"x\"))", status)
		case "Data":
			ln("%s := []byte(\"x\")", v)
			ln("c.Data(%s, \"application/octet-stream\", %s)", status, v)
		case "Query", "QueryArray", "QueryMap", "PostForm", "PostFormArray", "PostFormMap", "GetHeader":
			switch {
			case st.Via == "conv" && (st.K == "Query" || st.K == "PostForm" || st.K == "GetHeader"):
				ln("%s := []byte(c.%s(%s))", v, st.K, name)
				ln("_ = %s", v)
			case st.Via == "len":
				ln("_ = len(c.%s(%s)) + 1", st.K, name)
			case st.Via == "arg" && (st.K == "Query" || st.K == "PostForm" || st.K == "GetHeader"):
				f.imports["strconv"] = true
				ln("%s, _ := strconv.Atoi(c.%s(%s))", v, st.K, name)
				ln("_ = %s", v)
			default:
				ln("%s := c.%s(%s)", v, st.K, name)
				ln("_ = %s", v)
			}
		case "GetQuery", "GetQueryArray", "GetQueryMap", "GetPostForm", "GetPostFormArray", "GetPostFormMap", "FormFile":
			if st.Via == "conv" && st.K != "FormFile" {
				ln("if %s, ok := c.%s(%s); ok {", v, st.K, name)
				ln("\t_ = %s", v)
				ln("}")
				break
			}
			ln("%s, _ := c.%s(%s)", v, st.K, name)
			ln("_ = %s", v)
		case "Header":
			ln("c.Header(%s, \"v\")", name)
		case "ShouldBindQuery", "BindQuery", "ShouldBind", "Bind", "ShouldBindJSON", "BindJSON", "ShouldBindXML", "BindXML", "ShouldBindYAML", "BindYAML", "ShouldBindHeader", "BindHeader":
			t := re.typ(f, st.Type)
			ln("var %s %s", v, t)
			if st.If {
				ln("if err := c.%s(&%s); err != nil {", st.K, v)
				ln("\treturn")
				ln("}")
			} else {
				ln("_ = c.%s(&%s)", st.K, v)
			}
		case "helper":
			if st.H < len(re.s.Helpers) && !re.s.Helpers[st.H].Drop {
				first := ""
				if re.s.Helpers[st.H].Arg {
					first = "1, "
				} else if re.s.Helpers[st.H].ErrArg || re.s.Helpers[st.H].Look {
					first = "nil, "
				}
				ln("%s(%sc)", re.qual(f, re.s.Helpers[st.H].Pkg, re.s.Helpers[st.H].Name), first)
			}
		case "noise":
			f.imports["strconv"] = true
			ln("%s, _ := strconv.Atoi(c.FullPath())", v)
			ln("_ = len(c.Params) + %s", v)
		case "mute":
			d := "quiet" + v
			f.funcs = append(f.funcs, pending{text: fmt.Sprintf("func %s(%s*gin.Context) {\n}\n", d, []string{"", "_ "}[re.n%2])})
			ln("%s(c)", d)
		case "look":
			ln("%s := &%s{}", v, re.qual(f, re.s.Look, "Context"))
			ln("%s.JSON(299, \"no\")", v)
			ln("%s.Header(\"X-No\", %s.Query(\"no\"))", v, v)
			ln("_ = %s.ShouldBindJSON(&%s)", v, v)
			ln("%s(%s)", re.qual(f, re.s.Look, "Use"), v)
		case "odd":
			ln("%s := 1", v)
			ln("c.JSON(%s+199, %s)", v, v)
		}
		indent = base
		if end != "" {
			ln("%s", end)
		}
	}
	if ctx != "" {
		for i := range out {
			out[i] = ctxName.ReplaceAllString(out[i], ctx)
		}
	}
	return out
}

// literals are constants without a type of their own.
var literals = map[string]string{"bool": "true", "int": "-1", "string": "`x`", "float64": "1.5", "rune": "'a'"}

// indirect renders a variable that has a value, or something of the type whose value only a run can tell.
func (re *renderer) indirect(f *file, st *Stmt, typ, value string, ln func(string, ...any)) string {
	v := fmt.Sprintf("u%d", re.n)
	switch st.Src {
	case "unset":
		ln("_ = %s", value)
		ln("var %s %s", v, typ)
		return v
	case "short":
		ln("%s := %s", v, value)
		return v
	case "var":
		ln("var %s %s = %s", v, typ, value)
		return v
	case "second":
		ln("x%s, %s := \"y\", %s", v, v, value)
		ln("_ = x%s", v)
		return v
	case "secondvar":
		ln("var x%s, %s = 1, %s", v, v, value)
		ln("_ = x%s", v)
		return v
	}
	ln("_ = %s", value)
	pkg, field := f.pkg, "Limit"
	if st.C > 0 && st.C <= len(re.s.Consts) && !re.s.Consts[st.C-1].Drop {
		pkg, field = re.s.Consts[st.C-1].Pkg, re.s.Consts[st.C-1].Name
	}
	t := fmt.Sprintf("Conf%d", re.n)
	g := re.file(pkg, 0)
	g.decls = append(g.decls, fmt.Sprintf("type %s struct {\n\t%s %s\n}\n", t, field, typ))
	ln("var %s %s", v, re.qual(f, pkg, t))
	return v + "." + field
}

var ctxName = regexp.MustCompile(`\bc\b`)

// ctx is the parameter of the context.
func (h *Func) ctx() string {
	switch h.Ctx {
	case "":
		return "c *gin.Context"
	case "-":
		return "*gin.Context"
	}
	return h.Ctx + " *gin.Context"
}

// escaped is an import path in the name of a function.
func escaped(p string) string {
	i := strings.LastIndex(p, "/") + 1
	return p[:i] + strings.ReplaceAll(p[i:], ".", "%2e")
}

// Render writes the project's source.
func (s *Spec) Render(root string) Rendered {
	re := &renderer{s: s, files: map[string]*file{}}
	re.file(0, 0)
	for i := range s.Pkgs {
		re.file(i, 0)
	}
	if s.Look > 0 {
		f := re.file(s.Look, 0)
		f.decls = append(f.decls, "// Context isn't that of gin.\ntype Context struct {\n\tName string\n}\n")
		for _, m := range []string{"JSON(code int, obj any) {", "Header(key, value string) {", "Query(key string) string {\n\treturn key", "ShouldBindJSON(obj any) error {\n\treturn nil"} {
			f.decls = append(f.decls, "func (c *Context) "+m+"\n}\n")
		}
		f.decls = append(f.decls, "func Use(c *Context) {\n\tc.JSON(298, c.Query(\"nor this\"))\n}\n")
	}
	groups, inGroups := map[*file][]string{}, []*file{}
	for i := range s.Types {
		t := &s.Types[i]
		if t.Drop {
			continue
		}
		f := re.file(t.Pkg, t.File)
		var b strings.Builder
		b.WriteString(comment("", t.Doc))
		group := t.Group && t.Kind != "enum"
		switch t.Kind {
		case "struct", "generic":
			par := ""
			if t.Kind == "generic" {
				par = "[T any]"
			}
			fmt.Fprintf(&b, "type %s%s struct {\n", t.Name, par)
			for _, fl := range t.Fields {
				if fl.Drop {
					continue
				}
				tag := ""
				if fl.Tag != "" {
					tag = " `" + fl.Tag + "`"
				}
				if fl.Embed {
					if !re.isStruct(fl.Type) {
						continue
					}
					star := ""
					if fl.Ptr {
						star = "*"
					}
					fmt.Fprintf(&b, "\t%s%s%s\n", star, re.typ(f, fl.Type), tag)
					continue
				}
				b.WriteString(comment("\t", fl.Doc))
				name := fl.Name
				if fl.Also != "" {
					name += ", " + fl.Also
				}
				fmt.Fprintf(&b, "\t%s %s%s\n", name, re.typ(f, fl.Type), tag)
			}
			b.WriteString("}\n")
		case "enum":
			fmt.Fprintf(&b, "type %s %s\n", t.Name, t.Under.N)
			if t.Spread > 0 {
				for j, c := range t.Consts {
					text := fmt.Sprintf("const %sV%d %s = %s\n", t.Name, j, t.Name, c)
					if t.Spread == 1 { // on the same line of different files
						re.file(t.Pkg, 2+(j+i)%4).decls = append(re.file(t.Pkg, 2+(j+i)%4).decls, text)
					} else {
						b.WriteString("\n" + text)
					}
				}
			} else if len(t.Consts) > 0 {
				b.WriteString("\nconst (\n")
				for j, c := range t.Consts {
					fmt.Fprintf(&b, "\t%sV%d %s = %s\n", t.Name, j, t.Name, c)
				}
				b.WriteString(")\n")
			}
		case "alias":
			fmt.Fprintf(&b, "type %s = %s\n", t.Name, re.typ(f, t.Under))
		default:
			fmt.Fprintf(&b, "type %s %s\n", t.Name, re.typ(f, t.Under))
		}
		if group {
			if groups[f] == nil {
				inGroups = append(inGroups, f)
			}
			text := strings.Replace("\n"+b.String(), "\ntype ", "\n", 1)[1:]
			groups[f] = append(groups[f], "\t"+strings.ReplaceAll(strings.TrimSuffix(text, "\n"), "\n", "\n\t")+"\n")
			continue
		}
		f.decls = append(f.decls, b.String())
	}
	for _, f := range inGroups {
		head, sep := "type (\n", "\n"
		if s.Groups == 2 {
			head, sep = "// What is declared here.\n"+head, ""
		}
		f.decls = append(f.decls, head+strings.Join(groups[f], sep)+")\n")
	}
	for i := range s.Consts {
		c := &s.Consts[i]
		if c.Drop {
			continue
		}
		f := re.file(c.Pkg, 0)
		kw := "const"
		if c.Var {
			kw = "var"
		}
		f.decls = append(f.decls, fmt.Sprintf("%s %s = %s\n", kw, c.Name, c.Val))
		for k := 0; k < c.Shadow; k++ {
			g := re.file(c.Pkg, k%2)
			g.funcs = append(g.funcs, pending{text: fmt.Sprintf("func shadow%s%d() int {\n\t%s := []int{%d}\n\treturn len(%s)\n}\n", c.Name, k, c.Name, k, c.Name)})
		}
	}
	emit := func(h *Func) {
		f := re.file(h.Pkg, h.File)
		f.imports["github.com/gin-gonic/gin"] = true
		text := strings.Repeat("\n", h.Gap) + comment("", h.Doc)
		line := strings.Count(text, "\n")
		if h.Made {
			text += fmt.Sprintf("func %s() gin.HandlerFunc {\n\treturn func(%s) {\n", h.Name, h.ctx())
			line++
			for _, l := range re.stmts(f, h.Body, "\t\t", h.Ctx) {
				text += l + "\n"
			}
			text += "\t}\n}\n"
		} else if h.Recv != "" {
			ptr := ""
			if h.Recv == "*" {
				ptr = "*"
			}
			text = fmt.Sprintf("type %s struct{}\n\n", h.RecvType()) + text
			line += 2
			text += fmt.Sprintf("func (s %s%s) %s(%s) {\n", ptr, h.RecvType(), h.FuncName(), h.ctx())
			for _, l := range re.stmts(f, h.Body, "\t", h.Ctx) {
				text += l + "\n"
			}
			text += "}\n"
		} else {
			first := ""
			if h.Arg && h.Method == "" {
				first = "n int, "
			} else if h.ErrArg && h.Method == "" {
				first = "err *error, "
			} else if h.Look && h.Method == "" {
				first = "look *" + re.qual(f, re.s.Look, "Context") + ", "
			}
			text += fmt.Sprintf("func %s(%s%s) {\n", h.Name, first, h.ctx())
			for _, l := range re.stmts(f, h.Body, "\t", h.Ctx) {
				text += l + "\n"
			}
			text += "}\n"
		}
		p := pending{text: text}
		if h.Method != "" {
			fn := escaped(re.pkgPath(h.Pkg)) + "." + h.Name
			if h.Pkg == 0 {
				fn = "main." + h.Name
			}
			if h.Made {
				fn += ".func1"
			}
			if h.Recv != "" {
				recv := h.RecvType()
				if h.Recv == "*" {
					recv = "(*" + recv + ")"
				}
				fn = strings.TrimSuffix(fn, h.Name) + recv + "." + h.FuncName() + "-fm"
			}
			p.mark = append(p.mark, mark{line, Route{Method: h.Method, Path: h.Path, Func: fn}})
		}
		f.funcs = append(f.funcs, p)
	}
	for i := range s.Helpers {
		if !s.Helpers[i].Drop {
			emit(&s.Helpers[i])
		}
	}
	inline := map[string][]*Func{}
	for i := range s.Handlers {
		h := &s.Handlers[i]
		if h.Drop {
			continue
		}
		if h.Inline != "" {
			inline[h.Inline] = append(inline[h.Inline], h)
			continue
		}
		emit(h)
	}
	mf := re.file(0, 0)
	mf.imports["github.com/gin-gonic/gin"] = true
	for _, encl := range []string{"setup", "(*server).routes", "group.register", "main"} {
		var lines []string
		p := pending{}
		if recv, name, ok := strings.Cut(encl, "."); ok {
			if len(inline[encl]) == 0 {
				continue
			}
			recv = strings.Trim(recv, "()")
			mf.decls = append(mf.decls, fmt.Sprintf("type %s struct{}\n", strings.Trim(recv, "*")))
			lines = append(lines, fmt.Sprintf("func (s %s) %s(r *gin.Engine) {", recv, name))
		} else if encl == "main" {
			lines = append(lines, "func main() {", "\tr := gin.New()", "\tsetup(r)")
			if len(inline["(*server).routes"]) > 0 {
				lines = append(lines, "\t(&server{}).routes(r)")
			}
			if len(inline["group.register"]) > 0 {
				lines = append(lines, "\tgroup{}.register(r)")
			}
		} else {
			lines = append(lines, "func setup(r *gin.Engine) {")
		}
		for k, h := range inline[encl] {
			lines = append(lines, fmt.Sprintf("\tr.Handle(%q, %q, func(%s) {", h.Method, h.Path, h.ctx()))
			p.mark = append(p.mark, mark{strings.Count(strings.Join(lines, "\n"), "\n"), Route{Method: h.Method, Path: h.Path, Func: fmt.Sprintf("main.%s.func%d", encl, k+1)}})
			lines = append(lines, re.stmts(mf, h.Body, "\t\t", h.Ctx)...)
			lines = append(lines, "\t})")
		}
		for i := range s.Handlers {
			h := &s.Handlers[i]
			if !h.Drop && h.Inline == "" && encl == "setup" {
				call := ""
				if h.Made {
					call = "()"
				}
				fn := re.qual(mf, h.Pkg, h.Name)
				switch h.Recv {
				case "*", "&":
					fn = "(&" + re.qual(mf, h.Pkg, h.RecvType()) + "{})." + h.FuncName()
				case "=":
					fn = re.qual(mf, h.Pkg, h.RecvType()) + "{}." + h.FuncName()
				}
				for _, w := range h.Ways() {
					lines = append(lines, fmt.Sprintf("\tr.Handle(%q, %q, %s%s)", w.Method, w.Path, fn, call))
				}
			}
		}
		lines = append(lines, "}")
		p.text = strings.Join(lines, "\n") + "\n"
		mf.funcs = append(mf.funcs, p)
	}
	out := Rendered{Files: map[string]string{}}
	out.Files["go.mod"] = s.GoMod
	if s.Embed {
		out.Files["assets.go"] = "package main\n\nimport _ \"embed\"\n\n//go:embed page.html\nvar page string\n"
		out.Files["page.html"] = "<html>package main</html>\n"
	}
	switch s.Odd {
	case 1:
		out.Files["tool.go/README.md"] = "A directory.\n"
	case 2:
		out.Files["_draft.go"] = "package draft\n\nfunc {\n"
	}
	routes := map[string]Route{}
	var names []string
	for n := range re.files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := re.files[n]
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n", s.Pkgs[f.pkg].Name)
		if len(f.imports) > 0 {
			var imps []string
			for i := range f.imports {
				imps = append(imps, i)
			}
			sort.Strings(imps)
			b.WriteString("\nimport (\n")
			for _, i := range imps {
				if i[0] == 'P' {
					var k int
					fmt.Sscanf(i, "P%d", &k)
					al := ""
					if a := re.alias(k); a != s.Pkgs[k].Name {
						al = a + " "
					}
					fmt.Fprintf(&b, "\t%s%q\n", al, re.pkgPath(k))
				} else {
					fmt.Fprintf(&b, "\t%q\n", i)
				}
			}
			b.WriteString(")\n")
		}
		for _, d := range f.decls {
			b.WriteString("\n" + d)
		}
		for _, p := range f.funcs {
			b.WriteString("\n")
			at := strings.Count(b.String(), "\n") + 1
			for _, m := range p.mark {
				m.route.File, m.route.Line = n, at+m.line
				if strings.HasSuffix(m.route.Func, "-fm") {
					m.route.File, m.route.Line = Generated, 1
				}
				routes[m.route.Method+" "+m.route.Path] = m.route
			}
			b.WriteString(p.text)
		}
		out.Files[n] = b.String()
	}
	for i := range s.Handlers {
		if h := &s.Handlers[i]; !h.Drop {
			rt := routes[h.Method+" "+h.Path]
			rt.Handler = i
			for _, w := range h.Ways() {
				rt.Method, rt.Path = w.Method, w.Path
				out.Routes = append(out.Routes, rt)
			}
		}
	}
	for _, e := range s.Extra {
		out.Files[e] = "extra file " + e + "\n"
	}
	if s.MainTest {
		out.Files["main_test.go"] = "package main\n\nimport \"testing\"\n\nfunc TestNothing(t *testing.T) {}\n"
	}
	if s.Up != "" { // what isn't the main package is further up
		up := strings.Repeat("../", 1+strings.Count(s.Up, "/"))
		files := map[string]string{}
		for n, text := range out.Files {
			if n == "go.mod" || n == "go.sum" || strings.Contains(n, "/") && !strings.HasPrefix(n, "tool.go/") {
				n = up + n
			}
			files[n] = text
		}
		out.Files = files
		for i, rt := range out.Routes {
			if strings.Contains(rt.File, "/") {
				out.Routes[i].File = up + rt.File
			}
		}
	}
	return out
}
