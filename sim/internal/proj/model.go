package proj

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// Mark gives every struct type a field that no other has. Plain types are wholly in any JSON document.
func (s *Spec) Mark(r *Rng, base int, plain bool) {
	s.Marked = "wild"
	if plain {
		s.Marked = "plain"
	}
	embedded := map[int]bool{}
	for i := range s.Types {
		for _, f := range s.Types[i].Fields {
			if f.Embed {
				embedded[f.Type.T] = true
			}
		}
	}
	taken := map[string]bool{}
	for i := range s.Types {
		taken[fmt.Sprint(s.Types[i].Pkg, s.Types[i].Name)] = true
	}
	for i := range s.Types {
		t := &s.Types[i]
		if k := fmt.Sprint(t.Pkg, "Pet"); !embedded[i] && !taken[k] && r.P(1, 2) {
			taken[k] = true
			t.Name = "Pet"
		}
		if t.Kind != "struct" {
			continue
		}
		f := Field{Name: fmt.Sprint("Mk", base+i), Type: Ref{K: "basic", N: "string"}}
		if plain {
			for j := range t.Fields {
				if !t.Fields[j].Embed {
					t.Fields[j].Tag = r.Pick("", fmt.Sprintf("json:%q", strings.ToLower(t.Fields[j].Name)))
				}
			}
			f.Tag = r.Pick("", fmt.Sprintf("json:%q", strings.ToLower(f.Name)))
		} else if r.P(2, 3) {
			var tags []string
			for _, k := range []string{"json", "form", "xml", "yaml", "header", "uri"} {
				if r.P(1, 2) {
					tags = append(tags, fmt.Sprintf("%s:%q", k, strings.ToLower(f.Name)+r.Pick("", "", "_"+k[:1])))
				}
			}
			f.Tag = strings.Join(tags, " ")
		}
		at := r.N(len(t.Fields) + 1)
		t.Fields = append(t.Fields[:at:at], append([]Field{f}, t.Fields[at:]...)...)
	}
}

func markOf(t *Type) int {
	for _, f := range t.Fields {
		if strings.HasPrefix(f.Name, "Mk") && !f.Drop {
			if n, err := strconv.Atoi(f.Name[2:]); err == nil {
				return n
			}
		}
	}
	return -1
}

// Owners are the types that have the field of a mark: the struct and types defined as it.
func (s *Spec) Owners(mark int) []int {
	var out []int
	for i := range s.Types {
		if !s.Types[i].Drop && s.structOf(i, 0) >= 0 && markOf(&s.Types[s.structOf(i, 0)]) == mark {
			out = append(out, i)
		}
	}
	return out
}

// structOf is the struct that a type is, by way of definitions and aliases.
func (s *Spec) structOf(i, depth int) int {
	if i >= len(s.Types) || s.Types[i].Drop || depth > len(s.Types) {
		return -1
	}
	switch t := &s.Types[i]; t.Kind {
	case "struct":
		return i
	case "def", "alias":
		if t.Under.K == "named" {
			return s.structOf(t.Under.T, depth+1)
		}
	}
	return -1
}

func (s *Spec) collect(r Ref, out map[int]bool, seen map[int]bool) {
	switch r.K {
	case "named", "inst":
		if r.K == "inst" && r.E != nil {
			s.collect(*r.E, out, seen)
		}
		if r.T >= len(s.Types) || s.Types[r.T].Drop {
			return
		}
		t := &s.Types[r.T]
		if t.Kind == "struct" {
			out[markOf(t)] = true
			return
		}
		if seen[r.T] {
			return
		}
		seen[r.T] = true
		// the instances of a generic type share a component
		if t.Kind == "generic" {
			for _, arg := range s.instances(r.T) {
				s.collect(arg, out, seen)
			}
		}
		if i := s.structOf(r.T, 0); i >= 0 {
			out[markOf(&s.Types[i])] = true
		}
		s.collect(t.Under, out, seen)
		for _, f := range t.Fields {
			if !f.Drop {
				s.collect(f.Type, out, seen)
			}
		}
	default:
		if r.E != nil {
			s.collect(*r.E, out, seen)
		}
	}
}

// instances are the arguments that a generic type has anywhere in the project.
func (s *Spec) instances(i int) []Ref {
	var out []Ref
	var in func(r Ref)
	in = func(r Ref) {
		if r.E == nil {
			return
		}
		if r.K == "inst" && r.T == i {
			out = append(out, *r.E)
		}
		in(*r.E)
	}
	for _, t := range s.Types {
		in(t.Under)
		for _, f := range t.Fields {
			in(f.Type)
		}
	}
	for _, fs := range [][]Func{s.Handlers, s.Helpers} {
		for _, f := range fs {
			for _, st := range f.Body {
				in(st.Type)
			}
		}
	}
	return out
}

// Direct are the marks of the structs that the fields of a type lead to first.
func (s *Spec) Direct(i int) map[int]bool {
	out := map[int]bool{}
	i = s.structOf(i, 0)
	if i < 0 {
		return out
	}
	for _, f := range s.Types[i].Fields {
		if !f.Drop {
			s.collect(f.Type, out, map[int]bool{})
		}
	}
	return out
}

func (s *Spec) statements(h int, f func(st *Stmt)) {
	seen := map[int]bool{}
	var walk func(body []Stmt)
	walk = func(body []Stmt) {
		for i := range body {
			st := &body[i]
			if st.Drop {
				continue
			}
			if st.K == "helper" {
				if st.H < len(s.Helpers) && !s.Helpers[st.H].Drop && !seen[st.H] {
					seen[st.H] = true
					walk(s.Helpers[st.H].Body)
				}
				continue
			}
			f(st)
		}
	}
	walk(s.Handlers[h].Body)
}

// Used are the marks of the structs that the statements of a handler lead to first.
func (s *Spec) Used(h int) map[int]bool {
	out := map[int]bool{}
	s.statements(h, func(st *Stmt) {
		s.collect(st.Type, out, map[int]bool{})
		// the fields of a bound query become parameters
		if st.Type.K == "named" && s.structOf(st.Type.T, 0) >= 0 {
			s.promoted(st.Type.T, out, map[int]bool{})
		}
	})
	return out
}

// promoted adds what the fields of a type lead to first, also the ones of the types it embeds.
func (s *Spec) promoted(i int, out, seen map[int]bool) {
	i = s.structOf(i, 0)
	if i < 0 || seen[i] {
		return
	}
	seen[i] = true
	for m := range s.Direct(i) {
		out[m] = true
	}
	for _, f := range s.Types[i].Fields {
		if f.Drop || !f.Embed {
			continue
		}
		r := f.Type
		for r.K != "named" && r.K != "inst" && r.E != nil {
			r = *r.E
		}
		if r.K == "named" {
			s.promoted(r.T, out, seen)
		}
	}
}

// Type keys: how a type is written in the field of a route.

const mainName = "main"

func (s *Spec) typePath(pkg int) string {
	if pkg == 0 {
		return mainName
	}
	return s.PkgPath(pkg)
}

// key is the type, the package, and for containers the element of a type; "" for types that have no description.
func (s *Spec) key(r Ref) (typ, pkg string) {
	switch r.K {
	case "named", "inst":
		if r.T >= len(s.Types) || s.Types[r.T].Drop || r.K == "inst" && s.Types[r.T].Kind != "generic" {
			return "string", ""
		}
		t := &s.Types[r.T]
		if t.Kind == "alias" {
			return s.key(t.Under)
		}
		return t.Name, s.typePath(t.Pkg)
	case "ptr":
		return s.key(*r.E)
	case "slice":
		return "slice", ""
	case "array":
		return "array", ""
	case "map":
		return "map", ""
	case "bytes":
		return "slice", ""
	case "time":
		return "Time", "time"
	case "duration":
		return "Duration", "time"
	case "uuid":
		return "UUID", "github.com/google/uuid"
	case "raw":
		return "RawMessage", "encoding/json"
	case "ginH":
		return "H", "github.com/gin-gonic/gin"
	case "any", "iface":
		return "any", ""
	case "error":
		return "error", ""
	case "anon":
		return "struct", ""
	case "func", "chan":
		return "", ""
	}
	if r.N == "" {
		return "string", ""
	}
	return r.N, ""
}

// Key is the type of a field.
func (s *Spec) Key(r Ref) string {
	for r.K == "ptr" || r.K == "named" && r.T < len(s.Types) && !s.Types[r.T].Drop && s.Types[r.T].Kind == "alias" {
		if r.K == "ptr" {
			r = *r.E
		} else {
			r = s.Types[r.T].Under
		}
	}
	if !s.Describable(r) {
		return ""
	}
	t, p := s.key(r)
	switch r.K {
	case "slice", "array", "map":
		et, ep := s.key(*r.E)
		return t + " of " + ep + "." + et
	case "bytes":
		return "slice of .byte"
	}
	return p + "." + t
}

// Describable tells if a type can be described at all.
func (s *Spec) Describable(r Ref) bool { return s.describable(r, map[int]bool{}) }

func (s *Spec) describable(r Ref, seen map[int]bool) bool {
	switch r.K {
	case "func", "chan":
		return false
	case "named", "inst":
		if r.K == "inst" && r.E != nil && !s.describable(*r.E, seen) {
			return false
		}
		if r.T >= len(s.Types) || s.Types[r.T].Drop || seen[r.T] {
			return true
		}
		seen[r.T] = true
		t := &s.Types[r.T]
		if t.Kind == "struct" || t.Kind == "generic" { // without the fields that can't be
			return true
		}
		return t.Kind == "enum" || s.describable(t.Under, seen)
	case "anon":
		return true
	}
	return r.E == nil || s.describable(*r.E, seen)
}

func exported(n string) bool { return n != "" && n[0] >= 'A' && n[0] <= 'Z' }

// Item is something that a handler does with its context.
type Item struct {
	Kind   string // return query header body respheader
	Name   string // of a parameter
	Status string
	CType  string // content type
	Type   string // "?": unknown
	Shape  string // array map bound
	Ref    Ref
}

func (i Item) String() string {
	return strings.TrimSpace(strings.Join(strings.Fields(strings.Join([]string{i.Kind, i.Name, i.Status, i.CType, i.Shape, i.Type}, " ")), " "))
}

var codes = map[string]string{"http.StatusOK": "200", "http.StatusTeapot": "418", "http.StatusInternalServerError": "500"}

var ctypes = map[string]string{"JSON": "application/json", "XML": "application/xml", "YAML": "application/yaml", "ProtoBuf": "application/protobuf", "AbortWithStatusJSON": "application/json"}

// Items are what the handler does, in the functions that it calls as well.
func (s *Spec) Items(h int, helper0 bool) []Item {
	var out []Item
	seen := map[int]bool{}
	var walk func(body []Stmt)
	walk = func(body []Stmt) {
		for i := range body {
			st := &body[i]
			if st.Drop {
				continue
			}
			if (st.Src == "unset" || st.Src == "field") && (st.Status != "" || st.Name != "") {
				continue // only a run can tell
			}
			var it Item
			status := func() {
				it.Kind, it.Status = "return", st.Status
				if c, ok := codes[st.Status]; ok {
					it.Status = c
				}
				if st.C > 0 && st.C <= len(s.Consts) && !s.Consts[st.C-1].Drop && s.Consts[st.C-1].Val[0] != '"' {
					it.Status = s.Consts[st.C-1].Val
				}
			}
			name := func() {
				it.Name = st.Name
				if st.C > 0 && st.C <= len(s.Consts) && !s.Consts[st.C-1].Drop && s.Consts[st.C-1].Val[0] == '"' {
					it.Name = strings.Trim(s.Consts[st.C-1].Val, `"`)
				}
			}
			bound := func(kind, ctype string) {
				it = Item{Kind: kind, CType: ctype, Shape: "bound", Type: s.Key(st.Type), Ref: st.Type}
				if it.Type != "" {
					out = append(out, it)
				}
			}
			switch st.K {
			case "helper":
				if st.H < len(s.Helpers) && !s.Helpers[st.H].Drop && !seen[st.H] {
					if st.H == 0 && helper0 {
						out = append(out, Item{Kind: "return", Status: "299", CType: "text/plain", Type: ".string", Ref: Ref{K: "basic", N: "string"}})
						continue
					}
					seen[st.H] = true
					walk(s.Helpers[st.H].Body)
				}
				continue
			case "JSON", "XML", "YAML", "ProtoBuf", "AbortWithStatusJSON":
				status()
				it.CType, it.Type, it.Ref = ctypes[st.K], s.Key(st.Type), st.Type
				if it.Type == "" {
					continue
				}
			case "String":
				status()
				it.CType, it.Type, it.Ref = "text/plain", ".string", Ref{K: "basic", N: "string"}
			case "Status", "AbortWithStatus", "AbortWithError":
				status()
				it.Type = ".nil"
			case "Data":
				status()
				it.Type, it.Ref = "slice of .byte", Ref{K: "bytes"}
			case "Query", "GetQuery":
				name()
				it.Kind, it.Type = "query", ".string"
			case "QueryArray", "GetQueryArray":
				name()
				it.Kind, it.Shape, it.Type = "query", "array", ".string"
			case "QueryMap", "GetQueryMap":
				name()
				it.Kind, it.Shape, it.Type = "query", "map", ".string"
			case "PostForm", "GetPostForm":
				name()
				it.Kind, it.CType, it.Type = "body", "application/x-www-form-urlencoded", ".string"
			case "PostFormArray", "GetPostFormArray":
				name()
				it.Kind, it.CType, it.Shape, it.Type = "body", "application/x-www-form-urlencoded", "array", ".string"
			case "PostFormMap", "GetPostFormMap":
				name()
				it.Kind, it.CType, it.Shape, it.Type = "body", "application/x-www-form-urlencoded", "map", ".string"
			case "FormFile":
				name()
				it.Kind, it.CType, it.Type = "body", "multipart/form-data", ".file"
			case "GetHeader":
				name()
				it.Kind, it.Type = "header", ".string"
			case "Header":
				name()
				it.Kind, it.Type = "respheader", ".string"
			case "ShouldBindQuery", "BindQuery":
				bound("query", "")
				continue
			case "ShouldBindHeader", "BindHeader":
				bound("header", "")
				continue
			case "ShouldBindJSON", "BindJSON":
				bound("body", "application/json")
				continue
			case "ShouldBindXML", "BindXML":
				bound("body", "application/xml")
				continue
			case "ShouldBindYAML", "BindYAML":
				bound("body", "application/yaml")
				continue
			case "ShouldBind", "Bind":
				bound("path", "")
				bound("query", "")
				bound("header", "")
				for _, ct := range []string{"application/x-www-form-urlencoded", "multipart/form-data", "application/json", "application/xml", "application/yaml"} {
					bound("body", ct)
				}
				continue
			default:
				continue
			}
			out = append(out, it)
		}
	}
	walk(s.Handlers[h].Body)
	return out
}

// --- types ---

// Tag is the name of a field in a format.
type Tag struct {
	Name     string
	Hidden   bool
	Optional bool
}

// FieldModel is what is known of an exported field.
type FieldModel struct {
	Name, Key, Doc string
	Type           Ref
	Tags           map[string]Tag // of the formats that the field has a tag for; "": the name of the field, if it has none
	Embed          bool
	Valid          map[string]bool // the tags for validation; true: the field is required
}

// TypeModel is what is known of a declared type.
type TypeModel struct {
	Type   int
	Key    string
	Shape  string // struct, or the key of what the type is
	Fields []FieldModel
	Enum   []string
	Loose  bool // the values of the enum, or the fields, aren't known
	Doc    string
}

var formats = []string{"header", "form", "uri", "json", "xml", "yaml"}

func tags(name, tag string) map[string]Tag {
	out := map[string]Tag{}
	for _, f := range formats {
		v, ok := reflect.StructTag(tag).Lookup(f)
		if !ok {
			continue
		}
		l := strings.Split(v, ",")
		n, opt := l[0], len(l) > 1 && l[1] == "omitempty"
		switch n {
		case "":
			n = name
		case "-":
			if v != "-" { // "-," is the name -
				break
			}
			out[f] = Tag{Hidden: true, Optional: opt}
			continue
		}
		out[f] = Tag{Name: n, Optional: opt}
	}
	if len(out) == 0 {
		out[""] = Tag{Name: name}
	}
	return out
}

// valid are the tags for validation.
func valid(tag string) map[string]bool {
	out := map[string]bool{}
	for _, k := range []string{"binding", "validate"} {
		if v := reflect.StructTag(tag).Get(k); v != "" {
			out[k] = strings.Contains(v, "required")
		}
	}
	return out
}

// Resolve follows pointers and aliases.
func (s *Spec) Resolve(r Ref) Ref {
	for {
		switch {
		case r.K == "ptr":
			r = *r.E
		case r.K == "named" && (r.T >= len(s.Types) || s.Types[r.T].Drop):
			r = Ref{K: "basic", N: "string"}
		case r.K == "named" && s.Types[r.T].Kind == "alias":
			r = s.Types[r.T].Under
		default:
			return r
		}
	}
}

// Fields of a struct; its exported ones.
func (s *Spec) fields(t *Type) []FieldModel {
	var out []FieldModel
	for i := range t.Fields {
		f := &t.Fields[i]
		if f.Drop {
			continue
		}
		if f.Embed {
			if f.Type.K == "named" && f.Type.T < len(s.Types) && !s.Types[f.Type.T].Drop && s.Describable(f.Type) {
				out = append(out, FieldModel{Name: s.Types[f.Type.T].Name, Key: s.Key(f.Type), Doc: f.Doc, Type: f.Type, Tags: tags(s.Types[f.Type.T].Name, f.Tag), Embed: true, Valid: valid(f.Tag)})
			}
			continue
		}
		for _, n := range []string{f.Name, f.Also} {
			if exported(n) && s.Describable(f.Type) {
				out = append(out, FieldModel{Name: n, Key: s.Key(f.Type), Doc: f.Doc, Type: f.Type, Tags: tags(n, f.Tag), Valid: valid(f.Tag)})
			}
		}
	}
	return out
}

// TypeModel is what is known of a type.
func (s *Spec) TypeModel(i int) *TypeModel {
	t := &s.Types[i]
	m := &TypeModel{Type: i, Key: s.typePath(t.Pkg) + "." + t.Name, Doc: t.Doc}
	if m.Doc == "" && s.Groups == 2 && t.Group && t.Kind != "enum" {
		m.Doc = "What is declared here."
	}
	switch t.Kind {
	case "struct":
		m.Shape = "struct"
		m.Fields = s.fields(t)
	case "enum":
		m.Shape = "." + t.Under.N
		for j, c := range t.Consts {
			if c == "iota" { // the position in the group
				if t.Spread > 0 {
					j = 0
				}
				c = fmt.Sprint(j)
			}
			switch c {
			case "1 << 3":
				c = "8"
			case "0x1F":
				c = "31"
			case "'a'":
				c = "97"
			}
			m.Enum = append(m.Enum, strings.Trim(c, `"`))
		}
	case "def":
		u := s.Resolve(t.Under)
		for u.K == "named" && s.Types[u.T].Kind == "def" {
			u = s.Resolve(s.Types[u.T].Under)
		}
		switch {
		case u.K == "named" && s.Types[u.T].Kind == "struct":
			m.Shape = "struct"
			m.Fields = s.fields(&s.Types[u.T])
		case u.K == "named" && s.Types[u.T].Kind == "enum":
			m.Shape = s.Key(s.Types[u.T].Under)
		case u.K == "basic", u.K == "slice", u.K == "array", u.K == "map":
			m.Shape = s.Key(u)
		default:
			m.Loose = true
		}
	default:
		m.Loose = true
	}
	return m
}

// Reached are the declared types that a described type is made of.
func (s *Spec) Reached(r Ref, seen map[int]bool) {
	r = s.Resolve(r)
	switch r.K {
	case "named":
		if seen[r.T] {
			return
		}
		seen[r.T] = true
		t := &s.Types[r.T]
		switch t.Kind {
		case "struct":
			for _, f := range s.fields(t) {
				s.Reached(f.Type, seen)
			}
		case "def":
			u := s.Resolve(t.Under)
			for u.K == "named" { // the names in between aren't seen
				v := &s.Types[u.T]
				if v.Kind == "struct" {
					for _, f := range s.fields(v) {
						s.Reached(f.Type, seen)
					}
					return
				}
				if v.Kind != "def" {
					return
				}
				u = s.Resolve(v.Under)
			}
			s.Reached(u, seen)
		}
	case "slice", "array", "map":
		s.Reached(*r.E, seen)
	}
}

// TagIn is the name of a field in a format.
func (f *FieldModel) TagIn(format string) (Tag, bool) {
	if t, ok := f.Tags[format]; ok {
		return t, true
	}
	t, ok := f.Tags[""]
	return t, ok
}

// Names are the names of the fields of a struct in a format, with those that are embedded; sure: the struct can be
// described in it.
func (s *Spec) Names(r Ref, format string) (names map[string]bool, sure bool) {
	names = map[string]bool{}
	r = s.Resolve(r)
	if r.K != "named" {
		return names, false
	}
	m := s.TypeModel(r.T)
	if m.Shape != "struct" || m.Loose || !s.InFormat(m, format) {
		return names, false
	}
	for i := range m.Fields {
		f := &m.Fields[i]
		if f.Embed {
			n, ok := s.Names(f.Type, format)
			if !ok {
				return names, false
			}
			for k := range n {
				names[k] = true
			}
			continue
		}
		t, _ := f.TagIn(format)
		if t.Hidden {
			continue
		}
		if s.Resolve(f.Type).K == "anon" {
			return names, false
		}
		names[t.Name] = true
	}
	return names, true
}

// InFormat tells if every field of a struct has a name in a format, as only then the struct has a schema for it.
func (s *Spec) InFormat(m *TypeModel, format string) bool {
	for i := range m.Fields {
		if _, ok := m.Fields[i].TagIn(format); !ok && !m.Fields[i].Embed {
			return false
		}
	}
	return true
}

// Plainly tells if a type surely has a schema in a format.
func (s *Spec) Plainly(r Ref, format string) bool {
	r = s.Resolve(r)
	switch r.K {
	case "basic", "slice", "array", "map", "bytes":
		return true
	case "named":
		m := s.TypeModel(r.T)
		if m.Loose || format == "" {
			return false
		}
		if m.Shape == "struct" {
			_, ok := s.Names(r, format)
			return ok
		}
		return true
	}
	return false
}

// HandlerDoc is the comment of a handler.
func (s *Spec) HandlerDoc(h int) string {
	if f := &s.Handlers[h]; f.Inline == "" && !f.Made {
		return f.Doc
	}
	return ""
}

// Base is what a type is defined as; K is "" if that isn't known.
func (s *Spec) Base(r Ref) Ref {
	r = s.Resolve(r)
	for r.K == "named" {
		t := &s.Types[r.T]
		if t.Kind != "def" && t.Kind != "enum" {
			return Ref{}
		}
		r = s.Resolve(t.Under)
	}
	switch r.K {
	case "basic", "slice", "array", "map":
		return r
	}
	return Ref{}
}

// OperationID is the identifier of the operation of a handler.
func (s *Spec) OperationID(h int) string {
	if f := &s.Handlers[h]; f.Inline == "" && !f.Made {
		n := f.FuncName()
		return strings.ToLower(n[:1]) + n[1:]
	}
	return ""
}
