package sim

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"

	"github.com/ls6-events/astra"

	"verifsim/internal/proj"
	"verifsim/internal/vfs"
)

// C17: what the handlers do, known from the generated project, is in the routes.

func init() {
	register(&Property{ID: "C15", Make: makeC15, Run: runC15})
	register(&Property{ID: "C17", Make: makeC17, Run: runC17})
}

func makeC17(e *Env, r *Rng, c *Case) {
	makeInv(e, r, c, invOpt{faults: true, edits: true, late: true, spec: func(r *Rng) *proj.Spec {
		s := proj.Generate(r, proj.Size{Pkgs: 1 + r.N(5), Types: 2 + r.N(7), Handlers: 1 + r.N(5), Stmts: 1 + r.N(6), Rec: r.P(1, 4)})
		return s
	}})
}

// outField is a field in the JSON output.
type outField struct {
	Package, ElemPackage, Type, Name                                   string
	SliceType, ArrayType, MapKeyType, MapValueType, MapKeyPackage, Doc string
	ArrayLength                                                        int64
	IsEmbedded                                                         bool
	EnumValues                                                         []any
	StructFields                                                       map[string]outField
	StructFieldBindingTags                                             map[string]struct {
		Name     string
		NotShown bool `json:"not_shown"`
		Optional bool `json:"return_optional"`
	}
	StructFieldValidationTags map[string]struct {
		IsRequired bool `json:"is_required"`
	}
}

func (f outField) key() string {
	elem := func(t string) string {
		if f.ElemPackage != "" && t[0] >= 'A' && t[0] <= 'Z' {
			return f.ElemPackage + "." + t
		}
		if t != "" && (t[0] < 'A' || t[0] > 'Z') { // whose package, if any, is that of the user
			return "." + t
		}
		return f.Package + "." + t
	}
	switch f.Type {
	case "slice":
		return "slice of " + elem(f.SliceType)
	case "array":
		return "array of " + elem(f.ArrayType)
	case "map":
		return "map of " + elem(f.MapValueType)
	}
	return elem(f.Type)
}

// sizes compares the length of an array and the keys of a map.
func (f *outField) sizes(r proj.Ref) string {
	switch {
	case r.K == "array" && f.Type == "array" && f.ArrayLength != int64(r.L):
		return fmt.Sprintf("%d elements, not %d", f.ArrayLength, r.L)
	case r.K == "map" && f.Type == "map" && f.MapKeyType != r.N:
		return fmt.Sprintf("keys of the type %q, not %q", f.MapKeyType, r.N)
	}
	return ""
}

type outParam struct {
	Name, ContentType                   string
	Type                                outField
	IsRequired, IsArray, IsMap, IsBound bool
}

type outRoute struct {
	Handler, File, Method, Path, Doc, OperationId string
	LineNo                                        int
	Params, QueryParams, Body                     []outParam
	RequestHeaders, ResponseHeaders               []outParam
	ReturnTypes                                   []struct {
		StatusCode  int
		ContentType string
		Field       outField
	}
}

type outDoc struct {
	Routes     []outRoute
	Components []outField
}

func (r *outRoute) items() []string {
	var out []string
	add := func(kind string, l []outParam) {
		for _, p := range l {
			it := proj.Item{Kind: kind, Name: p.Name, CType: p.ContentType, Type: p.Type.key()}
			switch {
			case p.IsArray:
				it.Shape = "array"
			case p.IsMap:
				it.Shape = "map"
			case p.IsBound:
				it.Shape = "bound"
			}
			if kind == "path" && !p.IsBound {
				continue // C14
			}
			out = append(out, it.String())
		}
	}
	add("path", r.Params)
	add("query", r.QueryParams)
	add("body", r.Body)
	add("header", r.RequestHeaders)
	add("respheader", r.ResponseHeaders)
	for _, t := range r.ReturnTypes {
		out = append(out, proj.Item{Kind: "return", Status: fmt.Sprint(t.StatusCode), CType: t.ContentType, Type: t.Field.key()}.String())
	}
	return out
}

func uniq(l []string) []string {
	sort.Strings(l)
	var out []string
	for i, s := range l {
		if i == 0 || s != l[i-1] {
			out = append(out, s)
		}
	}
	return out
}

func dumpSources(sv *Svc) {
	if os.Getenv("DUMP") == "" {
		return
	}
	for n, t := range sv.Rend().Files {
		if strings.HasSuffix(n, ".go") {
			fmt.Println("--", n)
			fmt.Println(t)
		}
	}
}

func runC17(e *Env, c *Case) {
	runInv(e, c, func(sv *Svc, fs *vfs.FS, known int, when string) {
		for _, o := range sv.Outputs {
			p := sv.OutPath(o)
			switch o.Mode {
			case "json":
				d, _ := get(fs, p)
				var doc outDoc
				if err := json.Unmarshal([]byte(d), &doc); err != nil {
					violate(c, "unreadable", "%s succeeds, but %s: %v", when, p, err)
				}
				got := map[string]*outRoute{}
				for i := range doc.Routes {
					got[doc.Routes[i].Method+" "+doc.Routes[i].Path] = &doc.Routes[i]
				}
				for i, rt := range sv.Rend().Routes {
					g := got[rt.Method+" "+rt.Path]
					if i >= known || sv.denied(rt.Path) || g == nil { // C14
						continue
					}
					var want []string
					for _, it := range sv.Spec.Items(rt.Handler, sv.Custom) {
						want = append(want, it.String())
					}
					want = uniq(want)
					e.Probe(fmt.Sprintf("handlers with %d+ uses", len(want)/3*3))
					if m := multi(uniq(g.items()), want, "uses of the context"); m != "" {
						dumpSources(sv)
						violate(c, "uses", "%s succeeds, but in %s %s %s (%s) has %s", when, p, rt.Method, rt.Path, rt.Func, m)
					}
					if w := sv.Spec.OperationID(rt.Handler); g.OperationId != w {
						violate(c, "operation", "%s succeeds, but in %s %s %s (%s) has the operation ID %q, not %q", when, p, rt.Method, rt.Path, rt.Func, g.OperationId, w)
					}
					if w := sv.Spec.HandlerDoc(rt.Handler); norm(g.Doc) != norm(w) {
						dumpSources(sv)
						violate(c, "doc", "%s succeeds, but in %s %s %s (%s) is described by %q, not by its comment %q", when, p, rt.Method, rt.Path, rt.Func, g.Doc, w)
					}
				}
			case "openapi":
				doc, err := openapiDoc(fs, p)
				if err != nil {
					violate(c, "unreadable", "%s succeeds, but %s: %v", when, p, err)
				}
				for i, rt := range sv.Rend().Routes {
					op := operation(doc, rt)
					if i >= known || sv.denied(rt.Path) || op == nil { // C14
						continue
					}
					if m := operationUses(sv, op, sv.Spec.Items(rt.Handler, sv.Custom)); m != "" {
						dumpSources(sv)
						d, _ := get(fs, p)
						if os.Getenv("DUMP") != "" {
							fmt.Println(d)
						}
						violate(c, "operation", "%s succeeds, but in %s %s %s (%s) %s", when, p, rt.Method, rt.Path, rt.Func, m)
					}
					if g, w := str(op["operationId"]), sv.Spec.OperationID(rt.Handler); g != w {
						violate(c, "operation", "%s succeeds, but in %s %s %s (%s) has the operation ID %q, not %q", when, p, rt.Method, rt.Path, rt.Func, g, w)
					}
					if g, w := str(op["description"]), sv.Spec.HandlerDoc(rt.Handler); norm(g) != norm(w) {
						violate(c, "doc", "%s succeeds, but in %s %s %s (%s) is described by %q, not by its comment %q", when, p, rt.Method, rt.Path, rt.Func, g, w)
					}
				}
			}
		}
	}, false)
}

// norm leaves out how a comment is broken into lines.
func norm(d string) string { return strings.Join(strings.Fields(d), " ") }

func str(x any) string { s, _ := x.(string); return s }

func obj(x any) map[string]any { m, _ := x.(map[string]any); return m }

func list(x any) []any { l, _ := x.([]any); return l }

// shape of the schema of a parameter.
func shape(x any) string {
	m := obj(x)
	switch {
	case m["type"] == "array":
		return "array"
	case m["type"] == "object" && m["additionalProperties"] != nil:
		return "map"
	}
	return str(m["type"])
}

// operationUses compares an operation of an OpenAPI document with what the handler does.
func operationUses(sv *Svc, op map[string]any, items []proj.Item) string {
	// parameters
	bound := map[string][]proj.Item{}
	want := map[string]map[string]map[string]bool{"query": {}, "header": {}}
	for _, it := range items {
		switch {
		case want[it.Kind] == nil:
		case it.Shape == "bound":
			bound[it.Kind] = append(bound[it.Kind], it)
		default:
			sh := it.Shape
			if sh == "" {
				sh = "string"
			}
			if want[it.Kind][it.Name] == nil {
				want[it.Kind][it.Name] = map[string]bool{}
			}
			want[it.Kind][it.Name][sh] = true
		}
	}
	got := map[string]map[string]string{"query": {}, "header": {}}
	seen := map[string]bool{}
	for _, x := range list(op["parameters"]) {
		m := obj(x)
		in, n := str(m["in"]), str(m["name"])
		if n == "" {
			return fmt.Sprintf("has a %s parameter without a name", in)
		}
		if seen[in+" "+n] {
			return fmt.Sprintf("has the %s parameter %q twice", in, n)
		}
		seen[in+" "+n] = true
		if got[in] != nil {
			got[in][n] = shape(m["schema"])
		}
	}
	for in, format := range map[string]string{"query": "form", "header": "header"} {
		may := map[string]bool{}
		loose := false
		for _, b := range bound[in] {
			names, sure := sv.Spec.Names(b.Ref, format)
			if !sure || sv.mayMap(b.Ref) {
				loose = true
				continue
			}
			for n := range names {
				may[n] = true
				if _, ok := got[in][n]; !ok {
					return fmt.Sprintf("lacks the %s parameter %q of the type %s that it is bound to", in, n, b.Type)
				}
			}
		}
		for n, sh := range want[in] {
			g, ok := got[in][n]
			if !ok {
				return fmt.Sprintf("lacks the %s parameter %q", in, n)
			}
			if !sh[g] && !may[n] && !loose && sv.Types["string"].Type == "" {
				return fmt.Sprintf("has the %s parameter %q as %q", in, n, g)
			}
		}
		for n := range got[in] {
			if want[in][n] == nil && !may[n] && !loose {
				return fmt.Sprintf("has a %s parameter %q that the handler doesn't use", in, n)
			}
		}
	}
	// the body
	content := obj(obj(op["requestBody"])["content"])
	okType := map[string]bool{}
	for _, it := range items {
		if it.Kind != "body" {
			continue
		}
		okType[it.CType] = true
		if it.Shape == "bound" {
			if _, sure := sv.Spec.Names(it.Ref, astraTag(it.CType)); sure && !sv.mayMap(it.Ref) && content[it.CType] == nil {
				return fmt.Sprintf("lacks a body of %s, of the type %s", it.CType, it.Type)
			}
			continue
		}
		props := map[string]any{}
		var all func(x any)
		all = func(x any) {
			for k, v := range obj(obj(x)["properties"]) {
				props[k] = v
			}
			for _, y := range list(obj(x)["allOf"]) {
				all(y)
			}
		}
		all(obj(content[it.CType])["schema"])
		if props[it.Name] == nil {
			return fmt.Sprintf("lacks %q in its body of %s", it.Name, it.CType)
		}
		sh := it.Shape
		if sh == "" {
			sh = "string"
		}
		unique := true
		for _, o := range items {
			unique = unique && (o.Kind != "body" || o.CType != it.CType || o.Name != it.Name || o.Shape == it.Shape)
		}
		if g := shape(props[it.Name]); g != sh && unique {
			return fmt.Sprintf("has %q in its body of %s as %q", it.Name, it.CType, g)
		}
	}
	for ct := range content {
		if !okType[ct] {
			return fmt.Sprintf("has a body of %q", ct)
		}
	}
	// the answers
	resp := obj(op["responses"])
	var gotStatus, wantStatus []string
	types := map[string]map[string]bool{}
	for _, it := range items {
		if it.Kind == "return" {
			wantStatus = append(wantStatus, it.Status)
			if types[it.Status] == nil {
				types[it.Status] = map[string]bool{}
			}
			types[it.Status][it.CType] = true
		}
	}
	for st := range resp {
		gotStatus = append(gotStatus, st)
	}
	if m := multi(uniq(gotStatus), uniq(wantStatus), "answers"); m != "" {
		return "has " + m
	}
	for st, x := range resp {
		content := obj(obj(x)["content"])
		for ct := range content {
			if !types[st][ct] {
				return fmt.Sprintf("has an answer %s of %q", st, ct)
			}
		}
		for _, it := range items {
			switch {
			case it.Kind == "respheader":
				if obj(obj(x)["headers"])[it.Name] == nil {
					return fmt.Sprintf("lacks the header %q of the answer %s", it.Name, st)
				}
			case it.Kind == "return" && it.Status == st && it.Type != ".nil" && sv.Spec.Plainly(it.Ref, astraTag(it.CType)) && content[it.CType] == nil:
				return fmt.Sprintf("lacks the answer %s of %q, of the type %s", st, it.CType, it.Type)
			}
		}
		for h := range obj(obj(x)["headers"]) {
			ok := false
			for _, it := range items {
				ok = ok || it.Kind == "respheader" && it.Name == h
			}
			if !ok {
				return fmt.Sprintf("has the header %q of the answer %s", h, st)
			}
		}
	}
	return ""
}

func astraTag(ct string) string {
	switch ct {
	case "application/json":
		return "json"
	case "application/xml":
		return "xml"
	case "application/yaml":
		return "yaml"
	case "application/x-www-form-urlencoded", "multipart/form-data":
		return "form"
	}
	return ""
}

// mayMap tells if a type, or one that it is made of, may have a mapping of its own.
func (sv *Svc) mayMap(r proj.Ref) bool { return len(sv.Types) > 0 }

// --- C15 ---

func makeC15(e *Env, r *Rng, c *Case) {
	makeInv(e, r, c, invOpt{faults: true, edits: true, late: true, spec: func(r *Rng) *proj.Spec {
		return proj.Generate(r, proj.Size{Pkgs: 1 + r.N(5), Types: 3 + r.N(9), Handlers: 2 + r.N(4), Stmts: 1 + r.N(4), Rec: r.P(1, 3)})
	}})
}

// reached are the declared types that the described handlers use.
func reached(sv *Svc, known int) map[int]bool {
	out := map[int]bool{}
	for i, rt := range sv.Rend().Routes {
		if i >= known || sv.denied(rt.Path) {
			continue
		}
		for _, it := range sv.Spec.Items(rt.Handler, sv.Custom) {
			if it.Ref.K != "" {
				sv.Spec.Reached(it.Ref, out)
			}
		}
	}
	return out
}

func runC15(e *Env, c *Case) {
	runInv(e, c, func(sv *Svc, fs *vfs.FS, known int, when string) {
		use := reached(sv, known)
		for _, o := range sv.Outputs {
			p := sv.OutPath(o)
			m := ""
			switch o.Mode {
			case "json":
				m = declared(sv, fs, p, use)
			case "openapi":
				doc, err := openapiDocExact(fs, p)
				if err != nil {
					violate(c, "unreadable", "%s succeeds, but %s: %v", when, p, err)
				}
				m = described(e, sv, doc, known)
			default:
				continue
			}
			if m != "" {
				dumpSources(sv)
				if os.Getenv("DUMP") != "" {
					d, _ := get(fs, p)
					fmt.Println(d)
				}
				violate(c, o.Mode, "%s succeeds, but in %s %s", when, p, m)
			}
			e.Probe(fmt.Sprintf("documents of %d+ declared types", len(use)/3*3))
		}
	}, false)
}

// fieldTags are the names of a field in the formats, as text.
func fieldTags(m map[string]proj.Tag) string {
	var l []string
	for f, t := range m {
		if t.Hidden {
			l = append(l, f+" hidden")
		} else {
			l = append(l, f+" "+t.Name)
		}
		if t.Optional {
			l[len(l)-1] += " optional"
		}
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

// declared compares the components of the JSON output with the declared types.
func declared(sv *Svc, fs *vfs.FS, p string, use map[int]bool) string {
	d, _ := get(fs, p)
	dec := json.NewDecoder(strings.NewReader(d))
	dec.UseNumber()
	var doc outDoc
	if err := dec.Decode(&doc); err != nil {
		return err.Error()
	}
	comps := map[string]*outField{}
	for i := range doc.Components {
		f := &doc.Components[i]
		k := f.Package + "." + f.Name
		if comps[k] != nil {
			return "the type " + k + " is described twice"
		}
		comps[k] = f
	}
	s := sv.Spec
	for i := range s.Types {
		t := &s.Types[i]
		if t.Drop || t.Kind == "alias" {
			continue
		}
		m := s.TypeModel(i)
		f := comps[m.Key]
		if f == nil {
			if use[i] {
				return "the type " + m.Key + " isn't described"
			}
			continue
		}
		if norm(f.Doc) != norm(m.Doc) {
			return fmt.Sprintf("the type %s has the description %q, not %q", m.Key, f.Doc, m.Doc)
		}
		if m.Loose {
			continue
		}
		if m.Shape != "struct" {
			if k := f.key(); k != m.Shape {
				return fmt.Sprintf("the type %s is %q, not %q", m.Key, k, m.Shape)
			}
			if d := f.sizes(s.Base(proj.Ref{K: "named", T: i})); d != "" {
				return fmt.Sprintf("the type %s has %s", m.Key, d)
			}
			var g []string
			for _, v := range f.EnumValues {
				g = append(g, fmt.Sprint(v))
			}
			if d := multi(enumNorm(g), enumNorm(m.Enum), "values"); d != "" {
				return fmt.Sprintf("the type %s has %s", m.Key, d)
			}
			continue
		}
		if f.Type != "struct" {
			return fmt.Sprintf("the type %s is %q, not a struct", m.Key, f.key())
		}
		var gn, wn []string
		for n := range f.StructFields {
			gn = append(gn, n)
		}
		for _, x := range m.Fields {
			wn = append(wn, x.Name)
		}
		sort.Strings(gn)
		sort.Strings(wn)
		if d := multi(gn, wn, "fields"); d != "" {
			return fmt.Sprintf("the type %s has %s", m.Key, d)
		}
		for _, x := range m.Fields {
			g := f.StructFields[x.Name]
			if k := g.key(); k != x.Key {
				return fmt.Sprintf("the field %s of the type %s is %q, not %q", x.Name, m.Key, k, x.Key)
			}
			if g.IsEmbedded != x.Embed {
				return fmt.Sprintf("the field %s of the type %s: embedded is %v", x.Name, m.Key, g.IsEmbedded)
			}
			if g.Doc != "" && norm(g.Doc) != norm(x.Doc) {
				return fmt.Sprintf("the field %s of the type %s has the description %q, not %q", x.Name, m.Key, g.Doc, x.Doc)
			}
			gt := map[string]proj.Tag{}
			for k, t := range g.StructFieldBindingTags {
				gt[k] = proj.Tag{Name: t.Name, Hidden: t.NotShown, Optional: t.Optional}
			}
			if a, b := fieldTags(gt), fieldTags(x.Tags); a != b {
				return fmt.Sprintf("the field %s of the type %s is named %q, not %q", x.Name, m.Key, a, b)
			}
			gv := map[string]bool{}
			for k, t := range g.StructFieldValidationTags {
				gv[k] = t.IsRequired
			}
			if a, b := fmt.Sprint(gv), fmt.Sprint(x.Valid); a != b {
				return fmt.Sprintf("the field %s of the type %s has the validations %q, not %q", x.Name, m.Key, a, b)
			}
			if d := g.sizes(s.Resolve(x.Type)); d != "" {
				return fmt.Sprintf("the field %s of the type %s has %s", x.Name, m.Key, d)
			}
		}
	}
	return ""
}

// enumNorm writes numbers alike.
func enumNorm(l []string) []string {
	var out []string
	for _, s := range l {
		if f, err := strconv.ParseFloat(s, 64); err == nil && strings.ContainsAny(s, ".eE") {
			s = strconv.FormatFloat(f, 'g', -1, 64)
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// walker compares the schemas of an OpenAPI document with the types that they should describe.
type walker struct {
	sv   *Svc
	all  map[string]any
	seen map[string]bool
	n    int
	bare bool // the formats of basic types may be missing
}

// described compares the schemas that the operations refer to with the types that the handlers use.
func described(e *Env, sv *Svc, doc map[string]any, known int) string {
	w := &walker{sv: sv, all: obj(obj(doc["components"])["schemas"]), seen: map[string]bool{}}
	for i, rt := range sv.Rend().Routes {
		op := operation(doc, rt)
		if i >= known || sv.denied(rt.Path) || op == nil {
			continue
		}
		items := sv.Spec.Items(rt.Handler, sv.Custom)
		count := map[string]map[string]bool{}
		key := func(it *proj.Item) string { return it.Kind + " " + it.Status + " " + it.CType }
		for j := range items {
			k := key(&items[j])
			if count[k] == nil {
				count[k] = map[string]bool{}
			}
			count[k][items[j].Type+items[j].Name] = true
		}
		for j := range items {
			it := &items[j]
			f := astraTag(it.CType)
			if f == "" || it.Ref.K == "" || len(count[key(it)]) > 1 {
				continue
			}
			var x any
			switch it.Kind {
			case "return":
				x = obj(obj(obj(obj(op["responses"])[it.Status])["content"])[it.CType])["schema"]
			case "body":
				x = obj(obj(obj(op["requestBody"])["content"])[it.CType])["schema"]
			}
			if x == nil {
				continue // C17
			}
			if m := w.match(x, it.Ref, f); m != "" {
				return fmt.Sprintf("%s %s, %s: %s", rt.Method, rt.Path, key(it), m)
			}
		}
	}
	e.Probe(fmt.Sprintf("documents with %d+ compared schemas", w.n/4*4))
	return ""
}

var basicType = map[string]string{"string": "string", "bool": "boolean", "float32": "number", "float64": "number", "int": "integer", "int8": "integer", "int16": "integer", "int32": "integer", "int64": "integer",
	"uint": "integer", "uint8": "integer", "uint16": "integer", "uint32": "integer", "uint64": "integer"}

// match compares a schema with a type in a format; "": they agree, as far as that is known.
func (w *walker) match(x any, r proj.Ref, format string) string {
	s := w.sv.Spec
	r = s.Resolve(r)
	m := obj(x)
	name := s.Key(r)
	switch r.K {
	case "basic", "":
		n := r.N
		if n == "" {
			n = "string"
		}
		if t := basicType[n]; t != "" && str(m["type"]) != t {
			return fmt.Sprintf("a schema of the type %q for %s", str(m["type"]), n)
		}
		want := n
		switch n {
		case "string", "bool":
			want = ""
		case "int":
			want = "int32"
		}
		if g := str(m["format"]); basicType[n] != "" && g != want && (g != "" || !w.bare) && w.sv.Types[n].Type == "" {
			return fmt.Sprintf("a schema of the format %q for %s", g, n)
		}
	case "time", "uuid", "duration":
		key, f := "time.Time", astra.TypeFormat{Type: "string", Format: "date-time"}
		switch r.K {
		case "uuid":
			key, f = "github.com/google/uuid.UUID", astra.TypeFormat{Type: "string", Format: "uuid"}
		case "duration":
			key, f = "time.Duration", astra.TypeFormat{Type: "integer", Format: "int32"}
		}
		if o, ok := w.sv.Types[key]; ok {
			f = o
		}
		d := m
		if ref := str(m["$ref"]); ref != "" {
			d = obj(w.all[strings.TrimPrefix(ref, schemaPrefix)])
			if d == nil {
				return "" // C16
			}
		}
		w.n++
		if str(d["type"]) != f.Type || str(d["format"]) != f.Format || d["enum"] != nil || d["properties"] != nil {
			return fmt.Sprintf("the schema %v for %s, not %v", d, key, f)
		}
	case "slice", "array":
		if str(m["type"]) != "array" {
			return fmt.Sprintf("a schema of the type %q for a %s", str(m["type"]), name)
		}
		if r.K == "array" {
			if n, ok := number(m["maxItems"]); !ok || n != r.L {
				return fmt.Sprintf("at most %v items in a schema for an array of %d", m["maxItems"], r.L)
			}
		}
		return w.elem(m["items"], *r.E, format, "items of a "+name)
	case "map":
		if str(m["type"]) != "object" {
			return fmt.Sprintf("a schema of the type %q for a %s", str(m["type"]), name)
		}
		return w.elem(m["additionalProperties"], *r.E, format, "values of a "+name)
	case "named":
		t := s.TypeModel(r.T)
		if t.Loose {
			return ""
		}
		ref := str(m["$ref"])
		if ref == "" {
			if !s.Plainly(r, format) {
				return ""
			}
			return fmt.Sprintf("no reference to the type %s", t.Key)
		}
		k := ref + " " + format + " " + t.Key
		if w.seen[k] {
			return ""
		}
		w.seen[k] = true
		d := w.all[strings.TrimPrefix(ref, schemaPrefix)]
		if d == nil {
			return "" // C16
		}
		if f, ok := w.sv.Types[t.Key]; ok {
			if str(obj(d)["type"]) != f.Type || str(obj(d)["format"]) != f.Format {
				return fmt.Sprintf("a schema of the type %q and the format %q for %s, which is mapped to %v", obj(d)["type"], obj(d)["format"], t.Key, f)
			}
			return ""
		}
		if strings.HasPrefix(t.Key, "main.") && len(w.sv.Types) > 0 {
			return ""
		}
		w.n++
		if t.Shape == "struct" {
			if !s.InFormat(t, format) {
				return ""
			}
			if m := w.structure(d, t, format); m != "" {
				return fmt.Sprintf("%s, in the schema %s of %s for %s", m, ref, t.Key, format)
			}
			return ""
		}
		if u := s.Base(r); u.K != "" {
			defer func(b bool) { w.bare = b }(w.bare)
			w.bare = false
			if m := w.match(d, u, format); m != "" {
				return fmt.Sprintf("%s, in the schema %s of %s", m, ref, t.Key)
			}
		}
		if desc := str(obj(d)["description"]); norm(desc) != norm(t.Doc) {
			return fmt.Sprintf("the description %q of %s, not %q", desc, t.Key, t.Doc)
		}
		var g []string
		for _, v := range list(obj(d)["enum"]) {
			g = append(g, enumText(v))
		}
		if !t.Loose {
			if m := multi(enumNorm(g), enumNorm(t.Enum), "values"); m != "" {
				return fmt.Sprintf("the schema %s of %s has %s", ref, t.Key, m)
			}
		}
	}
	return ""
}

func number(x any) (int, bool) {
	switch n := x.(type) {
	case int:
		return n, true
	case json.Number:
		i, err := n.Int64()
		return int(i), err == nil
	}
	return 0, false
}

func enumText(v any) string {
	if f, ok := v.(float64); ok {
		return strconv.FormatFloat(f, 'g', -1, 64)
	}
	return fmt.Sprint(v)
}

// openapiDocExact reads a document with the numbers as they are.
func openapiDocExact(fs *vfs.FS, p string) (map[string]any, error) {
	if !strings.HasSuffix(p, ".json") {
		return openapiDoc(fs, p)
	}
	d, _ := get(fs, p)
	dec := json.NewDecoder(strings.NewReader(d))
	dec.UseNumber()
	var doc map[string]any
	return doc, dec.Decode(&doc)
}

// elem compares the schema of the elements of a container.
func (w *walker) elem(x any, r proj.Ref, format, what string) string {
	r = w.sv.Spec.Resolve(r)
	switch r.K {
	case "basic", "named", "time", "uuid", "duration":
	default:
		return ""
	}
	if x == nil {
		return "no " + what
	}
	defer func(b bool) { w.bare = b }(w.bare)
	w.bare = true
	if m := w.match(x, r, format); m != "" {
		return m + ", in the " + what
	}
	return ""
}

// structure compares the schema of a struct.
func (w *walker) structure(d any, t *proj.TypeModel, format string) string {
	s := w.sv.Spec
	props := map[string]any{}
	for k, v := range obj(obj(d)["properties"]) {
		props[k] = v
	}
	var embedded []string
	for _, y := range list(obj(d)["allOf"]) {
		if r := str(obj(y)["$ref"]); r != "" {
			embedded = append(embedded, r)
		}
		for k, v := range obj(obj(y)["properties"]) {
			props[k] = v
		}
	}
	if desc := str(obj(d)["description"]); norm(desc) != norm(t.Doc) {
		return fmt.Sprintf("the description %q, not %q", desc, t.Doc)
	}
	times := map[string]int{}
	for i := range t.Fields {
		if f := &t.Fields[i]; !f.Embed {
			if tag, _ := f.TagIn(format); !tag.Hidden {
				times[tag.Name]++
			}
		}
	}
	defer func(b bool) { w.bare = b }(w.bare)
	w.bare = false
	n := 0
	for i := range t.Fields {
		f := &t.Fields[i]
		if f.Embed {
			if !s.Plainly(f.Type, format) {
				continue
			}
			if n >= len(embedded) {
				return "the embedded " + f.Key + " missing"
			}
			n++
			ok := ""
			for _, r := range embedded {
				if ok = w.match(map[string]any{"$ref": r}, f.Type, format); ok == "" {
					break
				}
			}
			if ok != "" {
				return ok
			}
			continue
		}
		tag, _ := f.TagIn(format)
		if tag.Hidden {
			continue
		}
		x, found := props[tag.Name]
		if !found {
			if s.Resolve(f.Type).K == "anon" {
				continue
			}
			return fmt.Sprintf("no property %q", tag.Name)
		}
		if times[tag.Name] == 1 {
			if m := w.match(x, f.Type, format); m != "" {
				return fmt.Sprintf("property %q: %s", tag.Name, m)
			}
		}
	}
	for k := range props {
		if times[k] == 0 {
			return fmt.Sprintf("the property %q, which isn't a field", k)
		}
	}
	return ""
}
