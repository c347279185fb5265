package sim

import (
	"encoding/json"
	"fmt"
	"path"
	"reflect"
	"strings"

	"verifsim/internal/proj"
	"verifsim/internal/vfs"
)

// edited is the service after someone edited its sources while its program runs. What the program knows of them, the
// names and positions of the handlers, stays as it was compiled.
func (sv *Svc) edited(seed int) *Svc {
	r := &Rng{S: proj.Mix(uint64(seed), 77)}
	cur := sv
	for k := 0; k < 40; k++ {
		b, err := json.Marshal(cur.Spec)
		if err != nil {
			panic(err)
		}
		spec := &proj.Spec{}
		if err := json.Unmarshal(b, spec); err != nil {
			panic(err)
		}
		change(r, spec)
		next := *sv
		next.Spec, next.rend = spec, nil
		if reflect.DeepEqual(next.Rend().Routes, sv.Rend().Routes) {
			cur = &next
		}
	}
	return cur
}

// change changes something of a project.
func change(r *Rng, s *proj.Spec) {
	newDoc := func(d *string) {
		switch {
		case *d == "":
			*d = "Documented since."
		case r.P(1, 3):
			*d = ""
		default:
			*d = strings.Replace(*d, "described", "redescribed", 1) + " Edited."
		}
	}
	switch k := r.N(10); {
	case k < 6 && len(s.Types) > 0:
		t := &s.Types[r.N(len(s.Types))]
		if len(t.Fields) == 0 || t.Kind != "struct" || r.P(1, 6) {
			if t.Kind == "enum" && len(t.Consts) > 0 && t.Under.N == "string" {
				t.Consts[r.N(len(t.Consts))] = fmt.Sprintf("%q", r.Pick("edited", "new value", "black"))
				return
			}
			newDoc(&t.Doc)
			return
		}
		f := &t.Fields[r.N(len(t.Fields))]
		switch r.N(5) {
		case 0:
			if !f.Embed && f.Also == "" {
				n := r.N(4)
				f.Tag = fmt.Sprintf(`json:"edited%d" form:"edited_form%d"`, n, n)
				for i := range t.Fields {
					if o := &t.Fields[i]; o != f && o.Tag == f.Tag {
						f.Tag = ""
					}
				}
			}
		case 1:
			if !f.Embed {
				names := map[string]bool{}
				for i := range t.Fields {
					names[t.Fields[i].Name], names[t.Fields[i].Also] = true, true
				}
				if n := fmt.Sprintf("Edited%d", r.N(3)); !names[n] {
					f.Name, f.Also = n, ""
				}
			}
		case 2:
			if f.Type.K == "basic" {
				f.Type.N = r.Pick("string", "int64", "bool", "float32", "uint8")
			}
		case 3:
			f.Drop = !f.Drop
		default:
			newDoc(&f.Doc)
		}
	default:
		l := s.Handlers
		if k == 9 && len(s.Helpers) > 0 {
			l = s.Helpers
		}
		if len(l) == 0 {
			return
		}
		h := &l[r.N(len(l))]
		if len(h.Body) == 0 || r.P(1, 3) {
			n := len(strings.Split(h.Doc, "\n"))
			switch {
			case h.Doc != "" && r.P(1, 2): // the lines of what follows stay the same
				h.Doc, h.Gap = "", h.Gap+n
			case h.Doc == "" && h.Gap > 0:
				h.Doc, h.Gap = "Documented since.", h.Gap-1
			default:
				newDoc(&h.Doc)
			}
			return
		}
		st := &h.Body[r.N(len(h.Body))]
		switch {
		case r.P(1, 3):
			st.Drop = !st.Drop
		case st.K == "Query" || st.K == "GetHeader":
			st.K = r.Pick("Query", "GetHeader")
		case st.K == "JSON" || st.K == "XML" || st.K == "YAML":
			st.K = r.Pick("JSON", "XML", "YAML")
		case st.Name != "" && st.C == 0:
			st.Name = r.Pick("edited", "newer")
		}
	}
}

// save writes the edited sources.
func (sv *Svc) save(fs *vfs.FS, before *Svc) {
	old, files := before.Rend().Files, sv.Rend().Files
	for _, p := range sortedKeys(files) {
		if files[p] != old[p] {
			fs.WriteFile(path.Join(sv.Root, p), []byte(files[p]), 0644)
		}
	}
	for _, p := range sortedKeys(old) {
		if _, ok := files[p]; !ok {
			fs.Remove(path.Join(sv.Root, p))
		}
	}
}
