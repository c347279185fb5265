package sim

import (
	"fmt"
	"strings"

	"github.com/ls6-events/astra"

	"verifsim/internal/proj"
	"verifsim/internal/vfs"
)

// --- C20 ---

func init() {
	register(&Property{ID: "C20", Make: makeC20, Run: runC20})
	register(&Property{ID: "C21", Make: makeC21, Run: runC21})
}

func makeC20(e *Env, r *Rng, c *Case) {
	makeInv(e, r, c, invOpt{faults: true, late: true, small: true})
	for _, sv := range c.Svcs {
		sv.Builder = r.P(1, 3)
		if cf := sv.Config; r.P(1, 3) {
			cf.Contact = astra.Contact{Name: r.Pick("", "A: b"), URL: r.Pick("", "https://example.com/?a=b&c"), Email: r.Pick("", "a@b.c")}
			cf.License = astra.License{Name: r.Pick("", "MIT", "null"), URL: r.Pick("", "https://example.com/#l")}
			cf.Host = r.Pick("localhost", "0.0.0.0", "api.example.com", "10.0.0.1")
			cf.Description = r.Pick("", "two\nlines", "<b> & \"q\"", "yes", "1e3", " ", "  padded ", "ends\n\n", "\tindented", "two\n  lines")
			if r.P(1, 3) {
				cf.Title = r.Pick(" Shop ", "shop\n", "ŠHOP", "'")
			}
			cf.Version = r.Pick("1.10", "2024-01-01", "0x10", "v1")
			cf.Port = r.PickI(1, 80, 443, 8080, 65535)
		}
	}
	if len(c.Acts) == 0 {
		return
	}
	// the program changes the configuration of its services now and then
	var acts []Act
	plain := len(c.Plan) == 0 && !c.Parallel
	for _, a := range c.Acts {
		if plain && r.P(1, 3) {
			acts = append(acts, Act{Svc: a.Svc, Do: "config", N: 1 + r.N(3)}, Act{Svc: a.Svc, Do: "again"})
		}
		acts = append(acts, a)
	}
	c.Acts = acts
}

// reconfigured is the service with the configuration that the program changes to.
func (sv *Svc) reconfigured(n int) *Svc {
	other := *sv
	c := *sv.Config
	c.Title += fmt.Sprintf(" %d", n)
	c.Port += n
	switch n {
	case 2:
		c.Secure = !c.Secure
		c.Contact, c.License = astra.Contact{}, astra.License{}
	case 3:
		c.Host, c.BasePath, c.Version, c.Description = "other.example.com", "/v3", "3", "Another one"
	}
	other.Config = &c
	return &other
}

// config returns the configuration that the program passes to the library.
func (sv *Svc) config() *astra.Config {
	c := *sv.Config
	if !sv.Builder {
		return &c
	}
	b := astra.NewConfigBuilder().SetTitle(c.Title).SetDescription(c.Description).SetVersion(c.Version).SetContact(c.Contact).SetLicense(c.License)
	b = b.SetSecure(c.Secure).SetPort(c.Port)
	if c.Host != "" {
		b = b.SetHost(c.Host)
	}
	if c.BasePath != "" {
		b = b.SetBasePath(c.BasePath)
	}
	built, err := b.Build()
	if err != nil {
		panic(err)
	}
	return built
}

// heads is what the head of an OpenAPI document has to say.
func (sv *Svc) heads() map[string]string {
	c := *sv.Config
	if sv.Builder { // it fills in what is missing
		if c.Host == "" {
			c.Host = "localhost"
		}
		if c.BasePath == "" {
			c.BasePath = "/"
		}
	}
	if c.Description == "" {
		c.Description = "Generated by astra"
	}
	scheme := "http"
	if c.Secure {
		scheme = "https"
	}
	return map[string]string{
		"title": c.Title, "description": c.Description, "version": c.Version,
		"contact.name": c.Contact.Name, "contact.url": c.Contact.URL, "contact.email": c.Contact.Email,
		"license.name": c.License.Name, "license.url": c.License.URL,
		"server": fmt.Sprintf("%s://%s:%d%s", scheme, c.Host, c.Port, c.BasePath),
	}
}

func runC20(e *Env, c *Case) {
	runInv(e, c, func(sv *Svc, fs *vfs.FS, known int, when string) {
		for _, o := range sv.Outputs {
			if o.Mode != "openapi" {
				continue
			}
			p := sv.OutPath(o)
			doc, err := openapiDoc(fs, p)
			if err != nil {
				violate(c, "unreadable", "%s succeeds, but %s: %v", when, p, err)
			}
			info := obj(doc["info"])
			servers := list(doc["servers"])
			want := sv.heads()
			for _, k := range sortedKeys(want) {
				got, ok := "", true
				if k == "server" {
					ok = len(servers) == 1
					if ok {
						got = str(obj(servers[0])["url"])
					}
				} else {
					m, f := info, k
					if a, b, in := strings.Cut(k, "."); in {
						m, f = obj(info[a]), b
					}
					if v := m[f]; v != nil {
						got, ok = v.(string)
					}
				}
				if !ok || got != want[k] {
					violate(c, "head", "%s succeeds, but in %s the %s of the service is %q, not %q as configured (servers: %v)", when, p, k, got, want[k], servers)
				}
			}
			e.Probe("documents")
		}
	}, false)
}

// --- C21 ---

func makeC21(e *Env, r *Rng, c *Case) {
	makeInv(e, r, c, invOpt{faults: true, late: true, edits: true, spec: func(r *Rng) *proj.Spec {
		s := randSpec(r, r.P(1, 3))
		if r.P(1, 2) { // the main package takes part
			for i := range s.Handlers {
				if r.P(1, 2) {
					s.Handlers[i].Pkg = 0
				}
			}
		}
		return s
	}})
}

func runC21(e *Env, c *Case) {
	runInv(e, c, func(sv *Svc, fs *vfs.FS, known int, when string) {
		e.Probe(fmt.Sprintf("main package in %q", sv.Spec.Up))
		if sv.Spec.Embed {
			e.Probe("main packages that embed a file")
		}
		e.Probe(fmt.Sprintf("other files: %d", sv.Spec.Odd))
	}, true)
}
