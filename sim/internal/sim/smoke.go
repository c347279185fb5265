package sim

import (
	"fmt"
	"regexp"
	"time"

	"github.com/ls6-events/astra"

	"verifsim/internal/loader"
	"verifsim/internal/proc"
	"verifsim/internal/proj"
)

func regexpMatch(re, s string) (bool, error) { return regexp.MatchString(re, s) }

// Smoke runs some generations and prints what happens.
func Smoke(n int, seed uint64) {
	e := NewEnv()
	loader.Debug = func(s string) { fmt.Println("TYPE", s) }
	why := map[string]int{}
	t0 := time.Now()
	for i := 0; i < n; i++ {
		r := &proj.Rng{S: proj.Mix(seed, uint64(i))}
		sp := proj.Generate(r, proj.Size{Pkgs: 3, Types: 6, Handlers: 5, Stmts: 4})
		sv := &Svc{Spec: sp, Root: "/home/u/app", Cwd: "/home/u/app", Flow: r.Pick("parse", "two", "steps"), Config: &astra.Config{Title: "T", Port: 8000, Host: "h"},
			Outputs: []Out{{"openapi", "openapi.json"}, {"json", "routes"}}}
		fs := World(sv)
		g := e.Generate(sv, fs, proc.Seams{}, Sched{}, nil, nil)
		why[g.Verdict()]++
		if !g.OK {
			w := g.Why()
			if len(w) > 600 {
				w = w[:600]
			}
			fmt.Println(i, w)
		}
		if i == 0 {
			for _, ev := range g.Runs[0].P.Events {
				fmt.Println(ev)
			}
			fmt.Println(sv.outFiles(fs))
		}
	}
	fmt.Println(why, time.Since(t0), e.Ops)
}
