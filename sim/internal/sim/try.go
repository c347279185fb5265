package sim

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"verifsim/internal/proj"
)

// RunSeed is the seed of a case.
func RunSeed(base uint64, prop string, i uint64) uint64 {
	h := uint64(14695981039346656037)
	for _, b := range []byte(prop) {
		h = (h ^ uint64(b)) * 1099511628211
	}
	return proj.Mix(base, h, i)
}

// Try runs cases in this process and prints what happens.
func Try(prop string, base, from, n uint64, verbose bool) {
	e := NewEnv()
	rej := map[string]int{}
	nrej, nviol := 0, 0
	classes := map[string]int{}
	t0 := time.Now()
	for i := from; i < from+n; i++ {
		c, why := Make(e, prop, RunSeed(base, prop, i))
		if why == "" {
			if verbose {
				fmt.Println(c)
			}
			var v *Violation
			if os.Getenv("ALOG") != "" {
				LogTo = &bytes.Buffer{}
			}
			v, why = Run(e, c)
			if LogTo != nil {
				fmt.Println(LogTo)
			}
			if v != nil {
				for _, sv := range c.Svcs {
					dumpSources(sv)
				}
				nviol++
				classes[v.Class]++
				if classes[v.Class] <= 6 {
					m := v.String()
					if len(m) > 700 {
						m = m[:700]
					}
					fmt.Println(i, m)
				}
			}
		}
		if why != "" {
			nrej++
			w := strings.Split(why, "\n")[0]
			if len(w) > 160 {
				w = w[:160]
			}
			rej[w]++
		}
	}
	var ks []string
	for k := range rej {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return rej[ks[i]] > rej[ks[j]] })
	if len(ks) > 12 {
		ks = ks[:12]
	}
	for _, k := range ks {
		fmt.Println("reject", rej[k], k)
	}
	fmt.Println("cases", n, "rejected", nrej, "violations", nviol, classes, "time", time.Since(t0), "procs", e.Procs, "ops", e.Ops, "traces", len(e.Traces))
	fmt.Println("fired", e.Fired)
	fmt.Println("probes", e.Probes)
}
