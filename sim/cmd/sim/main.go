// sim is the simulator.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/gin-gonic/gin"

	"verifsim/internal/loader"
	"verifsim/internal/sim"
)

func num(i int, def uint64) uint64 {
	if i < len(os.Args) {
		n, err := strconv.ParseUint(os.Args[i], 0, 64)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return n
	}
	return def
}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"sim:"}, a...)...)
	os.Exit(2)
}

// setup prepares this process for simulating.
func setup() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMaxStack(256 << 20)
	runtime.SimStepCap = uint64(envInt("SIM_STEPS", 5_000_000))
	os.Unsetenv("PWD")
	gin.SetMode(gin.ReleaseMode)
	sim.RaceLog = ""
	if l := os.Getenv("SIM_RACELOG"); l != "" {
		sim.RaceLog = fmt.Sprintf("%s.%d", l, os.Getpid())
	}
	dir := os.Getenv("SIM_BUILD")
	if dir == "" {
		dir = "/verif/.build"
	}
	if err := loader.Init(dir+"/universe.json", true); err != nil {
		fatal(err)
	}
}

func emit(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		fatal(err)
	}
	os.Stdout.Write(append(b, '\n'))
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: sim check|replay|try|...")
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2]))
	case "try":
		setup()
		sim.Try(os.Args[2], num(5, 1), num(4, 0), num(3, 100), os.Getenv("V") != "")
	case "smoke":
		setup()
		sim.Smoke(int(num(2, 1)), 1)
	case "work": // PROP BASE WORKER WORKERS SECONDS CASES KNOWN-FILE
		setup()
		known := loadKnown(os.Args[8])
		r := sim.Work(os.Args[2], num(3, 1), num(4, 0), num(5, 1), time.Duration(num(6, 10))*time.Second, int(num(7, 0)), known.match,
			func(i uint64) { fmt.Printf("@%d\n", i) })
		emit(r)
	case "seed": // PROP BASE INDEX: a single case
		setup()
		e := sim.NewEnv()
		c, why := sim.Make(e, os.Args[2], sim.RunSeed(num(3, 1), os.Args[2], num(4, 0)))
		if why != "" {
			fmt.Println("rejected:", why)
			return
		}
		if os.Getenv("LOG") != "" {
			e.Log = func(s string) { fmt.Println(s) }
		}
		v, why, err := sim.Safe(e, c)
		fmt.Println(v, why, err)
	case "digests": // PROP SEED,SEED,...
		setup()
		var seeds []uint64
		for _, s := range strings.Split(os.Args[3], ",") {
			n, err := strconv.ParseUint(s, 10, 64)
			if err != nil {
				fatal(err)
			}
			seeds = append(seeds, n)
		}
		emit(sim.Digests(os.Args[2], seeds))
	case "shrink": // IN OUT SECONDS
		setup()
		r, err := sim.LoadReplay(os.Args[2])
		if err != nil {
			fatal(err)
		}
		e := sim.NewEnv()
		c, v, n := sim.Shrink(e, r.Case, r.Violation, time.Duration(num(4, 30))*time.Second)
		r.Case, r.Violation, r.Minimised = c, v, true
		if err := r.Save(os.Args[3]); err != nil {
			fatal(err)
		}
		fmt.Println("tried", n)
	case "replay": // FILE
		setup()
		r, err := sim.LoadReplay(os.Args[2])
		if err != nil {
			fatal(err)
		}
		e := sim.NewEnv()
		if os.Getenv("LOG") != "" {
			e.Log = func(s string) { fmt.Println(s) }
		}
		v, why, err := r.Again(e)
		if err != nil {
			fatal(err)
		}
		if v == nil {
			fmt.Println("the property holds in this case", why)
			return
		}
		fmt.Println(v)
		os.Exit(1)
	case "real": // CASE ROLE: on the real system
		gin.SetMode(gin.ReleaseMode)
		sim.Real(os.Args[2], os.Args[3])
	case "conform": // N SEED GOMOD GOSUM SCRATCH
		setup()
		mod, err := os.ReadFile(os.Args[4])
		if err != nil {
			fatal(err)
		}
		sum, err := os.ReadFile(os.Args[5])
		if err != nil {
			fatal(err)
		}
		if !sim.Conform(int(num(2, 10)), num(3, 1), string(mod), string(sum), os.Args[6]) {
			os.Exit(1)
		}
	default:
		fatal("unknown command", os.Args[1])
	}
}
