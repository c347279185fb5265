package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/internal/sim"
)

// known are findings that are recorded and not repaired.
type known struct {
	prop, class string
	re          *regexp.Regexp
	text        string
}

type knownList []known

func (l knownList) match(v *sim.Violation, c *sim.Case) bool {
	for _, k := range l {
		if k.prop == v.Prop && k.class == v.Class && k.re.MatchString(v.Msg) {
			return true
		}
	}
	return false
}

// loadKnown reads lines "finding: property=ID class=CLASS match=REGEXP :: what fails"; others say what was fixed.
func loadKnown(f string) knownList {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var l knownList
	re := regexp.MustCompile(`^finding: property=(\S+) class=(\S+) match=(.*?) :: (.*)$`)
	for _, line := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(line); m != nil {
			l = append(l, known{m[1], m[2], regexp.MustCompile(m[3]), m[4]})
		}
	}
	return l
}

type worker struct {
	id     int
	race   bool
	cmd    *exec.Cmd
	mu     sync.Mutex
	last   uint64
	any    bool
	at     time.Time
	res    *sim.Result
	err    error
	stderr bytes.Buffer
	stdout string
	killed bool
}

func envInt(name string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return n
	}
	return def
}

const raceOffset = uint64(1) << 40 // the race workers' cases

func check(prop string) int {
	t0 := time.Now()
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	base := uint64(envInt("VERIF_SEED", 1))
	dur := 45
	if tier == "thorough" {
		dur = 600
	}
	dur = envInt("SIM_SECONDS", dur)
	build := os.Getenv("SIM_BUILD")
	if build == "" {
		build = root + "/.build"
		os.Setenv("SIM_BUILD", build)
	}
	bin, raceBin := build+"/sim", build+"/sim-race"
	withRace := prop == "C09" || prop == "C11"
	n := min(8, max(2, runtime.NumCPU()))
	scratch, err := os.MkdirTemp("", "simcheck")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(scratch)
	knownFile := root + "/known-findings.txt"
	kn := loadKnown(knownFile)
	fmt.Printf("%s %s VERIF_SEED=%d: %d workers, %d s\n", prop, tier, base, n, dur)

	run := func(race bool, out *bytes.Buffer, timeout time.Duration, args ...string) (string, int) {
		b := bin
		if race {
			b = raceBin
		}
		cmd := exec.Command(b, args...)
		var o, e bytes.Buffer
		cmd.Stdout, cmd.Stderr = &o, &e
		cmd.Env = append(os.Environ(), raceEnv(scratch)...)
		if err := cmd.Start(); err != nil {
			return err.Error(), -1
		}
		timer := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		timer.Stop()
		if out != nil {
			out.Write(e.Bytes())
		}
		if err == nil {
			return o.String(), 0
		}
		return o.String(), cmd.ProcessState.ExitCode()
	}

	// workers
	nr := 0
	if withRace {
		nr = n * 3 / 8
	}
	var ws []*worker
	var wg sync.WaitGroup
	stop := make(chan struct{})
	var once sync.Once
	halt := func() { once.Do(func() { close(stop) }) }
	for i := 0; i < n; i++ {
		w := &worker{id: i, race: i < nr, at: time.Now()}
		start, step, b := uint64(i-nr), n-nr, bin
		if w.race {
			start, step, b = raceOffset+uint64(i), nr, raceBin
		}
		w.cmd = exec.Command(b, "work", prop, fmt.Sprint(base), fmt.Sprint(start), fmt.Sprint(step), fmt.Sprint(dur), fmt.Sprint(envInt("SIM_CASES", 0)), knownFile)
		w.cmd.Stderr = &w.stderr
		w.cmd.Env = append(os.Environ(), raceEnv(scratch)...)
		pipe, err := w.cmd.StdoutPipe()
		if err != nil {
			fatal(err)
		}
		if err := w.cmd.Start(); err != nil {
			fatal(err)
		}
		ws = append(ws, w)
		wg.Add(1)
		go func() {
			defer wg.Done()
			rd := bufio.NewReaderSize(pipe, 1<<20)
			for {
				line, err := rd.ReadString('\n')
				if strings.HasPrefix(line, "@") {
					w.mu.Lock()
					w.last, _ = strconv.ParseUint(strings.TrimSpace(line[1:]), 10, 64)
					w.any = true
					w.at = time.Now()
					w.mu.Unlock()
				} else if strings.HasPrefix(line, "{") {
					r := &sim.Result{}
					if e := json.Unmarshal([]byte(line), r); e == nil {
						w.res = r
						if r.Violation != nil {
							halt()
						}
					}
				} else if line != "" {
					w.stdout += line
				}
				if err != nil {
					break
				}
			}
			w.err = w.cmd.Wait()
			if w.res == nil && !w.killed {
				halt()
			}
		}()
	}
	finished := make(chan struct{})
	go func() { wg.Wait(); close(finished) }()
	stalled := ""
	tick := time.NewTicker(time.Second)
loop:
	for {
		select {
		case <-finished:
			break loop
		case <-stop:
			for _, w := range ws {
				if w.res == nil {
					w.killed = true
					w.cmd.Process.Kill()
				}
			}
			stop = nil
		case <-tick.C:
			for _, w := range ws {
				w.mu.Lock()
				if w.res == nil && !w.killed && time.Since(w.at) > 120*time.Second {
					stalled = fmt.Sprintf("worker %d makes no progress in case %d", w.id, w.last)
					w.killed = true
					w.cmd.Process.Kill()
				}
				w.mu.Unlock()
			}
		}
	}
	tick.Stop()
	searchS := time.Since(t0).Seconds()

	// results
	var vw *worker
	for _, w := range ws {
		if w.res != nil && w.res.Violation != nil && (vw == nil || w.res.Index&(raceOffset-1) < vw.res.Index&(raceOffset-1)) {
			vw = w
		}
	}
	if stalled != "" && vw == nil {
		fmt.Println("ERROR:", stalled)
		return 2
	}
	repDir := root + "/replays"
	os.MkdirAll(repDir, 0755)
	if vw == nil {
		for _, w := range ws {
			if w.res != nil || w.killed && w.err != nil && strings.Contains(w.err.Error(), "killed") {
				continue
			}
			// the worker's process died: is it the case?
			if !w.any {
				fmt.Printf("ERROR: worker %d: %v\n%s\n", w.id, w.err, tail(w.stderr.String(), 30))
				return 2
			}
			var es bytes.Buffer
			_, code := run(w.race, &es, 120*time.Second, "seed", prop, fmt.Sprint(base), fmt.Sprint(w.last))
			msg := es.String()
			if code == 0 || !strings.Contains(msg, "fatal error:") && !strings.Contains(msg, "panic:") || !strings.Contains(msg, "github.com/ls6-events/astra") || strings.Contains(msg, "out of memory") {
				fmt.Printf("ERROR: worker %d died in case %d: %v (again: %d)\n%s\n", w.id, w.last, w.err, code, tail(w.stderr.String(), 30))
				return 2
			}
			rp := &sim.Replay{Violation: &sim.Violation{Prop: prop, Class: "fatal", Msg: "the process ends: " + head(msg, 12)}, Base: base, Index: w.last, Seed: sim.RunSeed(base, prop, w.last), Race: w.race, Fatal: true}
			f := filepath.Join(repDir, fmt.Sprintf("%s-%d-%d.json", prop, base, w.last))
			if err := rp.Save(f); err != nil {
				fatal(err)
			}
			fmt.Println(rp.Violation)
			evidence(root, prop, tier, base, ws, searchS, t0, 1, nil, kn)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
			return 1
		}
	}
	if vw != nil {
		r := vw.res
		rp := &sim.Replay{Violation: r.Violation, Base: base, Index: r.Index, Seed: sim.RunSeed(base, prop, r.Index), Race: r.Race, Case: r.Case}
		f := filepath.Join(repDir, fmt.Sprintf("%s-%d-%d.json", prop, base, r.Index))
		save := func() {
			if err := rp.Save(f); err != nil {
				fatal(err)
			}
		}
		save()
		fmt.Println("found:", r.Violation)
		again := func() bool {
			var e bytes.Buffer
			o, code := run(r.Race, &e, 200*time.Second, "replay", f)
			return code == 1 && strings.Contains(o, "["+r.Violation.Class+"]")
		}
		if !again() { // needs what ran before it in the same process
			rp.Earlier = r.Done
			save()
			if !again() {
				fmt.Printf("ERROR: case %d does not fail again\n", r.Index)
				return 2
			}
		} else {
			cap := 40
			if tier == "thorough" {
				cap = 120
			}
			small := filepath.Join(scratch, "small.json")
			if o, code := run(r.Race, nil, time.Duration(cap+120)*time.Second, "shrink", f, small, fmt.Sprint(cap)); code == 0 {
				if s, err := sim.LoadReplay(small); err == nil {
					whole := *rp
					*rp = *s
					save()
					if !again() {
						*rp = whole
						save()
					} else {
						fmt.Println("minimised:", strings.TrimSpace(o))
						fmt.Println("minimal:", rp.Violation)
						show(rp.Case)
					}
				}
			}
		}
		evidence(root, prop, tier, base, ws, searchS, t0, 1, nil, kn)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		return 1
	}

	evals, rej := 0, 0
	why := map[string]int{}
	for _, w := range ws {
		evals += w.res.Evals
		rej += w.res.Rejected
		for k, n := range w.res.Why {
			why[k] += n
		}
	}
	// determinism: the same cases in two processes
	var seeds []string
	nd := 16
	if tier == "thorough" {
		nd = 200
	}
	for i := 0; i < nd; i++ {
		seeds = append(seeds, fmt.Sprint(sim.RunSeed(base, prop, uint64(i*7))))
	}
	var d [2][]string
	var dw sync.WaitGroup
	for k := range d {
		dw.Add(1)
		go func() {
			defer dw.Done()
			o, _ := run(false, nil, 300*time.Second, "digests", prop, strings.Join(seeds, ","))
			json.Unmarshal([]byte(o), &d[k])
		}()
	}
	dw.Wait()
	det := map[string]int{"cases run twice, in different processes": len(d[0])}
	diff := 0
	for i := range d[0] {
		if i >= len(d[1]) || d[0][i] != d[1][i] {
			diff++
		}
	}
	det["of these different"] = diff
	evidence(root, prop, tier, base, ws, searchS, t0, 0, det, kn)
	for _, k := range kn {
		if k.prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
		}
	}
	fmt.Printf("%d cases, %d rejected, %.0f s\n", evals, rej, time.Since(t0).Seconds())
	if diff > 0 || len(d[0]) != nd || len(d[1]) != nd {
		fmt.Printf("note: %d of %d cases did not run the same twice\n", diff, nd)
		if tier == "thorough" {
			return 2
		}
	}
	if evals == 0 || rej > evals {
		fmt.Println("ERROR: most cases say nothing:", sim.TopWhy(why, 5))
		return 2
	}
	return 0
}

func raceEnv(scratch string) []string {
	l := filepath.Join(scratch, "race")
	return []string{"SIM_RACELOG=" + l, "GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path=" + l}
}

func tail(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, "\n")
}

func head(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// summary is a case without the sources of its projects.
func summary(c *sim.Case) map[string]any {
	var svcs []any
	for _, sv := range c.Svcs {
		nt, nh := 0, 0
		for i := range sv.Spec.Types {
			if !sv.Spec.Types[i].Drop {
				nt++
			}
		}
		for i := range sv.Spec.Handlers {
			if !sv.Spec.Handlers[i].Drop {
				nh++
			}
		}
		svcs = append(svcs, map[string]any{"module": sv.Spec.Module, "packages": len(sv.Spec.Pkgs), "types": nt, "handlers": nh, "root": sv.Root, "workDir": sv.WorkDir,
			"flow": sv.Flow, "cache": sv.Cache, "outputs": sv.Outputs, "existing": len(sv.Old)})
	}
	m := map[string]any{"seed": c.Seed, "services": svcs}
	add := func(k string, v any, on bool) {
		if on {
			m[k] = v
		}
	}
	add("attempts", c.Attempts, len(c.Attempts) > 0)
	add("acts", c.Acts, len(c.Acts) > 0)
	add("parallel", true, c.Parallel)
	add("plan", c.Plan, len(c.Plan) > 0)
	add("load", c.Load, c.Load != nil)
	add("goroutines", c.PM, len(c.PM) > 0)
	add("sched", c.Sched, c.Sched.SwitchP > 0 || c.Sched.Replay)
	return m
}

func show(c *sim.Case) {
	b, _ := json.MarshalIndent(summary(c), "  ", " ")
	s := string(b)
	if len(s) > 6000 {
		s = s[:6000] + " ..."
	}
	fmt.Println("  " + s)
}

func realParts(prop string) []string {
	if prop == "C11" {
		return []string{"astTraversal.PackageManager, PathNode and PackageNode", "goroutines, mutexes, the Go runtime (which goroutine runs is decided by the simulator)"}
	}
	return []string{"all of astra: core, inputs/gin, outputs, astTraversal, cache, the cobra CLI (in process)", "Go runtime, os, io, encoding/json, yaml.v3, zerolog, gin router, go/parser and go/types",
		"goroutines, mutexes, channels (which goroutine runs is decided by the simulator)"}
}

func stubParts(prop string) []string {
	if prop == "C11" {
		return []string{"map iteration and random numbers come from the seed"}
	}
	return []string{"system calls (simulated disk, descriptors, clock, pid, cwd)", "golang.org/x/tools/go/packages.Load (a loader that parses and type-checks the simulated disk; the go command does not run)",
		"positions and names of handler functions (registered stand-ins answer with the generated handlers' names, files and lines)", "map iteration, random numbers and select choices come from the seed"}
}

func evidence(root, prop, tier string, base uint64, ws []*worker, searchS float64, t0 time.Time, viol int, det map[string]int, kn knownList) {
	evals, rej, nontriv, procs, traces := 0, 0, 0, 0, 0
	var ops, simNS int64
	var yields, picks uint64
	hashes := map[uint64]bool{}
	fired, probes, why := map[string]int{}, map[string]int{}, map[string]int{}
	var samples []any
	raceCases := 0
	for _, w := range ws {
		r := w.res
		if r == nil {
			continue
		}
		evals += r.Evals
		rej += r.Rejected
		nontriv += r.Nontriv
		procs += r.Procs
		traces += r.Traces
		ops += r.Ops
		simNS += r.SimNS
		yields += r.Yields
		picks += r.Picks
		if r.Race {
			raceCases += r.Evals
		}
		for _, h := range r.Hashes {
			hashes[h] = true
		}
		for k, n := range r.Fired {
			fired[k] += n
		}
		for k, n := range r.Probes {
			probes[k] += n
		}
		for k, n := range r.Why {
			why[k] += n
		}
		if len(samples) < 3 {
			for _, s := range r.Samples {
				samples = append(samples, summary(s))
			}
		}
	}
	kinds := map[string]int{}
	for k, n := range fired {
		kinds[strings.SplitN(k, ":", 2)[0]] += n
	}
	perHour := 0.0
	if searchS > 0 {
		perHour = float64(evals) / searchS * 3600
	}
	cov := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": len(hashes),
		"rule": "a case is made from RunSeed(VERIF_SEED, property, index): project, configuration, disk, what the program does, schedule, environment and faults. " +
			"It is non-trivial if a fault fired, threads were interleaved, or (fault-free properties) the compared runs really differed in environment, process split or history; distinct by a hash of every system call with its result, every fault and every context switch of all its processes.",
		"samples":              samples,
		"rejected":             rej,
		"rejected_why":         sim.TopWhy(why, 6),
		"nontrivial":           nontriv,
		"seeds_per_hour":       int(perHour),
		"simulated_processes":  procs,
		"processes_per_hour":   int(float64(procs) / searchS * 3600),
		"simulated_time_s":     float64(simNS) / 1e9,
		"system_calls":         ops,
		"yield_points_passed":  yields,
		"scheduling_choices":   picks,
		"distinct_traces":      traces,
		"distinct_measure":     "sequences of system calls with results, faults and context switches of a process (summed over workers, whose seeds are disjoint)",
		"fault_kinds_fired":    kinds,
		"faults_fired_by_call": fired,
		"probes":               probes,
		"real_components":      realParts(prop),
		"stub_components":      stubParts(prop),
	}
	if raceCases > 0 {
		cov["cases_with_race_detector"] = raceCases
	}
	if det != nil {
		cov["determinism"] = det
	}
	var kt []string
	for _, k := range kn {
		if k.prop == prop {
			kt = append(kt, k.text)
		}
	}
	if len(kt) > 0 {
		cov["known_findings"] = kt
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": base, "level": "exploration", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": viol,
		"assumptions": []string{
			"seeded search samples; it does not enumerate",
			"a crash kills the process: what system calls did before it stays (no loss of unsynced pages: the property speaks of killed runs, not of power failure)",
			"the simulated loader stands for packages.Load; conform.sh, a separate script, compares it (and the simulated system calls) with the real ones",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal(err)
	}
	os.MkdirAll(root+"/evidence", 0755)
	if err := os.WriteFile(root+"/evidence/"+prop+".json", append(b, '\n'), 0644); err != nil {
		fatal(err)
	}
}
