package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// edit is one exact-text replacement in a file of the pinned Go distribution (or of golang.org/x/tools).
type edit struct {
	file     string // relative to GOROOT/src, or to the x/tools module when it starts with "x/tools:"
	old, new string
}

var stdEdits = []edit{
	// --- runtime: constant hash keys, so that a seed decides every map order --------------------------------
	{"runtime/alg.go", "\t\tkey[i] = bootstrapRand()\n", "\t\tkey[i] = 0x9e3779b97f4a7c15 * uint64(i+1)\n"},
	{"runtime/alg.go", "\t\thashkey[i] = uintptr(bootstrapRand())\n", "\t\thashkey[i] = uintptr(0x9e3779b97f4a7c15*uint64(i+1)) | 1\n"},
	// --- runtime: seeded random numbers for simulated goroutines ----------------------------------------------
	{"runtime/rand.go", "func rand() uint64 {\n", "func rand() uint64 {\n\tif simRandOn {\n\t\tif gp := getg(); gp.simID != 0 {\n\t\t\tsimRandState += 0x9e3779b97f4a7c15\n\t\t\tz := simRandState\n\t\t\tz = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9\n\t\t\tz = (z ^ (z >> 27)) * 0x94d049bb133111eb\n\t\t\treturn z ^ (z >> 31)\n\t\t}\n\t}\n"},
	{"runtime/map.go", "\tr := uintptr(rand())\n", "\tr := uintptr(simMapRand())\n"},
	{"runtime/map.go", "\th.hash0 = uint32(rand())\n\n\t// Find the size parameter B", "\th.hash0 = simHash0\n\n\t// Find the size parameter B"},
	{"runtime/map.go", "\th.hash0 = uint32(rand())\n\treturn h\n}\n\n// makemap implements", "\th.hash0 = simHash0\n\treturn h\n}\n\n// makemap implements"},
	{"runtime/map.go", "\t\t\t\th.hash0 = uint32(rand())\n", "\t\t\t\th.hash0 = simHash0\n"},
	{"runtime/map.go", "\th.hash0 = uint32(rand())\n\n\t// Keep the mapextra allocation", "\th.hash0 = simHash0\n\n\t// Keep the mapextra allocation"},
	{"runtime/map_fast32.go", "\t\t\t\th.hash0 = uint32(rand())\n", "\t\t\t\th.hash0 = simHash0\n"},
	{"runtime/map_fast64.go", "\t\t\t\th.hash0 = uint32(rand())\n", "\t\t\t\th.hash0 = simHash0\n"},
	{"runtime/map_faststr.go", "\t\t\t\th.hash0 = uint32(rand())\n", "\t\t\t\th.hash0 = simHash0\n"},
	// --- runtime: goroutine identity --------------------------------------------------------------------------
	{"runtime/runtime2.go", "\tgcAssistBytes int64\n}\n\n// gTrackingPeriod", "\tgcAssistBytes int64\n\n\t// simID identifies the simulated process this goroutine belongs to (0: none).\n\tsimID uint64\n}\n\n// gTrackingPeriod"},
	{"runtime/proc.go", "\tnewg.parentGoid = callergp.goid\n", "\tnewg.parentGoid = callergp.goid\n\tnewg.simID = callergp.simID\n"},
	// --- runtime: the scheduler's choice comes from the simulator ---------------------------------------------
	{"runtime/proc.go", "func runqget(pp *p) (gp *g, inheritTime bool) {\n", "func runqget(pp *p) (gp *g, inheritTime bool) {\n\tif simSchedOn {\n\t\tsimPick(pp)\n\t}\n"},
	{"runtime/proc.go", "\tdropg()\n\tlock(&sched.lock)\n\tglobrunqput(gp)\n\tunlock(&sched.lock)\n\n\tif mainStarted {", "\tdropg()\n\tif simSchedOn {\n\t\trunqput(getg().m.p.ptr(), gp, false)\n\t} else {\n\t\tlock(&sched.lock)\n\t\tglobrunqput(gp)\n\t\tunlock(&sched.lock)\n\t}\n\n\tif mainStarted {"},
	{"runtime/proc.go", "func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n\tif simSchedOn {\n\t\tnext = false\n\t}\n"},
	{"runtime/proc.go", "func preemptone(pp *p) bool {\n", "func preemptone(pp *p) bool {\n\tif simSchedOn {\n\t\treturn false\n\t}\n"},
	{"runtime/proc.go", "func retake(now int64) uint32 {\n\tn := 0\n", "func retake(now int64) uint32 {\n\tn := 0\n\tif simSchedOn {\n\t\treturn 0\n\t}\n"},
	{"runtime/time.go", "func timeSleep(ns int64) {\n\tif ns <= 0 {\n\t\treturn\n\t}\n", "func timeSleep(ns int64) {\n\tif ns <= 0 {\n\t\treturn\n\t}\n\tif getg().simID != 0 {\n\t\tif SimSleep != nil {\n\t\t\tSimSleep(ns)\n\t\t}\n\t\tGosched()\n\t\treturn\n\t}\n"},
	{"runtime/select.go", "\t\tj := cheaprandn(uint32(norder + 1))\n", "\t\tj := simSelectRandn(uint32(norder + 1))\n"},
	{"runtime/sema.go", "func sync_nanotime() int64 {\n", "func sync_nanotime() int64 {\n\tif simSchedOn {\n\t\treturn 0\n\t}\n"},
	// --- runtime: names and positions of the stand-in handler functions ---------------------------------------
	{"runtime/symtab.go", "func (f *Func) Name() string {\n\tif f == nil {\n\t\treturn \"\"\n\t}\n", "func (f *Func) Name() string {\n\tif f == nil {\n\t\treturn \"\"\n\t}\n\tif SimFunc != nil && (SimFuncs || getg().simID != 0) && !f.raw().isInlined() {\n\t\tif n, _, _, ok := SimFunc(f.Entry()); ok {\n\t\t\treturn n\n\t\t}\n\t}\n"},
	{"runtime/symtab.go", "func (f *Func) FileLine(pc uintptr) (file string, line int) {\n\tfn := f.raw()\n", "func (f *Func) FileLine(pc uintptr) (file string, line int) {\n\tfn := f.raw()\n\tif SimFunc != nil && (SimFuncs || getg().simID != 0) && !fn.isInlined() {\n\t\tif _, fl, ln, ok := SimFunc(f.Entry()); ok {\n\t\t\treturn fl, ln\n\t\t}\n\t}\n"},
	// --- environment ---------------------------------------------------------------------------------------------
	{"syscall/env_unix.go", "func Getenv(key string) (value string, found bool) {\n", "func Getenv(key string) (value string, found bool) {\n\tif h := SimActive(); h != nil {\n\t\treturn h.Getenv(key)\n\t}\n"},
	{"syscall/env_unix.go", "func Environ() []string {\n", "func Environ() []string {\n\tif h := SimActive(); h != nil {\n\t\treturn h.Environ()\n\t}\n"},
	// --- time -------------------------------------------------------------------------------------------------
	{"time/time.go", "func Now() Time {\n\tsec, nsec, mono := now()\n", "func Now() Time {\n\tsec, nsec, mono := now()\n\tif SimNow != nil {\n\t\tif s, n, ok := SimNow(); ok {\n\t\t\treturn Time{uint64(n), s + unixToInternal, Local}\n\t\t}\n\t}\n"},
	// --- os: exit ---------------------------------------------------------------------------------------------
	{"os/proc.go", "func Exit(code int) {\n", "func Exit(code int) {\n\tif h := syscall.SimActive(); h != nil {\n\t\th.Exit(code)\n\t}\n"},
	{"syscall/exec_unix.go", "func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {\n", "func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {\n\tif h := SimActive(); h != nil {\n\t\treturn 0, h.Denied(\"exec\", argv0)\n\t}\n"},
	{"syscall/exec_unix.go", "func Exec(argv0 string, argv []string, envv []string) (err error) {\n", "func Exec(argv0 string, argv []string, envv []string) (err error) {\n\tif h := SimActive(); h != nil {\n\t\treturn h.Denied(\"exec\", argv0)\n\t}\n"},
	// race-detector edges made by file I/O would hide races between services
	{"syscall/syscall_unix.go", "\tn, err = read(fd, p)\n\tif race.Enabled {\n\t\tif n > 0 {\n\t\t\trace.WriteRange(unsafe.Pointer(&p[0]), n)\n\t\t}\n\t\tif err == nil {", "\tn, err = read(fd, p)\n\tif race.Enabled {\n\t\tif n > 0 {\n\t\t\trace.WriteRange(unsafe.Pointer(&p[0]), n)\n\t\t}\n\t\tif err == nil && SimActive() == nil {"},
	// internal/syscall/unix
	{"internal/syscall/unix/at.go", "func Unlinkat(dirfd int, path string, flags int) error {\n", "func Unlinkat(dirfd int, path string, flags int) error {\n\tif h := syscall.SimActive(); h != nil {\n\t\treturn h.Unlinkat(dirfd, path, flags)\n\t}\n"},
	{"internal/syscall/unix/at.go", "func Openat(dirfd int, path string, flags int, perm uint32) (int, error) {\n", "func Openat(dirfd int, path string, flags int, perm uint32) (int, error) {\n\tif h := syscall.SimActive(); h != nil {\n\t\treturn h.Openat(dirfd, path, flags, perm)\n\t}\n"},
	{"internal/syscall/unix/at_fstatat.go", "func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error {\n", "func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error {\n\tif h := syscall.SimActive(); h != nil {\n\t\treturn h.Fstatat(dirfd, path, stat, flags)\n\t}\n"},
	{"internal/syscall/unix/copy_file_range_linux.go", "len int, flags int) (n int, err error) {\n", "len int, flags int) (n int, err error) {\n\tif h := syscall.SimActive(); h != nil {\n\t\treturn 0, syscall.ENOSYS\n\t}\n"},
	// --- x/tools: the package loader ----------------------------------------------------------------------------
	{"x/tools:go/packages/packages.go", "func Load(cfg *Config, patterns ...string) ([]*Package, error) {\n", "// SimLoad serves loads of simulated processes.\nvar SimLoad func(cfg *Config, patterns ...string) ([]*Package, error, bool)\n\nfunc Load(cfg *Config, patterns ...string) ([]*Package, error) {\n\tif SimLoad != nil {\n\t\tif pkgs, err, ok := SimLoad(cfg, patterns...); ok {\n\t\t\treturn pkgs, err\n\t\t}\n\t}\n"},
}

// newFiles are added to the Go distribution's packages.
var stdNew = map[string]string{
	"runtime/zz_sim.go": `package runtime

import (
	"internal/runtime/atomic"
	"unsafe"
)

func simOwn(pc uintptr) bool {
	f := findfunc(pc)
	if !f.valid() {
		return false
	}
	n := funcname(f)
	return len(n) > 9 && n[:9] == "verifsim/"
}

func simracereadpc(addr unsafe.Pointer, callerpc, pc uintptr) {
	if !simOwn(callerpc) {
		racereadpc(addr, callerpc, pc)
	}
}

func simracewritepc(addr unsafe.Pointer, callerpc, pc uintptr) {
	if !simOwn(callerpc) {
		racewritepc(addr, callerpc, pc)
	}
}

func simracereadrangepc(addr unsafe.Pointer, sz, callerpc, pc uintptr) {
	if !simOwn(callerpc) {
		racereadrangepc(addr, sz, callerpc, pc)
	}
}

func simracewriterangepc(addr unsafe.Pointer, sz, callerpc, pc uintptr) {
	if !simOwn(callerpc) {
		racewriterangepc(addr, sz, callerpc, pc)
	}
}

// Simulator state. Everything here is written by the harness while no simulated goroutine runs,
// or by the single running goroutine (GOMAXPROCS=1).
var (
	simHash0     uint32 = 0x5bd1e995
	simRandOn    bool
	simRandState uint64

	simMapMode  uint32 // 0: fixed start; 1: seeded start
	simMapState uint64

	simSchedOn    bool
	simSchedState uint64
	simPickState  uint64
	simYields     uint64   // yields executed by simulated goroutines
	simSwitchP    uint32   // probability of a switch at a yield, in 1/65536
	simForced     []uint64 // replay: yield numbers (with pick choice) at which a switch happens
	simForcedPos  int
	simReplay     bool
	simTrace      [1 << 14]uint64
	simTraceN     int
	simPicks      uint64
)

// SimFunc maps the entry point of a stand-in handler to the simulated function name and position.
var SimFuncs bool // also outside simulated processes

var SimFunc func(entry uintptr) (name, file string, line int, ok bool)

// SimStepCap bounds the statements a run may execute; SimHang ends a process that exceeds it.
var (
	SimStepCap uint64 = 1 << 62
	SimHang    func()
	simSteps   uint64
)

// SimDead marks processes that have ended: what is left of them stops at its next statement.
var SimDead [64]bool

// SimSteps returns the statements executed since the last SimResetSteps.
func SimSteps() uint64 { return simSteps }

// SimResetSteps restarts the statement count.
func SimResetSteps() { simSteps = 0 }

// SimSleep is told about sleeps of simulated goroutines.
var SimSleep func(ns int64)

//go:nosplit
func simMapRand() uint64 {
	gp := getg()
	if gp.simID == 0 {
		return rand()
	}
	if simMapMode == 0 {
		return 0
	}
	simMapState += 0x9e3779b97f4a7c15
	z := simMapState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func simSelectRandn(n uint32) uint32 {
	if simSchedOn && getg().simID != 0 {
		return uint32(simPickRand() % uint64(n))
	}
	return cheaprandn(n)
}

func simSchedRand() uint64 { return simNext(&simSchedState) }

// picks have a stream of their own, so that a replayed list of switches leads to the same picks
func simPickRand() uint64 { return simNext(&simPickState) }

func simNext(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// simPick moves a seeded choice among the runnable goroutines to the head of the run queue.
func simPick(pp *p) {
	if sched.runqsize != 0 {
		lock(&sched.lock)
		for sched.runqsize != 0 && pp.runqtail-atomic.Load(&pp.runqhead) < uint32(len(pp.runq))/2 {
			gp := sched.runq.pop()
			sched.runqsize--
			pp.runq[pp.runqtail%uint32(len(pp.runq))].set(gp)
			atomic.StoreRel(&pp.runqtail, pp.runqtail+1)
		}
		unlock(&sched.lock)
	}
	h := atomic.Load(&pp.runqhead)
	n := pp.runqtail - h
	if n < 2 {
		return
	}
	size := uint32(len(pp.runq))
	// Simulated goroutines go first; the others (the harness, the runtime's own) run when none is runnable, so
	// when they wake up never influences the choice.
	c := uint32(0)
	for i := uint32(0); i < n; i++ {
		if pp.runq[(h+i)%size].ptr().simID != 0 {
			c++
		}
	}
	if c == 0 {
		return
	}
	k := uint32(0)
	if c > 1 {
		simPicks++
		k = uint32(simPickRand() % uint64(c))
	}
	for i := uint32(0); i < n; i++ {
		b := (h + i) % size
		if pp.runq[b].ptr().simID == 0 {
			continue
		}
		if k == 0 {
			// move it to the head, keeping the order of the others
			x := pp.runq[b].ptr()
			for j := i; j > 0; j-- {
				pp.runq[(h+j)%size].set(pp.runq[(h+j-1)%size].ptr())
			}
			pp.runq[h%size].set(x)
			return
		}
		k--
	}
}

// SimYield is called before every statement of the code under test and at every simulated system call.
func SimYield() {
	if getg().simID == 0 {
		return
	}
	if SimDead[getg().simID&63] {
		Goexit()
	}
	simSteps++
	if simSteps > SimStepCap && SimHang != nil {
		SimHang()
	}
	if !simSchedOn {
		return
	}
	n := simYields
	simYields++
	if simReplay {
		if simForcedPos < len(simForced) && simForced[simForcedPos] == n {
			simForcedPos++
			Gosched()
		}
		return
	}
	if uint32(simSchedRand()>>16)&0xffff < simSwitchP {
		if simTraceN < len(simTrace) {
			simTrace[simTraceN] = n
			simTraceN++
		}
		Gosched()
	}
}

// SimSetID makes the calling goroutine (and those it starts) belong to a simulated process.
func SimSetID(id uint64) { getg().simID = id }

// SimID returns the simulated process of the calling goroutine.
//
//go:nosplit
func SimID() uint64 { return getg().simID }

// SimSeed sets the random streams of simulated goroutines.
func SimSeed(randSeed, mapSeed uint64, mapMode uint32) {
	simRandState, simMapState, simMapMode = randSeed, mapSeed, mapMode
	simRandOn = true
}

// SimMapRand draws from the stream that decides map iteration.
func SimMapRand() (x uint64, mode uint32) {
	return simMapRand(), simMapMode
}

// SimSchedStart hands scheduling to the simulator. GOMAXPROCS must be 1.
func SimSchedStart(seed uint64, switchP uint32, replay bool, forced []uint64) {
	simSchedState, simSwitchP, simReplay, simForced, simForcedPos = seed, switchP, replay, forced, 0
	simPickState = seed ^ 0x6a09e667f3bcc908
	simYields, simTraceN, simPicks = 0, 0, 0
	simSchedOn = true
}

// SimSchedStop gives scheduling back.
func SimSchedStop() { simSchedOn = false }

// SimSchedNow returns the yields executed, the picks made and where switches happened so far.
func SimSchedNow() (yields, picks uint64, switches []uint64) {
	return simYields, simPicks, append([]uint64(nil), simTrace[:simTraceN]...)
}
`,
	"time/zz_sim.go": `package time

// SimNow supplies the simulated clock to simulated goroutines.
var SimNow func() (sec int64, nsec int32, ok bool)
`,
	"syscall/zz_sim.go": `package syscall

import "runtime"

// SimHooks is the simulated operating system.
type SimHooks interface {
	Exit(code int)
	Denied(op, arg string) error
	Faccessat(dirfd int, path string, mode uint32) error
	Fchmodat(dirfd int, path string, mode uint32) error
	Linkat(olddirfd int, oldpath string, newdirfd int, newpath string) error
	Openat(dirfd int, path string, flags int, mode uint32) (int, error)
	Readlinkat(dirfd int, path string, buf []byte) (int, error)
	Symlinkat(oldpath string, newdirfd int, newpath string) error
	Unlinkat(dirfd int, path string, flags int) error
	Utimensat(dirfd int, path string) error
	Getcwd(buf []byte) (int, error)
	Chdir(path string) error
	Fchdir(fd int) error
	Close(fd int) error
	Dup(fd int) (int, error)
	Fchmod(fd int, mode uint32) error
	Fchown(path string, fd int) error
	Fcntl(fd int, cmd int, arg int) (int, error)
	Fsync(fd int) error
	Flock(fd int, how int) error
	Getdents(fd int, buf []byte) (int, error)
	Getpid() int
	Getenv(key string) (string, bool)
	Environ() []string
	Nodename() string
	Mkdirat(dirfd int, path string, mode uint32) error
	Read(fd int, p []byte) (int, error)
	Write(fd int, p []byte) (int, error)
	Pread(fd int, p []byte, off int64) (int, error)
	Pwrite(fd int, p []byte, off int64) (int, error)
	Fstat(fd int, st *Stat_t) error
	Fstatat(dirfd int, path string, st *Stat_t, flags int) error
	Ftruncate(fd int, n int64) error
	Truncate(path string, n int64) error
	Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) error
	Seek(fd int, off int64, whence int) (int64, error)
}

// SimTable holds the simulated operating system of each simulated process (index: process id).
var SimTable [64]SimHooks

// SimActive returns the simulated operating system of the calling goroutine, or nil.
func SimActive() SimHooks {
	id := runtime.SimID()
	if id == 0 || id >= uint64(len(SimTable)) {
		return nil
	}
	return SimTable[id]
}
`,
	"container/ring/zz_sim.go": `package ring

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
)

// SimY is inserted before every statement of the code under test.
func SimY() { runtime.SimYield() }

// SimEntry is one map entry of an instrumented range statement.
type SimEntry[K comparable, V any] struct {
	m   map[K]V
	key K
}

// Get returns the entry if it is still in the map.
func (e SimEntry[K, V]) Get() (K, V, bool) {
	v, ok := e.m[e.key]
	return e.key, v, ok
}

func simKeyString(k any) string {
	v := reflect.ValueOf(k)
	for v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return ""
		}
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", v.Int()+1<<62)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("%020d", v.Uint())
	case reflect.Struct:
		// pointers to syntax nodes: their name and position
		s := ""
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			switch f.Kind() {
			case reflect.String:
				s += f.String() + "|"
			case reflect.Int, reflect.Int64, reflect.Int32:
				s += fmt.Sprintf("%020d|", f.Int())
			case reflect.Bool:
				s += fmt.Sprint(f.Bool(), "|")
			}
		}
		return s
	}
	return fmt.Sprint(v.Kind())
}

// SimEntries returns the entries of a map in the order the simulator chooses.
func SimEntries[M ~map[K]V, K comparable, V any](m M) []SimEntry[K, V] {
	if len(m) == 0 {
		return nil
	}
	es := make([]SimEntry[K, V], 0, len(m))
	keys := make([]string, 0, len(m))
	for k := range m {
		es = append(es, SimEntry[K, V]{m, k})
		keys = append(keys, simKeyString(k))
	}
	if runtime.SimID() == 0 {
		return es
	}
	idx := make([]int, len(es))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return keys[idx[a]] < keys[idx[b]] })
	out := make([]SimEntry[K, V], len(es))
	for i, j := range idx {
		out[i] = es[j]
	}
	r, mode := runtime.SimMapRand()
	if mode != 0 {
		for i := len(out) - 1; i > 0; i-- {
			r = r*6364136223846793005 + 1442695040888963407
			j := int((r >> 33) % uint64(i+1))
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}
`,
}

// zsys describes the wrappers in zsyscall_linux_amd64.go that consult the simulated operating system.
var zsys = map[string]string{
	"faccessat":  "return h.Faccessat(dirfd, path, mode)",
	"faccessat2": "return h.Faccessat(dirfd, path, mode)",
	"fchmodat":   "return h.Fchmodat(dirfd, path, mode)",
	"fchmodat2":  "return h.Fchmodat(dirfd, path, mode)",
	"linkat":     "return h.Linkat(olddirfd, oldpath, newdirfd, newpath)",
	"openat":     "return h.Openat(dirfd, path, flags, mode)",
	"readlinkat": "return h.Readlinkat(dirfd, path, buf)",
	"symlinkat":  "return h.Symlinkat(oldpath, newdirfd, newpath)",
	"unlinkat":   "return h.Unlinkat(dirfd, path, flags)",
	"utimensat":  "return h.Utimensat(dirfd, path)",
	"futimesat":  "return h.Utimensat(dirfd, path)",
	"utimes":     "return h.Utimensat(-100, path)",
	"Utime":      "return h.Utimensat(-100, path)",
	"Getcwd":     "return h.Getcwd(buf)",
	"Chdir":      "return h.Chdir(path)",
	"Fchdir":     "return h.Fchdir(fd)",
	"Chroot":     "return h.Denied(\"chroot\", path)",
	"Close":      "return h.Close(fd)",
	"Dup":        "return h.Dup(oldfd)",
	"Dup2":       "return h.Denied(\"dup2\", \"\")",
	"Dup3":       "return h.Denied(\"dup3\", \"\")",
	"Fallocate":  "return ENOSYS",
	"Fchmod":     "return h.Fchmod(fd, mode)",
	"Fchown":     "return h.Fchown(\"\", fd)",
	"Fchownat":   "return h.Fchown(path, -1)",
	"fcntl":      "return h.Fcntl(fd, cmd, arg)",
	"Fdatasync":  "return h.Fsync(fd)",
	"Fsync":      "return h.Fsync(fd)",
	"Flock":      "return h.Flock(fd, how)",
	"Getdents":   "return h.Getdents(fd, buf)",
	"Getpid":     "return h.Getpid()",
	"Uname":      "copyInto := func(d []int8, s string) {\n\t\t\tfor i := 0; i < len(s) && i+1 < len(d); i++ {\n\t\t\t\td[i] = int8(s[i])\n\t\t\t}\n\t\t}\n\t\t*buf = Utsname{}\n\t\tcopyInto(buf.Sysname[:], \"Linux\")\n\t\tcopyInto(buf.Nodename[:], h.Nodename())\n\t\treturn nil",
	"Kill":       "return h.Denied(\"kill\", \"\")",
	"Mkdirat":    "return h.Mkdirat(dirfd, path, mode)",
	"Mknodat":    "return h.Denied(\"mknod\", path)",
	"read":       "return h.Read(fd, p)",
	"write":      "return h.Write(fd, p)",
	"pread":      "return h.Pread(fd, p, offset)",
	"pwrite":     "return h.Pwrite(fd, p, offset)",
	"Fstat":      "return h.Fstat(fd, stat)",
	"fstatat":    "return h.Fstatat(fd, path, stat, flags)",
	"Ftruncate":  "return h.Ftruncate(fd, length)",
	"Truncate":   "return h.Truncate(path, length)",
	"Renameat":   "return h.Renameat(olddirfd, oldpath, newdirfd, newpath)",
	"Seek":       "return h.Seek(fd, offset, whence)",
	"sendfile":   "return 0, ENOSYS",
	"Splice":     "return 0, ENOSYS",
	"socket":     "return -1, h.Denied(\"socket\", \"\")",
	"pipe2":      "return h.Denied(\"pipe\", \"\")",
	"Mount":      "",
	"mount":      "return h.Denied(\"mount\", target)",
	"Unmount":    "return h.Denied(\"umount\", target)",
}

func mustRead(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		fatal(err)
	}
	return string(b)
}

// stdOverlay writes the patched files of the Go distribution and of x/tools below out and adds them to the overlay.
func stdOverlay(goroot, xtools, out string, replace map[string]string) {
	files := map[string]string{}
	load := func(f string) (string, string) {
		real := filepath.Join(goroot, "src", f)
		if strings.HasPrefix(f, "x/tools:") {
			real = filepath.Join(xtools, strings.TrimPrefix(f, "x/tools:"))
		}
		if s, ok := files[real]; ok {
			return real, s
		}
		return real, mustRead(real)
	}
	for _, e := range stdEdits {
		real, s := load(e.file)
		if n := strings.Count(s, e.old); n != 1 {
			fatal(fmt.Errorf("patch of %s: %d matches for %q", e.file, n, e.old))
		}
		files[real] = strings.Replace(s, e.old, e.new, 1)
	}
	// the simulator's own maps and slices are none of the race detector's business
	hook := regexp.MustCompile(`\brace(read|write)(range)?pc\(`)
	for _, n := range []string{"map", "map_fast32", "map_fast64", "map_faststr", "slice", "string"} {
		real, s := load("runtime/" + n + ".go")
		files[real] = hook.ReplaceAllString(s, "simrace$1${2}pc(")
	}
	real, s := load("syscall/zsyscall_linux_amd64.go")
	done := map[string]bool{}
	re := regexp.MustCompile(`(?m)^func (\w+)\(.*\{$`)
	s = re.ReplaceAllStringFunc(s, func(line string) string {
		name := re.FindStringSubmatch(line)[1]
		body := zsys[name]
		if body == "" {
			return line
		}
		done[name] = true
		return line + "\n\tif h := SimActive(); h != nil {\n\t\t" + body + "\n\t}"
	})
	for n, b := range zsys {
		if b != "" && !done[n] {
			fatal(fmt.Errorf("syscall wrapper %s not found", n))
		}
	}
	files[real] = s
	for f, c := range stdNew {
		files[filepath.Join(goroot, "src", f)] = c
	}
	n := 0
	for real, c := range files {
		n++
		p := filepath.Join(out, "std", strings.ReplaceAll(strings.TrimPrefix(real, "/"), "/", "__"))
		writeIfChanged(p, c)
		replace[real] = p
	}
}
