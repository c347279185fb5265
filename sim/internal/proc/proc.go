// Package proc is the simulated operating system: processes whose system calls act on a simulated disk,
// with faults placed at chosen calls.
package proc

import (
	"fmt"
	"path"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"verifsim/internal/vfs"
)

// Seams are the environment's choices that must not matter.
type Seams struct {
	MapMode  uint32 `json:"mapMode,omitempty"`
	MapSeed  uint64 `json:"mapSeed,omitempty"`
	RandSeed uint64 `json:"randSeed,omitempty"`
	DirSeed  uint64 `json:"dirSeed,omitempty"`
	LoadSeed uint64 `json:"loadSeed,omitempty"`
	Clock    int64  `json:"clock,omitempty"`
	ClockInc int64  `json:"clockInc,omitempty"`
	Pid      int    `json:"pid,omitempty"`
	Env      uint64 `json:"env,omitempty"` // the environment and the name of the host
}

// Fault is one planned fault: at the Nth call Op on Path, or at the At-th system call of a process.
type Fault struct {
	At    int    `json:"at,omitempty"`
	Op    string `json:"op,omitempty"`
	Path  string `json:"path,omitempty"`
	Nth   int    `json:"nth,omitempty"`
	Kind  string `json:"kind"` // errno short torn closelost crash-before crash-after crash-torn diskfull fdlimit iodead load
	Errno int    `json:"errno,omitempty"`
	Arg   int    `json:"arg,omitempty"`
	Load  string `json:"load,omitempty"`
}

func (f Fault) String() string {
	s := f.Kind
	if f.Errno != 0 {
		s += "(" + syscall.Errno(f.Errno).Error() + ")"
	}
	if f.Load != "" {
		s += "(" + f.Load + ")"
	}
	if f.Arg != 0 {
		s += fmt.Sprintf("[%d]", f.Arg)
	}
	if f.Op != "" {
		return fmt.Sprintf("%s at %s %s #%d", s, f.Op, f.Path, f.Nth)
	}
	return fmt.Sprintf("%s at call %d", s, f.At)
}

// Event is one system call.
type Event struct {
	Op    int
	Name  string
	Path  string
	Path2 string
	Nth   int // how many calls of this kind on this path so far
	N     int
	Errno syscall.Errno
	Mut   bool
	New   bool // created Path
	Fault string
}

func (e Event) String() string {
	s := fmt.Sprintf("%d %s %s", e.Op, e.Name, e.Path)
	if e.Path2 != "" {
		s += " -> " + e.Path2
	}
	if e.N != 0 {
		s += fmt.Sprintf(" n=%d", e.N)
	}
	if e.Errno != 0 {
		s += fmt.Sprintf(" errno=%d(%s)", int(e.Errno), e.Errno.Error())
	}
	if e.Fault != "" {
		s += " FAULT " + e.Fault
	}
	return s
}

type fdesc struct {
	node  *vfs.Node
	path  string
	off   int64
	flags int
	dents []dent
	dpos  int
	wrote bool
	prev  []byte // contents before the last write
	last  []byte // contents after it
}

type dent struct {
	name string
	node *vfs.Node
}

const fdBase = 1 << 20

// Proc is a simulated process.
type Proc struct {
	ID     uint64
	FS     *vfs.FS
	Seams  Seams
	Events []Event
	Out    []byte
	// After is called after every system call.
	After func(p *Proc, e *Event)
	// Funcs maps entry points of stand-in handlers to names and positions.
	Funcs map[uintptr]FuncInfo
	// Scratch for the loader.
	Loader any

	mu      lock
	plan    []Fault
	seen    map[string]int
	fds     map[int]*fdesc
	nextFD  int
	cwd     *vfs.Node
	cwdPath string
	nops    int
	opCap   int
	cur     []Fault
	dead    bool
	live    int // programs that have not ended
	done    atomic.Bool

	Exited   bool
	ExitCode int
	Crashed  bool
	Hang     string
	Panic    string
	Stack    string
	Fired    map[string]int
	full     bool
	budget   int
	fdLimit  int
	ioDead   string
	now      int64
	loads    int
	crashAt  Event
}

// FuncInfo names a function.
type FuncInfo struct {
	Name string
	File string
	Line int
}

// New makes a process with a working directory.
func New(id uint64, fs *vfs.FS, cwd string, seams Seams, plan []Fault) *Proc {
	p := &Proc{ID: id, FS: fs, Seams: seams, plan: plan, seen: map[string]int{}, fds: map[int]*fdesc{}, nextFD: fdBase, opCap: 20000, Fired: map[string]int{}, fdLimit: -1}
	l, e := fs.Resolve(fs.Root, "/", cwd, true)
	if e != 0 || l.Node == nil {
		panic("proc: no working directory " + cwd)
	}
	p.cwd, p.cwdPath = l.Node, l.Path
	p.now = seams.Clock
	if p.now == 0 {
		p.now = 1700000000_000000000
	}
	return p
}

var table [64]*Proc

// Current returns the process of the calling goroutine.
func Current() *Proc {
	id := runtime.SimID()
	if id == 0 || id >= uint64(len(table)) {
		return nil
	}
	return table[id]
}

// Real has the functions of a program that runs on the real system.
var Real *Proc

func init() {
	runtime.SimFunc = func(entry uintptr) (string, string, int, bool) {
		p := Current()
		if p == nil {
			p = Real
		}
		if p == nil || p.Funcs == nil {
			return "", "", 0, false
		}
		f, ok := p.Funcs[entry]
		return f.Name, f.File, f.Line, ok
	}
	time.SimNow = func() (int64, int32, bool) {
		p := Current()
		if p == nil {
			return 0, 0, false
		}
		n := p.clock()
		return n / 1e9, int32(n % 1e9), true
	}
	runtime.SimSleep = func(ns int64) {
		if p := Current(); p != nil {
			p.mu.Lock()
			p.now += ns
			p.mu.Unlock()
		}
	}
	runtime.SimHang = func() {
		if p := Current(); p != nil && !p.dead {
			p.Hang = "statement limit"
			p.die()
		}
	}
}

func (p *Proc) clock() int64 {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.now += 1 + p.Seams.ClockInc
	return p.now
}

// StopFaults ends all faults.
func (p *Proc) StopFaults() {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.plan, p.full, p.fdLimit, p.ioDead = nil, false, -1, ""
}

// SimTime returns the simulated time.
func (p *Proc) SimTime() int64 { return p.now }

// Ops returns the number of system calls made.
func (p *Proc) Ops() int { return p.nops }

// Prog is started in a process.
type Prog struct {
	P *Proc
	F func()
}

// SchedStats describes a run's schedule.
type SchedStats struct {
	Yields, Picks uint64
	Switches      []uint64
	Steps         uint64
}

// Run runs programs concurrently (in their processes) until none can make progress.
func Run(schedSeed uint64, switchP uint32, replay bool, forced []uint64, progs ...Prog) SchedStats {
	runtime.SimResetSteps()
	for _, pr := range progs {
		p := pr.P
		table[p.ID] = p
		syscall.SimTable[p.ID] = p
		p.live++
		runtime.SimDead[p.ID&63] = false
	}
	runtime.SimSeed(progs[0].P.Seams.RandSeed, progs[0].P.Seams.MapSeed, progs[0].P.Seams.MapMode)
	runtime.SimSchedStart(schedSeed, switchP, replay, forced)
	for _, pr := range progs {
		pr := pr
		runtime.SimSetID(pr.P.ID)
		go func() {
			p := pr.P
			defer func() {
				raceLeave()
				p.mu.Lock()
				p.live--
				if p.live == 0 {
					p.done.Store(true)
				}
				p.mu.Unlock()
			}()
			defer func() {
				if r := recover(); r != nil {
					p.mu.Lock()
					if !p.dead {
						p.Panic = fmt.Sprint(r)
						b := make([]byte, 16384)
						p.Stack = string(b[:runtime.Stack(b, false)])
						p.dead = true
					}
					p.mu.Unlock()
				}
			}()
			pr.F()
			p.mu.Lock()
			if p.live == 1 {
				p.dead = true // the process is over; goroutines it leaves behind stop at their next call
			}
			p.mu.Unlock()
		}()
		runtime.SimSetID(0)
	}
	idle := 0
	for {
		runtime.Gosched()
		all := true
		for _, pr := range progs {
			if !pr.P.done.Load() {
				all = false
			}
		}
		if all {
			break
		}
		// nothing simulated is runnable (simulated goroutines have priority): blocked, or waiting for a timer
		idle++
		time.Sleep(time.Millisecond)
		if idle > 2000 {
			for _, pr := range progs {
				if !pr.P.done.Load() && pr.P.Hang == "" {
					pr.P.Hang = "all goroutines blocked"
				}
			}
			break
		}
	}
	var st SchedStats
	st.Steps = runtime.SimSteps()
	st.Yields, st.Picks, st.Switches = runtime.SimSchedNow()
	// what is left of the processes ends before anything else runs
	for _, pr := range progs {
		pr.P.dead = true
		runtime.SimDead[pr.P.ID&63] = true
	}
	for i := 0; i < 4; i++ {
		runtime.Gosched()
	}
	runtime.SimSchedStop()
	raceJoin()
	return st
}

// die ends the calling goroutine's process as a kill would.
func (p *Proc) die() {
	p.dead = true
	p.done.Store(true)
	runtime.Goexit()
}

// OpenFDs lists open descriptors (paths), sorted.
func (p *Proc) OpenFDs() []string {
	var out []string
	for _, f := range p.fds {
		out = append(out, f.path)
	}
	sort.Strings(out)
	return out
}

// Cwd returns the working directory.
func (p *Proc) Cwd() string { return p.cwdPath }

func has(fs []Fault, kinds ...string) *Fault {
	for i := range fs {
		for _, k := range kinds {
			if fs[i].Kind == k {
				return &fs[i]
			}
		}
	}
	return nil
}

func (p *Proc) fire(e *Event, what string) {
	if e.Fault != "" {
		e.Fault += "+"
	}
	e.Fault += what
	p.Fired[what+":"+e.Name]++
}

// do runs one system call. body performs it and returns its result; f is the fault placed inside it (short,
// torn) if any.
func (p *Proc) do(name, pth, pth2 string, faultable bool, body func(e *Event, f *Fault) (int, syscall.Errno)) (int, syscall.Errno) {
	runtime.SimYield()
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.dead {
		runtime.Goexit()
	}
	p.nops++
	p.now += 1000 + p.Seams.ClockInc
	if p.nops > p.opCap {
		p.Hang = "system call limit"
		p.die()
	}
	key := name + " " + pth
	p.seen[key]++
	e := Event{Op: p.nops, Name: name, Path: pth, Path2: pth2, Nth: p.seen[key]}
	var fs []Fault
	for _, f := range p.plan {
		if f.Op == "" && f.At == p.nops || f.Op == name && f.Path == pth && (f.Nth == e.Nth || f.Nth == 0) {
			fs = append(fs, f)
		}
	}
	p.cur = fs
	if f := has(fs, "diskfull"); f != nil && !p.full {
		p.full, p.budget = true, f.Arg
		p.Fired["diskfull:on"]++
	}
	if f := has(fs, "fdlimit"); f != nil && p.fdLimit < 0 {
		p.fdLimit = f.Arg
		p.Fired["fdlimit:on"]++
	}
	if f := has(fs, "iodead"); f != nil && p.ioDead == "" {
		p.ioDead = path.Dir(pth)
		p.Fired["iodead:on"]++
	}
	if f := has(fs, "crash-before"); f != nil {
		p.fire(&e, "crash-before")
		p.crash(e)
	}
	var n int
	var en syscall.Errno
	if f := has(fs, "errno"); f != nil && faultable && name != "close" {
		en = syscall.Errno(f.Errno)
		p.fire(&e, "errno"+fmt.Sprint(f.Errno))
	} else if p.ioDead != "" && faultable && name != "close" && (pth == p.ioDead || strings.HasPrefix(pth, p.ioDead+"/")) {
		en = syscall.EIO
		p.fire(&e, "iodead")
	} else {
		n, en = body(&e, has(fs, "short", "torn", "crash-torn", "errno", "closelost"))
	}
	if en != 0 {
		e.Errno = en
		e.Mut = e.Mut && n > 0
	}
	e.N = n
	p.Events = append(p.Events, e)
	if p.After != nil {
		p.After(p, &p.Events[len(p.Events)-1])
	}
	if f := has(fs, "crash-after", "crash-torn"); f != nil {
		p.fire(&p.Events[len(p.Events)-1], f.Kind)
		p.crash(e)
	}
	return n, en
}

func (p *Proc) crash(e Event) {
	p.Crashed = true
	p.crashAt = e
	if e.Fault == "crash-before" {
		p.Events = append(p.Events, e)
	}
	p.die()
}

func errOf(e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	return e
}

func (p *Proc) base(dirfd int) (*vfs.Node, string, syscall.Errno) {
	if dirfd == -100 {
		return p.cwd, p.cwdPath, 0
	}
	f := p.fds[dirfd]
	if f == nil {
		return nil, "", syscall.EBADF
	}
	if f.node.Kind != vfs.Dir {
		return nil, "", syscall.ENOTDIR
	}
	return f.node, f.path, 0
}

func (p *Proc) resolve(dirfd int, pth string, follow bool) (vfs.Loc, syscall.Errno) {
	if strings.IndexByte(pth, 0) >= 0 {
		return vfs.Loc{}, syscall.EINVAL
	}
	b, bp, e := p.base(dirfd)
	if e != 0 && !strings.HasPrefix(pth, "/") {
		return vfs.Loc{}, e
	}
	return p.FS.Resolve(b, bp, pth, follow)
}

// abs names a path for the log even if it does not resolve.
func (p *Proc) abs(dirfd int, pth string, follow bool) string {
	if l, e := p.resolve(dirfd, pth, follow); e == 0 {
		return l.Path
	}
	if strings.HasPrefix(pth, "/") {
		return path.Clean(pth)
	}
	_, bp, _ := p.base(dirfd)
	return path.Join(bp, pth)
}

func (p *Proc) attached(n *vfs.Node, pth string) bool {
	return p.FS.Lookup(pth) == n
}

func writable(n *vfs.Node) bool { return n.Perm&0200 != 0 && n.Perm&0100 != 0 }

func (p *Proc) grow(n int) (int, syscall.Errno) {
	if !p.full {
		return n, 0
	}
	if p.budget <= 0 {
		return 0, syscall.ENOSPC
	}
	if n > p.budget {
		n = p.budget
		p.budget = 0
		return n, 0
	}
	p.budget -= n
	return n, 0
}

// --- syscall.SimHooks ---

// Exit ends the process.
func (p *Proc) Exit(code int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if !p.dead {
		p.Exited, p.ExitCode = true, code
	}
	p.die()
}

// Denied reports a call the simulated system does not offer.
func (p *Proc) Denied(op, arg string) error {
	_, e := p.do("denied-"+op, arg, "", false, func(e *Event, f *Fault) (int, syscall.Errno) {
		e.Mut = true
		return 0, syscall.EPERM
	})
	return errOf(e)
}

// Faccessat checks access.
func (p *Proc) Faccessat(dirfd int, pth string, mode uint32) error {
	_, e := p.do("access", p.abs(dirfd, pth, true), "", true, func(e *Event, f *Fault) (int, syscall.Errno) {
		l, en := p.resolve(dirfd, pth, true)
		if en != 0 {
			return 0, en
		}
		if l.Node == nil {
			return 0, syscall.ENOENT
		}
		if mode&^(l.Node.Perm>>6) != 0 {
			return 0, syscall.EACCES
		}
		return 0, 0
	})
	return errOf(e)
}

// Fchmodat changes permissions.
func (p *Proc) Fchmodat(dirfd int, pth string, mode uint32) error {
	_, e := p.do("chmod", p.abs(dirfd, pth, true), "", true, func(e *Event, f *Fault) (int, syscall.Errno) {
		l, en := p.resolve(dirfd, pth, true)
		if en != 0 {
			return 0, en
		}
		if l.Node == nil {
			return 0, syscall.ENOENT
		}
		e.Mut = l.Node.Perm != mode&07777
		l.Node.Perm = mode & 07777
		return 0, 0
	})
	return errOf(e)
}

// Linkat makes a hard link.
func (p *Proc) Linkat(olddirfd int, oldpath string, newdirfd int, newpath string) error {
	_, e := p.do("link", p.abs(olddirfd, oldpath, false), p.abs(newdirfd, newpath, false), true, func(e *Event, f *Fault) (int, syscall.Errno) {
		a, en := p.resolve(olddirfd, oldpath, false)
		if en != 0 {
			return 0, en
		}
		b, en := p.resolve(newdirfd, newpath, false)
		if en != 0 {
			return 0, en
		}
		switch {
		case a.Node == nil:
			return 0, syscall.ENOENT
		case a.Node.Kind == vfs.Dir:
			return 0, syscall.EPERM
		case b.Node != nil:
			return 0, syscall.EEXIST
		case !writable(b.Parent):
			return 0, syscall.EACCES
		}
		b.Parent.Ents[b.Name] = a.Node
		a.Node.Nlink++
		e.Mut = true
		return 0, 0
	})
	return errOf(e)
}

// Openat opens a file.
func (p *Proc) Openat(dirfd int, pth string, flags int, mode uint32) (int, error) {
	follow := flags&syscall.O_NOFOLLOW == 0 && flags&(syscall.O_CREAT|syscall.O_EXCL) != syscall.O_CREAT|syscall.O_EXCL
	name := "open"
	if flags&syscall.O_ACCMODE != syscall.O_RDONLY {
		name = "openw"
	}
	if flags&syscall.O_CREAT != 0 {
		name = "create"
	}
	fd, e := p.do(name, p.abs(dirfd, pth, follow), "", true, func(e *Event, f *Fault) (int, syscall.Errno) {
		if p.fdLimit >= 0 && len(p.fds) >= p.fdLimit {
			p.fire(e, "fdlimit")
			return -1, syscall.EMFILE
		}
		l, en := p.resolve(dirfd, pth, follow)
		if en != 0 {
			return -1, en
		}
		n := l.Node
		acc := flags & syscall.O_ACCMODE
		if n == nil {
			if flags&syscall.O_CREAT == 0 {
				return -1, syscall.ENOENT
			}
			if l.Parent == nil || l.Parent.Kind != vfs.Dir {
				return -1, syscall.ENOENT
			}
			if !writable(l.Parent) {
				return -1, syscall.EACCES
			}
			if p.full && p.budget <= 0 {
				p.fire(e, "diskfull")
				return -1, syscall.ENOSPC
			}
			n = p.FS.NewNode(vfs.File, mode&07777&^022, p.now)
			l.Parent.Ents[l.Name] = n
			e.Mut, e.New = true, true
		} else {
			if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
				return -1, syscall.EEXIST
			}
			switch n.Kind {
			case vfs.Link:
				return -1, syscall.ELOOP
			case vfs.Dir:
				if acc != syscall.O_RDONLY || flags&syscall.O_CREAT != 0 {
					return -1, syscall.EISDIR
				}
			case vfs.File:
				if flags&syscall.O_DIRECTORY != 0 {
					return -1, syscall.ENOTDIR
				}
			}
			if acc != syscall.O_WRONLY && n.Perm&0400 == 0 {
				return -1, syscall.EACCES
			}
			if acc != syscall.O_RDONLY && n.Perm&0200 == 0 {
				return -1, syscall.EACCES
			}
			if flags&syscall.O_TRUNC != 0 && n.Kind == vfs.File && acc != syscall.O_RDONLY {
				if p.full {
					p.budget += len(n.Data)
				}
				n.Data = nil
				n.MTime = p.now
				e.Mut = true
			}
		}
		d := &fdesc{node: n, path: l.Path, flags: flags}
		if n.Kind == vfs.Dir {
			for _, k := range n.Names() {
				d.dents = append(d.dents, dent{k, n.Ents[k]})
			}
			if s := p.Seams.DirSeed; s != 0 {
				s ^= hash(l.Path)
				for i := len(d.dents) - 1; i > 0; i-- {
					s = s*6364136223846793005 + 1442695040888963407
					j := int((s >> 33) % uint64(i+1))
					d.dents[i], d.dents[j] = d.dents[j], d.dents[i]
				}
			}
		}
		fd := p.nextFD
		p.nextFD++
		p.fds[fd] = d
		return fd, 0
	})
	if e != 0 {
		return -1, e
	}
	return fd, nil
}

func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Readlinkat reads a link.
func (p *Proc) Readlinkat(dirfd int, pth string, buf []byte) (int, error) {
	n, e := p.do("readlink", p.abs(dirfd, pth, false), "", true, func(e *Event, f *Fault) (int, syscall.Errno) {
		l, en := p.resolve(dirfd, pth, false)
		if en != 0 {
			return 0, en
		}
		if l.Node == nil {
			return 0, syscall.ENOENT
		}
		if l.Node.Kind != vfs.Link {
			return 0, syscall.EINVAL
		}
		return copy(buf, l.Node.Target), 0
	})
	return n, errOf(e)
}

// Symlinkat makes a symbolic link.
func (p *Proc) Symlinkat(oldpath string, newdirfd int, newpath string) error {
	_, e := p.do("symlink", p.abs(newdirfd, newpath, false), "", true, func(e *Event, f *Fault) (int, syscall.Errno) {
		l, en := p.resolve(newdirfd, newpath, false)
		if en != 0 {
			return 0, en
		}
		if l.Node != nil {
			return 0, syscall.EEXIST
		}
		if !writable(l.Parent) {
			return 0, syscall.EACCES
		}
		n := p.FS.NewNode(vfs.Link, 0777, p.now)
		n.Target = oldpath
		l.Parent.Ents[l.Name] = n
		e.Mut, e.New = true, true
		return 0, 0
	})
	return errOf(e)
}

// Unlinkat removes a name.
func (p *Proc) Unlinkat(dirfd int, pth string, flags int) error {
	name := "unlink"
	if flags&0x200 != 0 {
		name = "rmdir"
	}
	_, e := p.do(name, p.abs(dirfd, pth, false), "", true, func(e *Event, f *Fault) (int, syscall.Errno) {
		l, en := p.resolve(dirfd, pth, false)
		if en != 0 {
			return 0, en
		}
		if l.Node == nil {
			return 0, syscall.ENOENT
		}
		if l.Parent == nil {
			return 0, syscall.EBUSY
		}
		if !writable(l.Parent) {
			return 0, syscall.EACCES
		}
		if name == "rmdir" {
			if l.Node.Kind != vfs.Dir {
				return 0, syscall.ENOTDIR
			}
			if len(l.Node.Ents) > 0 {
				return 0, syscall.ENOTEMPTY
			}
		} else if l.Node.Kind == vfs.Dir {
			return 0, syscall.EISDIR
		}
		if p.full {
			p.budget += len(l.Node.Data)
		}
		delete(l.Parent.Ents, l.Name)
		l.Node.Nlink--
		e.Mut = true
		return 0, 0
	})
	return errOf(e)
}

// Utimensat sets times.
func (p *Proc) Utimensat(dirfd int, pth string) error {
	_, e := p.do("utimes", p.abs(dirfd, pth, true), "", true, func(e *Event, f *Fault) (int, syscall.Errno) {
		l, en := p.resolve(dirfd, pth, true)
		if en != 0 {
			return 0, en
		}
		if l.Node == nil {
			return 0, syscall.ENOENT
		}
		l.Node.MTime = p.now
		return 0, 0
	})
	return errOf(e)
}

// Getcwd returns the working directory.
func (p *Proc) Getcwd(buf []byte) (int, error) {
	n, e := p.do("getcwd", p.cwdPath, "", true, func(e *Event, f *Fault) (int, syscall.Errno) {
		if !p.attached(p.cwd, p.cwdPath) {
			return 0, syscall.ENOENT
		}
		if len(buf) < len(p.cwdPath)+1 {
			return 0, syscall.ERANGE
		}
		copy(buf, p.cwdPath)
		buf[len(p.cwdPath)] = 0
		return len(p.cwdPath) + 1, 0
	})
	return n, errOf(e)
}

// Chdir changes the working directory.
func (p *Proc) Chdir(pth string) error {
	_, e := p.do("chdir", p.abs(-100, pth, true), "", true, func(e *Event, f *Fault) (int, syscall.Errno) {
		l, en := p.resolve(-100, pth, true)
		if en != 0 {
			return 0, en
		}
		if l.Node == nil {
			return 0, syscall.ENOENT
		}
		if l.Node.Kind != vfs.Dir {
			return 0, syscall.ENOTDIR
		}
		p.cwd, p.cwdPath = l.Node, l.Path
		return 0, 0
	})
	return errOf(e)
}

// Fchdir changes the working directory.
func (p *Proc) Fchdir(fd int) error {
	_, e := p.do("fchdir", p.fdPath(fd), "", true, func(e *Event, f *Fault) (int, syscall.Errno) {
		d := p.fds[fd]
		if d == nil {
			return 0, syscall.EBADF
		}
		p.cwd, p.cwdPath = d.node, d.path
		return 0, 0
	})
	return errOf(e)
}

func (p *Proc) fdPath(fd int) string {
	if fd <= 2 {
		return fmt.Sprintf("<std%d>", fd)
	}
	if d := p.fds[fd]; d != nil {
		return d.path
	}
	return "<badfd>"
}

// Close closes a descriptor.
func (p *Proc) Close(fd int) error {
	_, e := p.do("close", p.fdPath(fd), "", true, func(e *Event, f *Fault) (int, syscall.Errno) {
		if fd <= 2 {
			return 0, 0
		}
		d := p.fds[fd]
		if d == nil {
			return 0, syscall.EBADF
		}
		delete(p.fds, fd)
		if d.wrote {
			e.Path2 = "<written>"
		}
		if f != nil && f.Kind == "errno" && f.Errno != int(syscall.EINTR) {
			p.fire(e, "errno"+fmt.Sprint(f.Errno))
			return 0, syscall.Errno(f.Errno)
		}
		if f != nil && f.Kind == "closelost" && d.wrote && string(d.node.Data) == string(d.last) {
			// the write was buffered and is lost when it cannot be flushed
			d.node.Data = d.prev
			e.Mut = true
			p.fire(e, "closelost")
			return 1, syscall.EIO
		}
		return 0, 0
	})
	return errOf(e)
}

// Dup duplicates a descriptor.
func (p *Proc) Dup(fd int) (int, error) {
	n, e := p.do("dup", p.fdPath(fd), "", true, func(e *Event, f *Fault) (int, syscall.Errno) {
		d := p.fds[fd]
		if d == nil {
			return -1, syscall.EBADF
		}
		nf := p.nextFD
		p.nextFD++
		c := *d
		p.fds[nf] = &c
		return nf, 0
	})
	return n, errOf(e)
}

// Fchmod changes permissions.
func (p *Proc) Fchmod(fd int, mode uint32) error {
	_, e := p.do("fchmod", p.fdPath(fd), "", true, func(e *Event, f *Fault) (int, syscall.Errno) {
		d := p.fds[fd]
		if d == nil {
			return 0, syscall.EBADF
		}
		e.Mut = d.node.Perm != mode&07777
		d.node.Perm = mode & 07777
		return 0, 0
	})
	return errOf(e)
}

// Fchown changes the owner (to the same single user).
func (p *Proc) Fchown(pth string, fd int) error {
	_, e := p.do("chown", pth, "", true, func(e *Event, f *Fault) (int, syscall.Errno) { return 0, 0 })
	return errOf(e)
}

// Fcntl controls a descriptor.
func (p *Proc) Fcntl(fd int, cmd int, arg int) (int, error) {
	n, e := p.do("fcntl", p.fdPath(fd), "", false, func(e *Event, f *Fault) (int, syscall.Errno) {
		if fd <= 2 {
			return 2, 0
		}
		d := p.fds[fd]
		if d == nil {
			return -1, syscall.EBADF
		}
		if cmd == syscall.F_GETFL {
			return d.flags, 0
		}
		if cmd == syscall.F_DUPFD || cmd == syscall.F_DUPFD_CLOEXEC {
			nf := p.nextFD
			p.nextFD++
			c := *d
			p.fds[nf] = &c
			return nf, 0
		}
		return 0, 0
	})
	return n, errOf(e)
}

// Fsync flushes a file.
func (p *Proc) Fsync(fd int) error {
	_, e := p.do("fsync", p.fdPath(fd), "", true, func(e *Event, f *Fault) (int, syscall.Errno) {
		if p.fds[fd] == nil && fd > 2 {
			return 0, syscall.EBADF
		}
		return 0, 0
	})
	return errOf(e)
}

// Flock locks a file (there is one process).
func (p *Proc) Flock(fd int, how int) error {
	_, e := p.do("flock", p.fdPath(fd), "", true, func(e *Event, f *Fault) (int, syscall.Errno) { return 0, 0 })
	return errOf(e)
}

// Getdents lists a directory.
func (p *Proc) Getdents(fd int, buf []byte) (int, error) {
	n, e := p.do("getdents", p.fdPath(fd), "", true, func(e *Event, f *Fault) (int, syscall.Errno) {
		d := p.fds[fd]
		if d == nil {
			return 0, syscall.EBADF
		}
		if d.node.Kind != vfs.Dir {
			return 0, syscall.ENOTDIR
		}
		n := 0
		for d.dpos < len(d.dents) {
			en := d.dents[d.dpos]
			rl := (19 + len(en.name) + 1 + 7) &^ 7
			if n+rl > len(buf) {
				break
			}
			b := buf[n : n+rl]
			for i := range b {
				b[i] = 0
			}
			*(*uint64)(unsafe.Pointer(&b[0])) = en.node.Ino
			*(*int64)(unsafe.Pointer(&b[8])) = int64(d.dpos + 1)
			*(*uint16)(unsafe.Pointer(&b[16])) = uint16(rl)
			switch en.node.Kind {
			case vfs.Dir:
				b[18] = syscall.DT_DIR
			case vfs.File:
				b[18] = syscall.DT_REG
			case vfs.Link:
				b[18] = syscall.DT_LNK
			}
			copy(b[19:], en.name)
			n += rl
			d.dpos++
		}
		return n, 0
	})
	return n, errOf(e)
}

// Getpid returns the process id.
func (p *Proc) Getpid() int {
	if p.Seams.Pid != 0 {
		return p.Seams.Pid
	}
	return 4242
}

// Environ is the environment of the process.
func (p *Proc) Environ() []string {
	x := p.Seams.Env
	if x == 0 {
		return []string{"HOME=/home/u", "LANG=C.UTF-8", "PATH=/usr/local/bin:/usr/bin:/bin", "USER=u"}
	}
	pick := func(i uint, l ...string) string { return l[x>>(4*i)%uint64(len(l))] }
	env := []string{"HOME=" + pick(0, "/root", "/home/ci", ""), "LANG=" + pick(1, "de_DE.UTF-8", "C", "tr_TR"), "PATH=/bin", "USER=" + pick(2, "root", "ci"), fmt.Sprintf("RUN_ID=%d", x%99991)}
	pwd := p.Cwd()
	if x>>40%3 == 0 {
		// started by a process whose directory is another one
		pwd = pick(11, "/", "/home/u", pwd+"/types", "/nowhere")
	}
	for i, e := range []string{"CI=true", "PWD=" + pwd, "TMPDIR=/var/lib", "TZ=Asia/Tokyo", "GOFLAGS=-mod=mod", "GIN_MODE=release", "NO_COLOR=1", "DEBUG=1", "GOPATH=/home/u/go", "GO111MODULE=on", "TERM=dumb"} {
		if x>>(20+i)&1 == 1 {
			env = append(env, e)
		}
	}
	return env
}

// Getenv looks a variable of the environment up.
func (p *Proc) Getenv(key string) (string, bool) {
	for _, e := range p.Environ() {
		if k, v, _ := strings.Cut(e, "="); k == key {
			return v, true
		}
	}
	return "", false
}

// Nodename is the name of the host.
func (p *Proc) Nodename() string {
	if x := p.Seams.Env; x != 0 {
		return fmt.Sprintf("runner-%d", x%1009)
	}
	return "host"
}

// Mkdirat makes a directory.
func (p *Proc) Mkdirat(dirfd int, pth string, mode uint32) error {
	_, e := p.do("mkdir", p.abs(dirfd, pth, false), "", true, func(e *Event, f *Fault) (int, syscall.Errno) {
		l, en := p.resolve(dirfd, strings.TrimRight(pth, "/"), false)
		if en != 0 {
			return 0, en
		}
		if l.Node != nil {
			return 0, syscall.EEXIST
		}
		if l.Parent == nil {
			return 0, syscall.ENOENT
		}
		if !writable(l.Parent) {
			return 0, syscall.EACCES
		}
		if p.full && p.budget <= 0 {
			p.fire(e, "diskfull")
			return 0, syscall.ENOSPC
		}
		l.Parent.Ents[l.Name] = p.FS.NewNode(vfs.Dir, mode&07777&^022, p.now)
		e.Mut, e.New = true, true
		return 0, 0
	})
	return errOf(e)
}

// Read reads from a descriptor.
func (p *Proc) Read(fd int, b []byte) (int, error) { return p.readAt(fd, b, -1) }

// Pread reads at an offset.
func (p *Proc) Pread(fd int, b []byte, off int64) (int, error) { return p.readAt(fd, b, off) }

func (p *Proc) readAt(fd int, b []byte, off int64) (int, error) {
	n, e := p.do("read", p.fdPath(fd), "", true, func(e *Event, f *Fault) (int, syscall.Errno) {
		if fd <= 2 {
			return 0, 0
		}
		d := p.fds[fd]
		if d == nil || d.flags&syscall.O_ACCMODE == syscall.O_WRONLY {
			return 0, syscall.EBADF
		}
		if d.node.Kind == vfs.Dir {
			return 0, syscall.EISDIR
		}
		o := off
		if o < 0 {
			o = d.off
		}
		if o >= int64(len(d.node.Data)) {
			return 0, 0
		}
		dst := b
		if f != nil && f.Kind == "short" && len(dst) > 1 {
			k := 1 + f.Arg%len(dst)
			if k < len(dst) && int64(k) < int64(len(d.node.Data))-o {
				dst = dst[:k]
				p.fire(e, "short")
			}
		}
		n := copy(dst, d.node.Data[o:])
		if off < 0 {
			d.off += int64(n)
		}
		return n, 0
	})
	if e != 0 {
		return -1, e
	}
	return n, nil
}

// Write writes to a descriptor.
func (p *Proc) Write(fd int, b []byte) (int, error) { return p.writeAt(fd, b, -1) }

// Pwrite writes at an offset.
func (p *Proc) Pwrite(fd int, b []byte, off int64) (int, error) { return p.writeAt(fd, b, off) }

func (p *Proc) writeAt(fd int, b []byte, off int64) (int, error) {
	name := "write"
	if fd <= 2 {
		name = "log"
	}
	n, e := p.do(name, p.fdPath(fd), "", true, func(e *Event, f *Fault) (int, syscall.Errno) {
		if fd <= 2 {
			if len(p.Out) < 1<<16 {
				p.Out = append(p.Out, b...)
			}
			return len(b), 0
		}
		d := p.fds[fd]
		if d == nil || d.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
			return 0, syscall.EBADF
		}
		o := off
		if o < 0 {
			o = d.off
			if d.flags&syscall.O_APPEND != 0 {
				o = int64(len(d.node.Data))
			}
		}
		src := b
		var after syscall.Errno
		if f != nil && len(src) > 0 {
			switch f.Kind {
			case "short":
				if len(src) > 1 {
					k := 1 + f.Arg%(len(src)-1)
					src = src[:k]
					p.fire(e, "short")
				}
			case "torn":
				src = src[:f.Arg%len(src)]
				after = syscall.Errno(f.Errno)
				p.fire(e, "torn")
			case "crash-torn":
				src = src[:f.Arg%len(src)]
			}
		}
		if len(src) > 0 {
			g, en := p.grow(len(src))
			if en != 0 {
				p.fire(e, "diskfull")
				return 0, en
			}
			src = src[:g]
		}
		nd := append([]byte(nil), d.node.Data...)
		for int64(len(nd)) < o {
			nd = append(nd, 0)
		}
		nd = append(nd[:o], append(append([]byte(nil), src...), tail(nd, int(o)+len(src))...)...)
		d.prev, d.last = d.node.Data, nd
		d.node.Data = nd
		d.node.MTime = p.now
		if off < 0 {
			d.off = o + int64(len(src))
		}
		e.Mut = len(src) > 0
		d.wrote = true
		if after != 0 {
			// the bytes reached the disk although the call reports a failure
			return len(src), after
		}
		return len(src), 0
	})
	if e != 0 {
		return -1, e
	}
	return n, nil
}

func tail(b []byte, from int) []byte {
	if from >= len(b) {
		return nil
	}
	return b[from:]
}

func fillStat(n *vfs.Node, st *syscall.Stat_t) {
	*st = syscall.Stat_t{}
	st.Dev = 1
	st.Ino = n.Ino
	st.Nlink = uint64(n.Nlink)
	st.Size = int64(len(n.Data))
	st.Mode = n.Perm
	switch n.Kind {
	case vfs.Dir:
		st.Mode |= syscall.S_IFDIR
		st.Size = 4096
	case vfs.File:
		st.Mode |= syscall.S_IFREG
	case vfs.Link:
		st.Mode |= syscall.S_IFLNK
		st.Size = int64(len(n.Target))
	}
	st.Uid, st.Gid = 1000, 1000
	st.Blksize = 4096
	st.Mtim = syscall.NsecToTimespec(n.MTime)
	st.Ctim, st.Atim = st.Mtim, st.Mtim
}

// Fstat describes an open file.
func (p *Proc) Fstat(fd int, st *syscall.Stat_t) error {
	_, e := p.do("fstat", p.fdPath(fd), "", false, func(e *Event, f *Fault) (int, syscall.Errno) {
		if fd <= 2 {
			*st = syscall.Stat_t{Mode: syscall.S_IFCHR | 0600, Nlink: 1}
			return 0, 0
		}
		d := p.fds[fd]
		if d == nil {
			return 0, syscall.EBADF
		}
		fillStat(d.node, st)
		return 0, 0
	})
	return errOf(e)
}

// Fstatat describes a path.
func (p *Proc) Fstatat(dirfd int, pth string, st *syscall.Stat_t, flags int) error {
	follow := flags&0x100 == 0
	_, e := p.do("stat", p.abs(dirfd, pth, follow), "", true, func(e *Event, f *Fault) (int, syscall.Errno) {
		l, en := p.resolve(dirfd, pth, follow)
		if en != 0 {
			return 0, en
		}
		if l.Node == nil {
			return 0, syscall.ENOENT
		}
		fillStat(l.Node, st)
		return 0, 0
	})
	return errOf(e)
}

func (p *Proc) truncNode(n *vfs.Node, size int64) {
	if size < int64(len(n.Data)) {
		n.Data = append([]byte(nil), n.Data[:size]...)
	} else if size < 1<<24 {
		n.Data = append(append([]byte(nil), n.Data...), make([]byte, size-int64(len(n.Data)))...)
	}
}

// Ftruncate truncates an open file.
func (p *Proc) Ftruncate(fd int, n int64) error {
	_, e := p.do("ftruncate", p.fdPath(fd), "", true, func(e *Event, f *Fault) (int, syscall.Errno) {
		d := p.fds[fd]
		if d == nil {
			return 0, syscall.EBADF
		}
		e.Mut = int64(len(d.node.Data)) != n
		p.truncNode(d.node, n)
		return 0, 0
	})
	return errOf(e)
}

// Truncate truncates a file.
func (p *Proc) Truncate(pth string, n int64) error {
	_, e := p.do("truncate", p.abs(-100, pth, true), "", true, func(e *Event, f *Fault) (int, syscall.Errno) {
		l, en := p.resolve(-100, pth, true)
		if en != 0 {
			return 0, en
		}
		if l.Node == nil {
			return 0, syscall.ENOENT
		}
		if l.Node.Perm&0200 == 0 {
			return 0, syscall.EACCES
		}
		e.Mut = int64(len(l.Node.Data)) != n
		p.truncNode(l.Node, n)
		return 0, 0
	})
	return errOf(e)
}

// Renameat renames.
func (p *Proc) Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) error {
	_, e := p.do("rename", p.abs(olddirfd, oldpath, false), p.abs(newdirfd, newpath, false), true, func(e *Event, f *Fault) (int, syscall.Errno) {
		a, en := p.resolve(olddirfd, strings.TrimRight(oldpath, "/"), false)
		if en != 0 {
			return 0, en
		}
		b, en := p.resolve(newdirfd, strings.TrimRight(newpath, "/"), false)
		if en != 0 {
			return 0, en
		}
		switch {
		case a.Node == nil:
			return 0, syscall.ENOENT
		case a.Parent == nil || b.Parent == nil:
			return 0, syscall.EBUSY
		case a.Node == b.Node:
			return 0, 0
		case !writable(a.Parent) || !writable(b.Parent):
			return 0, syscall.EACCES
		case a.Node.Kind == vfs.Dir && (b.Path == a.Path || strings.HasPrefix(b.Path, a.Path+"/")):
			return 0, syscall.EINVAL
		}
		if b.Node != nil {
			if a.Node.Kind == vfs.Dir && b.Node.Kind != vfs.Dir {
				return 0, syscall.ENOTDIR
			}
			if a.Node.Kind != vfs.Dir && b.Node.Kind == vfs.Dir {
				return 0, syscall.EISDIR
			}
			if b.Node.Kind == vfs.Dir && len(b.Node.Ents) > 0 {
				return 0, syscall.ENOTEMPTY
			}
			if p.full {
				p.budget += len(b.Node.Data)
			}
			b.Node.Nlink--
		} else {
			e.New = true
		}
		delete(a.Parent.Ents, a.Name)
		b.Parent.Ents[b.Name] = a.Node
		e.Mut = true
		return 0, 0
	})
	return errOf(e)
}

// Seek moves the offset.
func (p *Proc) Seek(fd int, off int64, whence int) (int64, error) {
	n, e := p.do("seek", p.fdPath(fd), "", false, func(e *Event, f *Fault) (int, syscall.Errno) {
		d := p.fds[fd]
		if d == nil {
			return -1, syscall.EBADF
		}
		switch whence {
		case 0:
			d.off = off
		case 1:
			d.off += off
		case 2:
			d.off = int64(len(d.node.Data)) + off
		}
		if d.node.Kind == vfs.Dir {
			d.dpos = 0
		}
		return int(d.off), 0
	})
	return int64(n), errOf(e)
}

// Load is one call of the package loader: an operation of the process like any system call. It returns the
// fault placed on it.
func (p *Proc) Load(pattern string) (fault string) {
	p.do("load", pattern, "", false, func(e *Event, f *Fault) (int, syscall.Errno) {
		p.loads++
		for _, f := range p.cur {
			if f.Kind == "load" {
				fault = f.Load
				p.fire(e, "load-"+f.Load)
			}
		}
		return 0, 0
	})
	return fault
}

// NextLoad returns the number of loads made so far.
func (p *Proc) NextLoad() int { return p.loads }

// ReadHost reads a file of the simulated disk for the loader; permissions apply.
func (p *Proc) ReadHost(pth string) ([]byte, error) {
	n := p.FS.Lookup(pth)
	if n == nil {
		return nil, syscall.ENOENT
	}
	if n.Kind != vfs.File {
		return nil, syscall.EISDIR
	}
	if n.Perm&0400 == 0 {
		return nil, syscall.EACCES
	}
	return n.Data, nil
}

// CrashAt returns the call during which the process was killed.
func (p *Proc) CrashAt() Event { return p.crashAt }
