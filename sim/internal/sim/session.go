package sim

import (
	"fmt"
	"path"
	"strings"

	"github.com/ls6-events/astra"

	"verifsim/internal/proc"
	"verifsim/internal/registry"
	"verifsim/internal/vfs"
)

// ActRec is what became of an act.
type ActRec struct {
	Rec      *Rec
	Before   *vfs.FS // the disk before it
	From, To int     // its system calls
	Base     []string
	After    []string // open descriptors
}

// Verdict of an act.
func (a *ActRec) Verdict() string {
	switch {
	case a.Rec.Panic != "":
		return "panic"
	case !a.Rec.Done:
		return "unfinished"
	case a.Rec.OK:
		return "ok"
	}
	return "error"
}

// Session is one process that does several things.
type Session struct {
	P    *proc.Proc
	St   proc.SchedStats
	Acts []*ActRec
}

// Bad reports a process that did not end by itself.
func (s *Session) Bad() string {
	switch {
	case s.P.Hang != "":
		return "hang: " + s.P.Hang
	case s.P.Panic != "":
		return "panic: " + s.P.Panic + "\n" + trimStack(s.P.Stack)
	case s.P.Exited:
		return fmt.Sprintf("exit status %d", s.P.ExitCode)
	}
	return ""
}

// sessionState is shared by the acts of a session.
type sessionState struct {
	svcs map[int]*astra.Service
}

// program performs an act.
func (sv *Svc) act(p *proc.Proc, a Act, rec *Rec, st *sessionState) {
	r := &runner{sv: sv, rec: rec, p: p}
	switch a.Do {
	case "run":
		r.s = astra.New(sv.cacheOpt(sv.options(p, true))...)
		st.svcs[a.Svc] = r.s
		rec.OK = r.flow(sv.Flow)
	case "again":
		r.s = st.svcs[a.Svc]
		if r.s == nil {
			r.s = astra.New(sv.cacheOpt(sv.options(p, true))...)
			st.svcs[a.Svc] = r.s
		}
		rec.OK = r.flow(sv.Flow)
	case "abandon":
		r.s = astra.New(sv.cacheOpt(sv.options(p, true))...)
		st.svcs[a.Svc] = r.s
		rec.OK = r.first(a.N)
	case "register": // more routes on the routers of the service
		if st.svcs[a.Svc] != nil {
			sv.registerNext(a.N)
		}
		rec.OK = true
	case "config": // another configuration
		if s := st.svcs[a.Svc]; s != nil {
			s.SetConfig(sv.reconfigured(a.N).config())
		}
		rec.OK = true
	case "second":
		rec.OK = r.second()
	case "load", "clear", "cache", "loadpath":
		r.s = st.svcs[a.Svc]
		if r.s == nil {
			r.s = astra.New(sv.cacheOpt(sv.options(p, true))...)
		}
		s := r.s
		switch a.Do {
		case "load":
			rec.OK = r.step("LoadCache", s.LoadCache)
		case "loadpath":
			rec.OK = r.step("LoadCacheFromCustomPath", func() error { return s.LoadCacheFromCustomPath(sv.CachePath()) })
		case "clear":
			rec.OK = r.step("ClearCache", s.ClearCache)
		default:
			rec.OK = r.step("Cache", s.Cache)
		}
		// a load forgets the functions; the next act starts with a new service
		delete(st.svcs, a.Svc)
	default:
		panic("unknown act " + a.Do)
	}
}

// Session runs the acts of a case in one process: one after the other, or all at once.
func (e *Env) Session(c *Case, fs *vfs.FS, cwd string, acts []Act, plan []proc.Fault, obs Observer) *Session {
	registry.Reset()
	p := proc.New(1, fs, cwd, c.Seams, plan)
	if obs != nil {
		p.After = func(p *proc.Proc, ev *proc.Event) { obs("session", p, ev) }
	}
	s := &Session{P: p}
	for range acts {
		s.Acts = append(s.Acts, &ActRec{Rec: &Rec{}})
	}
	st := &sessionState{svcs: map[int]*astra.Service{}}
	sources := map[int]*Svc{} // after an edit
	one := func(i int) {
		a, ar := acts[i], s.Acts[i]
		ended := false
		defer func() {
			if x := recover(); x != nil {
				ar.Rec.Panic = fmt.Sprint(x) + "\n" + trimStack(stackOf())
				ended = true
			}
			ar.Rec.Done = ended
			ar.To = p.Ops()
			ar.After = p.OpenFDs()
		}()
		if a.Calm {
			p.StopFaults()
		}
		ar.From = p.Ops()
		ar.Base = p.OpenFDs()
		if a.Do == "edit" {
			if a.N > 0 {
				before := sources[a.Svc]
				if before == nil {
					before = c.Svcs[a.Svc]
				}
				sources[a.Svc] = c.Svcs[a.Svc].edited(a.N)
				sources[a.Svc].save(fs, before)
			}
			for _, ed := range a.Edits {
				pth := ed.Path
				if !strings.HasPrefix(pth, "/") {
					pth = path.Join(c.Svcs[a.Svc].Root, pth)
				}
				if ed.Del {
					fs.Remove(pth)
				} else {
					fs.WriteFile(pth, []byte(ed.Data), 0644)
				}
			}
			ar.Rec.OK = true
			ended = true
			return
		}
		if a.Do == "install" { // the sources of a service replace those of the others in the same place
			for _, o := range c.Svcs {
				if o.Root == c.Svcs[a.Svc].Root {
					for n := range o.Rend().Files {
						fs.Remove(path.Join(o.Root, n))
					}
				}
			}
			c.Svcs[a.Svc].installSources(fs)
			ar.Rec.OK = true
			ended = true
			return
		}
		c.Svcs[a.Svc].act(p, a, ar.Rec, st)
		ended = true
	}
	var progs []proc.Prog
	if c.Parallel {
		for i := range acts {
			i := i
			progs = append(progs, proc.Prog{P: p, F: func() { one(i) }})
		}
		s.St = proc.Run(c.Sched.Seed, c.Sched.SwitchP, c.Sched.Replay, c.Sched.Forced, progs...)
	} else {
		progs = append(progs, proc.Prog{P: p, F: func() {
			for i := range acts {
				s.Acts[i].Before = fs.Clone()
				one(i)
			}
		}})
		s.St = proc.Run(c.Sched.Seed, c.Sched.SwitchP, c.Sched.Replay, c.Sched.Forced, progs...)
	}
	if c.Parallel && !e.quiet {
		e.Switches = s.St.Switches
		e.nontriv = e.nontriv || len(s.St.Switches) > 0
	}
	e.account(p, s.St)
	e.digestTree(fs)
	return s
}
