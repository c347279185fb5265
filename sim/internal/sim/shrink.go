package sim

import (
	"encoding/json"
	"reflect"
	"sort"
	"time"

	"verifsim/internal/proj"
)

// Shrink makes a failing case smaller as long as it fails in the same way.
func Shrink(e *Env, c *Case, v *Violation, dur time.Duration) (*Case, *Violation, int) {
	s := &shrinker{e: e, best: c.Clone(), v: v, end: time.Now().Add(dur)}
	s.schedule()
	for {
		n := s.size()
		s.lists()
		s.scalars()
		s.schedule()
		if s.size() >= n || s.over() {
			break
		}
	}
	return s.best, s.v, s.tried
}

type shrinker struct {
	e     *Env
	best  *Case
	v     *Violation
	end   time.Time
	tried int
}

func (s *shrinker) over() bool { return time.Now().After(s.end) }

func (s *shrinker) size() int {
	b, _ := json.Marshal(s.best)
	return len(b)
}

// try keeps a smaller case if it still fails.
func (s *shrinker) try(c *Case) bool {
	if s.over() {
		return false
	}
	s.tried++
	c = c.Clone()
	v, why, err := Safe(s.e, c)
	Collect(1 << 30)
	if err != nil || why != "" || v == nil || v.Class != s.v.Class {
		return false
	}
	s.best, s.v = c, v
	return true
}

// schedule turns a random schedule into a list of switches and shortens that.
func (s *shrinker) schedule() {
	b := s.best
	if !b.Sched.Replay {
		if b.Sched.SwitchP == 0 {
			return
		}
		c := b.Clone()
		c.Sched = Sched{}
		if s.try(c) {
			return
		}
		if v, why, err := Safe(s.e, b.Clone()); v == nil || why != "" || err != nil || len(s.e.Switches) == 0 || len(s.e.Switches) >= 1<<14 {
			return
		}
		sw := append([]uint64(nil), s.e.Switches...)
		c = b.Clone()
		c.Sched = Sched{Seed: b.Sched.Seed, Replay: true, Forced: sw}
		if !s.try(c) {
			return
		}
	}
	for n := (len(s.best.Sched.Forced) + 1) / 2; n > 0; n /= 2 {
		for i := 0; i < len(s.best.Sched.Forced) && !s.over(); {
			c := s.best.Clone()
			f := c.Sched.Forced
			j := min(len(f), i+n)
			c.Sched.Forced = append(append([]uint64(nil), f[:i]...), f[j:]...)
			if !s.try(c) {
				i += n
			}
		}
	}
}

// lists removes elements of the lists in a case.
func (s *shrinker) lists() {
	get := []func(c *Case) []reflect.Value{
		func(c *Case) []reflect.Value { return rv(&c.Attempts) },
		func(c *Case) []reflect.Value { return rv(&c.Acts) },
		func(c *Case) []reflect.Value { return rv(&c.Plan) },
		func(c *Case) []reflect.Value { return rv(&c.PM) },
		func(c *Case) (l []reflect.Value) {
			for i := range c.PM {
				l = append(l, rv(&c.PM[i])...)
			}
			return
		},
		func(c *Case) (l []reflect.Value) {
			for i := range c.Attempts {
				for j := range c.Attempts[i].Plans {
					l = append(l, rv(&c.Attempts[i].Plans[j])...)
				}
			}
			return
		},
		func(c *Case) (l []reflect.Value) {
			for _, sv := range c.Svcs {
				l = append(l, rv(&sv.Outputs)...)
				l = append(l, rv(&sv.Old)...)
				l = append(l, rv(&sv.Deny)...)
				l = append(l, rv(&sv.DenyRe)...)
				l = append(l, rv(&sv.DenyFn)...)
				l = append(l, rv(&sv.Spec.Extra)...)
			}
			return
		},
	}
	for _, g := range get {
		s.each(g)
	}
	s.services()
	// parts of the projects
	drop := func(list func(sp *proj.Spec) []*bool) {
		for i := range s.best.Svcs {
			n := len(list(s.best.Svcs[i].Spec))
			for j := 0; j < n && !s.over(); j++ {
				c := s.best.Clone()
				f := list(c.Svcs[i].Spec)
				if j < len(f) && !*f[j] {
					*f[j] = true
					s.try(c)
				}
			}
		}
	}
	drop(func(sp *proj.Spec) (l []*bool) {
		for i := range sp.Handlers {
			l = append(l, &sp.Handlers[i].Drop)
		}
		return
	})
	body := func(fs []proj.Func) (l []*bool) {
		for i := range fs {
			if !fs[i].Drop {
				for j := range fs[i].Body {
					l = append(l, &fs[i].Body[j].Drop)
				}
			}
		}
		return
	}
	drop(func(sp *proj.Spec) []*bool { return body(sp.Handlers) })
	drop(func(sp *proj.Spec) []*bool { return body(sp.Helpers) })
	drop(func(sp *proj.Spec) (l []*bool) {
		for i := range sp.Helpers {
			l = append(l, &sp.Helpers[i].Drop)
		}
		for i := range sp.Types {
			l = append(l, &sp.Types[i].Drop)
		}
		for i := range sp.Consts {
			l = append(l, &sp.Consts[i].Drop)
		}
		return
	})
	drop(func(sp *proj.Spec) (l []*bool) {
		for i := range sp.Types {
			if !sp.Types[i].Drop {
				for j := range sp.Types[i].Fields {
					l = append(l, &sp.Types[i].Fields[j].Drop)
				}
			}
		}
		return
	})
}

func rv[T any](l *[]T) []reflect.Value { return []reflect.Value{reflect.ValueOf(l).Elem()} }

// each removes elements from lists, the last ones first.
func (s *shrinker) each(get func(c *Case) []reflect.Value) {
	for k := 0; k < len(get(s.best)); k++ {
		for i := get(s.best)[k].Len() - 1; i >= 0 && !s.over(); i-- {
			c := s.best.Clone()
			ls := get(c)
			if k >= len(ls) || i >= ls[k].Len() {
				continue
			}
			l := ls[k]
			l.Set(reflect.AppendSlice(l.Slice(0, i), l.Slice(i+1, l.Len())))
			s.try(c)
			if k >= len(get(s.best)) {
				break
			}
		}
	}
}

// services removes whole services and what is done with them.
func (s *shrinker) services() {
	for i := len(s.best.Svcs) - 1; i >= 0 && len(s.best.Svcs) > 1 && !s.over(); i-- {
		c := s.best.Clone()
		c.Svcs = append(c.Svcs[:i], c.Svcs[i+1:]...)
		var acts []Act
		for _, a := range c.Acts {
			if a.Svc == i {
				continue
			}
			if a.Svc > i {
				a.Svc--
			}
			acts = append(acts, a)
		}
		c.Acts = acts
		s.try(c)
	}
}

// scalars sets simple values to zero.
func (s *shrinker) scalars() {
	type path func(c *Case) []reflect.Value
	get := []path{
		func(c *Case) (l []reflect.Value) {
			l = append(l, leaves(reflect.ValueOf(&c.Seams).Elem())...)
			for i := range c.Attempts {
				a := &c.Attempts[i]
				l = append(l, leaves(reflect.ValueOf(&a.Seams).Elem())...)
				l = append(l, reflect.ValueOf(&a.Sched).Elem(), reflect.ValueOf(&a.Wipe).Elem(), reflect.ValueOf(&a.Keep).Elem(), reflect.ValueOf(&a.Moved).Elem())
			}
			return
		},
		func(c *Case) (l []reflect.Value) {
			for _, sv := range c.Svcs {
				l = append(l, reflect.ValueOf(&sv.Builder).Elem(), reflect.ValueOf(&sv.Types).Elem(), reflect.ValueOf(&sv.Inputs).Elem(), reflect.ValueOf(&sv.Log).Elem())
				cf := reflect.ValueOf(sv.Config).Elem()
				for i := 0; i < cf.NumField(); i++ {
					if n := cf.Type().Field(i).Name; n != "Port" && n != "Secure" && cf.Field(i).CanSet() {
						l = append(l, cf.Field(i))
					}
				}
				sp := sv.Spec
				l = append(l, reflect.ValueOf(&sp.MainTest).Elem(), reflect.ValueOf(&sp.Aliases).Elem(), reflect.ValueOf(&sp.Groups).Elem())
				fn := func(fs []proj.Func) {
					for i := range fs {
						l = append(l, reflect.ValueOf(&fs[i].Doc).Elem())
						for j := range fs[i].Body {
							st := &fs[i].Body[j]
							l = append(l, reflect.ValueOf(&st.If).Elem(), reflect.ValueOf(&st.In).Elem(), reflect.ValueOf(&st.Lit).Elem(), reflect.ValueOf(&st.Src).Elem())
						}
					}
				}
				fn(sp.Handlers)
				fn(sp.Helpers)
				for i := range sp.Types {
					l = append(l, reflect.ValueOf(&sp.Types[i].Doc).Elem())
					for j := range sp.Types[i].Fields {
						f := &sp.Types[i].Fields[j]
						l = append(l, reflect.ValueOf(&f.Doc).Elem(), reflect.ValueOf(&f.Tag).Elem())
					}
				}
			}
			return
		},
	}
	for _, g := range get {
		for i := 0; i < len(g(s.best)) && !s.over(); i++ {
			c := s.best.Clone()
			f := g(c)[i]
			if f.IsZero() {
				continue
			}
			f.SetZero()
			s.try(c)
		}
	}
}

func leaves(v reflect.Value) (l []reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		l = append(l, v.Field(i))
	}
	return
}

// TopWhy lists the most common reasons of rejection.
func TopWhy(m map[string]int, n int) map[string]int {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] || m[ks[i]] == m[ks[j]] && ks[i] < ks[j] })
	if len(ks) > n {
		ks = ks[:n]
	}
	out := map[string]int{}
	for _, k := range ks {
		out[k] = m[k]
	}
	return out
}
