package sim

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"time"

	"verifsim/internal/proc"
	"verifsim/internal/proj"
	"verifsim/internal/vfs"
)

// ConformCase is a generation that runs both in the simulator and for real.
type ConformCase struct {
	Svc   *Svc   `json:"svc"`
	Edits []Edit `json:"edits,omitempty"`
}

type realRec struct {
	OK  bool   `json:"ok"`
	Err string `json:"err"`
}

// Real runs a role of a case on the real system: real files, the real loader and the go command.
func Real(file, role string) {
	var c ConformCase
	b, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, &c)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	syscall.Umask(022)
	fs := vfs.New()
	fs.MkdirAll(c.Svc.Cwd)
	p := proc.New(1, fs, c.Svc.Cwd, proc.Seams{}, nil)
	proc.Real = p
	runtime.SimFuncs = true
	rec := &Rec{}
	c.Svc.Program(role, p, rec)()
	if !rec.OK {
		fmt.Fprintln(os.Stderr, "FAILED:", rec.Err)
		os.Exit(1)
	}
}

// Conform compares simulated generations with real ones in a scratch directory.
func Conform(n int, seed uint64, gomod, gosum, scratch string) bool {
	self, _ := os.Executable()
	ok := true
	stats := map[string]int{}
	for i := 0; i < n; i++ {
		r := &proj.Rng{S: proj.Mix(seed, uint64(i))}
		sv := randSvc(r, SvcOpt{Flows: []string{"parse", "two", "steps", "cli", "load"}, Azure: true, Old: r.P(1, 2)})
		top := filepath.Join(scratch, fmt.Sprint("c", i))
		b, _ := json.Marshal(sv)
		s := strings.ReplaceAll(string(b), `"/home/u`, `"`+top+`/home/u`)
		s = strings.ReplaceAll(s, `"/srv/`, `"`+top+`/srv/`)
		sv = &Svc{}
		if err := json.Unmarshal([]byte(s), sv); err != nil {
			panic(err)
		}
		sv.Spec.GoMod += "\n" + gomod
		c := ConformCase{Svc: sv}
		kind := "healthy"
		if r.P(1, 3) {
			c.Edits, _ = breakSource(r, sv)
			kind = "broken"
		}
		fs := vfs.New()
		fs.MkdirAll(top + "/home/u/other")
		sv.Install(fs)
		fs.WriteFile(strings.TrimSuffix(sv.Root, "/"+sv.Spec.Up)+"/go.sum", []byte(gosum), 0644)
		for _, ed := range c.Edits {
			if ed.Del {
				fs.Remove(filepath.Join(sv.Root, ed.Path))
			} else {
				fs.WriteFile(filepath.Join(sv.Root, ed.Path), []byte(ed.Data), 0644)
			}
		}
		if err := toDisk(fs, top); err != nil {
			panic(err)
		}
		file := filepath.Join(scratch, "case.json")
		b, _ = json.Marshal(c)
		_ = os.WriteFile(file, b, 0644)
		e := NewEnv()
		diff := ""
		for _, role := range sv.Roles() {
			pr := e.Process(sv, role, fs, proc.Seams{}, Sched{}, nil, nil)
			cmd := exec.Command(self, "real", file, role)
			cmd.Dir = sv.Cwd
			t := time.AfterFunc(120*time.Second, func() { _ = cmd.Process.Kill() })
			out, err := cmd.CombinedOutput()
			t.Stop()
			rv := "ok"
			if err != nil {
				rv = "error"
				if strings.Contains(string(out), "goroutine ") {
					rv = "panic"
				}
			}
			stats[kind+" "+role+" "+rv]++
			if pr.Verdict() != rv {
				diff = fmt.Sprintf("%s: simulated: %s; real: %s\n%s", role, pr.Why(), rv, lastLines(string(out), 6))
				break
			}
			rf := vfs.New()
			if err := fromDisk(rf, top); err != nil {
				panic(err)
			}
			if d := sameTree(rf, under1(fs, top), nil); d != "" {
				diff = role + ": really " + d
				break
			}
			if rv != "ok" {
				break
			}
		}
		if diff != "" {
			ok = false
			fmt.Printf("case %d (%s): %s\n", i, kind, diff)
			for _, ed := range c.Edits {
				fmt.Printf("   edit %s del=%v\n", ed.Path, ed.Del)
			}
			if os.Getenv("KEEP") != "" {
				fmt.Println("kept", top)
				return false
			}
		}
		_ = os.RemoveAll(top)
	}
	fmt.Println(n, "cases", stats)
	return ok
}

// under1 is the part of a disk below a directory.
func under1(fs *vfs.FS, top string) *vfs.FS {
	out := vfs.New()
	for k, en := range fs.Tree("/") {
		if !under(k, top) {
			continue
		}
		put(out, k, en)
	}
	return out
}

func put(fs *vfs.FS, k string, en vfs.Entry) {
	switch en.Kind {
	case vfs.Dir:
		fs.MkdirAll(k)
		fs.Lookup(k).Perm = en.Perm
	case vfs.File:
		fs.WriteFile(k, []byte(en.Data), en.Perm)
	default:
		fs.Symlink(k, en.Target)
	}
}

func toDisk(fs *vfs.FS, top string) error {
	t := fs.Tree("/")
	for _, k := range sortedKeys(t) {
		if !under(k, top) {
			continue
		}
		en := t[k]
		var err error
		switch en.Kind {
		case vfs.Dir:
			err = os.MkdirAll(k, 0755)
		case vfs.File:
			if err = os.WriteFile(k, []byte(en.Data), 0600); err == nil {
				err = os.Chmod(k, os.FileMode(en.Perm))
			}
		default:
			err = os.Symlink(en.Target, k)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func fromDisk(fs *vfs.FS, top string) error {
	return filepath.Walk(top, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		switch {
		case fi.IsDir():
			fs.MkdirAll(p)
		case fi.Mode()&os.ModeSymlink != 0:
			t, err := os.Readlink(p)
			if err != nil {
				return err
			}
			fs.Symlink(p, t)
		default:
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			fs.WriteFile(p, b, uint32(fi.Mode().Perm()))
		}
		return nil
	})
}
