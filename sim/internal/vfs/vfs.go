// Package vfs is the simulated disk: an in-memory tree of directories, files and symbolic links.
package vfs

import (
	"path"
	"sort"
	"strings"
	"syscall"
)

// Kind of a node.
type Kind uint8

// Node kinds.
const (
	Dir Kind = iota
	File
	Link
)

// Node is an inode.
type Node struct {
	Ino    uint64
	Kind   Kind
	Perm   uint32
	Data   []byte // never modified in place
	Ents   map[string]*Node
	Target string
	MTime  int64
	Nlink  int
}

// FS is a disk.
type FS struct {
	Root *Node
	next uint64
}

// New returns an empty disk.
func New() *FS {
	f := &FS{next: 2}
	f.Root = &Node{Ino: 1, Kind: Dir, Perm: 0755, Ents: map[string]*Node{}, Nlink: 2}
	return f
}

// NewNode allocates an inode.
func (f *FS) NewNode(k Kind, perm uint32, now int64) *Node {
	n := &Node{Ino: f.next, Kind: k, Perm: perm, MTime: now, Nlink: 1}
	f.next++
	if k == Dir {
		n.Ents = map[string]*Node{}
	}
	return n
}

// Clone copies the disk.
func (f *FS) Clone() *FS {
	seen := map[*Node]*Node{}
	var cp func(n *Node) *Node
	cp = func(n *Node) *Node {
		if m, ok := seen[n]; ok {
			return m
		}
		m := &Node{Ino: n.Ino, Kind: n.Kind, Perm: n.Perm, Data: n.Data, Target: n.Target, MTime: n.MTime, Nlink: n.Nlink}
		seen[n] = m
		if n.Ents != nil {
			m.Ents = make(map[string]*Node, len(n.Ents))
			for k, c := range n.Ents {
				m.Ents[k] = cp(c)
			}
		}
		return m
	}
	return &FS{Root: cp(f.Root), next: f.next}
}

// Loc is a resolved path: the directory that holds the name, and the node (nil if absent).
type Loc struct {
	Parent *Node
	Name   string
	Node   *Node
	Path   string // physical path, symbolic links of the parents resolved
}

// Resolve walks a path from the directory base (physical path basePath).
func (f *FS) Resolve(base *Node, basePath, p string, follow bool) (Loc, syscall.Errno) {
	links := 0
	return f.resolve(base, basePath, p, follow, &links)
}

func (f *FS) resolve(base *Node, basePath, p string, follow bool, links *int) (Loc, syscall.Errno) {
	if p == "" {
		return Loc{}, syscall.ENOENT
	}
	if len(p) > 4096 {
		return Loc{}, syscall.ENAMETOOLONG
	}
	type frame struct {
		n *Node
		p string
	}
	var stack []frame
	if p[0] == '/' {
		stack = []frame{{f.Root, "/"}}
	} else {
		// rebuild the chain of the base directory
		stack = []frame{{f.Root, "/"}}
		cur := f.Root
		cp := "/"
		for _, c := range strings.Split(strings.Trim(basePath, "/"), "/") {
			if c == "" {
				continue
			}
			cp = path.Join(cp, c)
			var next *Node
			if cur != nil && cur.Ents != nil {
				next = cur.Ents[c]
			}
			cur = next
			stack = append(stack, frame{next, cp})
		}
		stack[len(stack)-1].n = base
	}
	trailing := strings.HasSuffix(p, "/")
	comps := []string{}
	for _, c := range strings.Split(p, "/") {
		if c != "" && c != "." {
			comps = append(comps, c)
		}
	}
	if len(comps) == 0 {
		t := stack[len(stack)-1]
		loc := Loc{Node: t.n, Path: t.p, Name: path.Base(t.p)}
		if len(stack) > 1 {
			loc.Parent = stack[len(stack)-2].n
		}
		return loc, 0
	}
	for i := 0; i < len(comps); i++ {
		c := comps[i]
		last := i == len(comps)-1
		top := stack[len(stack)-1]
		if top.n == nil {
			return Loc{}, syscall.ENOENT
		}
		if top.n.Kind != Dir {
			return Loc{}, syscall.ENOTDIR
		}
		if top.n.Perm&0100 == 0 {
			return Loc{}, syscall.EACCES
		}
		if c == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			if last {
				t := stack[len(stack)-1]
				loc := Loc{Node: t.n, Path: t.p, Name: path.Base(t.p)}
				if len(stack) > 1 {
					loc.Parent = stack[len(stack)-2].n
				}
				return loc, 0
			}
			continue
		}
		if len(c) > 255 {
			return Loc{}, syscall.ENAMETOOLONG
		}
		n := top.n.Ents[c]
		if n != nil && n.Kind == Link && (!last || follow || trailing) {
			*links++
			if *links > 40 {
				return Loc{}, syscall.ELOOP
			}
			rest := strings.Join(append([]string{n.Target}, comps[i+1:]...), "/")
			if trailing {
				rest += "/"
			}
			return f.resolve(top.n, top.p, rest, follow, links)
		}
		if last {
			if trailing && n != nil && n.Kind != Dir {
				return Loc{}, syscall.ENOTDIR
			}
			return Loc{Parent: top.n, Name: c, Node: n, Path: path.Join(top.p, c)}, 0
		}
		stack = append(stack, frame{n, path.Join(top.p, c)})
	}
	panic("unreachable")
}

// --- host-side access, without permissions or faults ---

// Lookup finds an absolute path (following links); nil if absent.
func (f *FS) Lookup(p string) *Node {
	l, e := f.Resolve(f.Root, "/", p, true)
	if e != 0 {
		return nil
	}
	return l.Node
}

// Lstat finds an absolute path without following a final link.
func (f *FS) Lstat(p string) *Node {
	l, e := f.Resolve(f.Root, "/", p, false)
	if e != 0 {
		return nil
	}
	return l.Node
}

// MkdirAll creates directories.
func (f *FS) MkdirAll(p string) *Node {
	cur := f.Root
	for _, c := range strings.Split(strings.Trim(path.Clean(p), "/"), "/") {
		if c == "" {
			continue
		}
		n := cur.Ents[c]
		if n == nil {
			n = f.NewNode(Dir, 0755, 0)
			cur.Ents[c] = n
		}
		if n.Kind == Link {
			n = f.Lookup(path.Join("/", n.Target))
		}
		cur = n
	}
	return cur
}

// WriteFile puts a file.
func (f *FS) WriteFile(p string, data []byte, perm uint32) {
	d := f.MkdirAll(path.Dir(p))
	n := d.Ents[path.Base(p)]
	if n != nil && n.Kind == Link {
		f.WriteFile(path.Join(path.Dir(p), n.Target), data, perm)
		return
	}
	if n == nil || n.Kind != File {
		n = f.NewNode(File, perm, 0)
		d.Ents[path.Base(p)] = n
	}
	n.Perm = perm
	n.Data = append([]byte(nil), data...)
}

// Symlink puts a symbolic link.
func (f *FS) Symlink(p, target string) {
	d := f.MkdirAll(path.Dir(p))
	n := f.NewNode(Link, 0777, 0)
	n.Target = target
	d.Ents[path.Base(p)] = n
}

// Remove removes a path (and what is below it).
func (f *FS) Remove(p string) {
	l, e := f.Resolve(f.Root, "/", p, false)
	if e == 0 && l.Node != nil && l.Parent != nil {
		delete(l.Parent.Ents, l.Name)
	}
}

// Names returns the sorted names in a directory.
func (n *Node) Names() []string {
	out := make([]string, 0, len(n.Ents))
	for k := range n.Ents {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Entry is one path of a tree listing.
type Entry struct {
	Kind   Kind
	Perm   uint32
	Data   string
	Target string
}

// Tree lists everything below (and including) p: path -> entry.
func (f *FS) Tree(p string) map[string]Entry {
	out := map[string]Entry{}
	var walk func(n *Node, p string)
	walk = func(n *Node, p string) {
		out[p] = Entry{n.Kind, n.Perm, string(n.Data), n.Target}
		for _, k := range n.Names() {
			walk(n.Ents[k], path.Join(p, k))
		}
	}
	if n := f.Lstat(p); n != nil {
		walk(n, p)
	}
	return out
}
