package sim

import (
	"fmt"
	"go/ast"
	"go/token"
	"sort"
	"strconv"
	"strings"

	"github.com/ls6-events/astra/astTraversal"

	"verifsim/internal/proc"
	"verifsim/internal/registry"
	"verifsim/internal/vfs"
)

func init() {
	register(&Property{ID: "C11", Make: makeC11, Run: runC11})
}

// pmUniverses have paths that overlap in all the ways import paths do.
var pmUniverses = [][]string{
	{"a", "a/b", "a/b/c", "a/bc", "b", "b/a"},
	{"fmt", "net/http", "net", "net/http/httptest", "net/url"},
	{"github.com/acme/api", "github.com/acme/api/v1/types", "github.com/acme/api/v2/types", "github.com/acme/app", "github.com", "github.com/acme"},
	{"x/x", "x/x/x", "x", "x/x/x/x", "y/x"},
	{"example.com/shop/a", "example.com/shop/b", "example.com/shop/c", "example.com/shop/d", "example.com/shop"},
}

func makeC11(e *Env, r *Rng, c *Case) {
	u := pmUniverses[r.N(len(pmUniverses))]
	if r.P(1, 3) { // few paths, much contention
		u = u[:2+r.N(2)]
	}
	n := r.PickI(2, 2, 3, 3, 4)
	for i := 0; i < n; i++ {
		var ops []PMOp
		for j, m := 0, 1+r.N(7); j < m; j++ {
			o := PMOp{Op: r.Pick("add", "add", "find", "find", "findOrAdd", "findOrAdd", "imports"), Path: u[r.N(len(u))]}
			if o.Op == "imports" {
				for k := r.N(4); k > 0; k-- {
					o.Path += "," + u[r.N(len(u))]
				}
			}
			ops = append(ops, o)
		}
		c.PM = append(c.PM, ops)
	}
	c.Sched = Sched{Seed: r.U64(), SwitchP: uint32(r.PickI(600, 3000, 8000, 20000, 40000))}
}

// pmCall is an operation that returned.
type pmCall struct {
	op        string
	path      string
	call, ret int
	node      *astTraversal.PackageNode
	says      string // the path the node reports
}

func pmAncestors(p string) (l []string) {
	l = append(l, p)
	for i := len(p) - 1; i > 0; i-- {
		if p[i] == '/' {
			l = append(l, p[:i])
		}
	}
	return l
}

func runC11(e *Env, c *Case) {
	registry.Reset()
	p := proc.New(1, vfs.New(), "/", c.Seams, nil)
	pm := astTraversal.NewPackageManager("/")
	clock := 0
	hist := make([][]pmCall, len(c.PM))
	var progs []proc.Prog
	for t := range c.PM {
		t := t
		progs = append(progs, proc.Prog{P: p, F: func() {
			for _, o := range c.PM[t] {
				paths := strings.Split(o.Path, ",")
				clock++
				at := clock
				var nodes []*astTraversal.PackageNode
				switch o.Op {
				case "add":
					nodes = append(nodes, pm.AddPackage(o.Path))
				case "find":
					nodes = append(nodes, pm.Find(o.Path))
				case "findOrAdd":
					nodes = append(nodes, pm.FindOrAdd(o.Path))
				case "imports":
					var specs []*ast.ImportSpec
					for _, q := range paths {
						specs = append(specs, &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(q)}})
					}
					for _, fi := range pm.MapImportSpecs(specs) {
						nodes = append(nodes, fi.Package)
					}
				}
				clock++
				ret := clock
				for i, n := range nodes {
					hc := pmCall{op: o.Op, path: paths[i], call: at, ret: ret, node: n}
					if n != nil {
						hc.says = n.Path()
					}
					hist[t] = append(hist[t], hc)
				}
			}
		}})
	}
	st := proc.Run(c.Sched.Seed, c.Sched.SwitchP, c.Sched.Replay, c.Sched.Forced, progs...)
	e.account(p, st)
	e.Switches = st.Switches
	if p.Hang != "" {
		violate(c, "hang", "%s", p.Hang)
	}
	if p.Panic != "" {
		violate(c, "panic", "%s\n%s", p.Panic, trimStack(p.Stack))
	}
	if len(st.Switches) > 0 {
		e.Probe("interleaved")
	}
	show := func() string {
		var b strings.Builder
		for t, h := range hist {
			for _, o := range h {
				fmt.Fprintf(&b, " [g%d %d-%d %s(%s)=%v]", t, o.call, o.ret, o.op, o.path, o.node != nil)
			}
		}
		return b.String()
	}
	// identity
	byPath, byNode := map[string]*astTraversal.PackageNode{}, map[*astTraversal.PackageNode]string{}
	added := map[string]bool{}
	overlap := false
	for t, h := range hist {
		for _, o := range h {
			if o.op != "find" {
				for _, a := range pmAncestors(o.path) {
					added[a] = true
				}
			}
			for u := t + 1; u < len(hist); u++ {
				for _, q := range hist[u] {
					if o.call < q.ret && q.call < o.ret {
						overlap = true
					}
				}
			}
			if o.node == nil {
				if o.op != "find" {
					violate(c, "node", "%s(%s) returns no node", o.op, o.path)
				}
				continue
			}
			if o.says != o.path {
				violate(c, "path", "the node of %s(%s) says its path is %s", o.op, o.path, o.says)
			}
			if n := byPath[o.path]; n != nil && n != o.node {
				violate(c, "identity", "two nodes for %s:%s", o.path, show())
			}
			if q, ok := byNode[o.node]; ok && q != o.path {
				violate(c, "identity", "one node for %s and %s:%s", o.path, q, show())
			}
			byPath[o.path], byNode[o.node] = o.node, o.path
		}
	}
	if overlap {
		e.Probe("concurrent calls")
		e.nontriv = true
	}
	// the tree afterwards
	paths := map[string]bool{}
	for a := range added {
		paths[a] = true
	}
	for _, h := range hist {
		for _, o := range h {
			paths[o.path] = true
		}
	}
	var ps []string
	for a := range paths {
		ps = append(ps, a)
	}
	sort.Strings(ps)
	var bad func()
	after := proc.New(2, vfs.New(), "/", proc.Seams{}, nil)
	proc.Run(0, 0, false, nil, proc.Prog{P: after, F: func() {
		for _, a := range ps {
			n := pm.Find(a)
			if (n != nil) != added[a] {
				bad = func() { violate(c, "lost", "afterwards %s is found: %v, added: %v;%s", a, n != nil, added[a], show()) }
				return
			}
			if n != nil && (n.Path() != a || byPath[a] != nil && byPath[a] != n) {
				bad = func() { violate(c, "identity", "afterwards the node of %s is another one;%s", a, show()) }
				return
			}
			if n != nil && pm.AddPackage(a) != n {
				bad = func() { violate(c, "identity", "afterwards %s is added once more;%s", a, show()) }
				return
			}
			if n != nil {
				seen := map[string]bool{}
				for _, ed := range n.Edges {
					if seen[ed.Name] || ed.Parent != n {
						bad = func() { violate(c, "tree", "afterwards %s has a wrong edge %s;%s", a, ed.Name, show()) }
						return
					}
					seen[ed.Name] = true
				}
			}
		}
	}})
	if after.Panic != "" {
		violate(c, "panic", "%s", after.Panic)
	}
	if bad != nil {
		bad()
	}
	if r := e.races(); r != "" {
		violate(c, "race", "calls share memory without synchronisation:\n%s", r)
	}
	if !linearizable(hist) {
		violate(c, "order", "no order of the calls explains their results:%s", show())
	}
}

// linearizable searches for an order of the calls, consistent with the one of every goroutine and with real time,
// in which every lookup finds exactly what was added before it. The tree after some calls depends only on which
// calls these are, so the search visits every combination of positions at most once.
func linearizable(hist [][]pmCall) bool {
	pos := make([]int, len(hist))
	seen := map[string]bool{}
	var search func() bool
	search = func() bool {
		key := fmt.Sprint(pos)
		if seen[key] {
			return false
		}
		seen[key] = true
		minRet, done := int(^uint(0)>>1), true
		have := map[string]bool{}
		for t, h := range hist {
			if pos[t] < len(h) {
				done = false
				if h[pos[t]].ret < minRet {
					minRet = h[pos[t]].ret
				}
			}
			for _, o := range h[:pos[t]] {
				if o.op != "find" {
					for _, a := range pmAncestors(o.path) {
						have[a] = true
					}
				}
			}
		}
		if done {
			return true
		}
		for t, h := range hist {
			if pos[t] == len(h) {
				continue
			}
			o := h[pos[t]]
			if o.call > minRet { // another call returned before this one began
				continue
			}
			if o.op == "find" && have[o.path] != (o.node != nil) {
				continue
			}
			pos[t]++
			if search() {
				return true
			}
			pos[t]--
		}
		return false
	}
	return search()
}
