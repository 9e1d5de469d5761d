//go:build go1.22

// Simulation of the helpers for benchmarks and tests: call counters, fault-injecting buffer.
package main

import (
	"fmt"
	"sort"
	"strings"

	cc "github.com/GottfriedHerold/Bandersnatch/internal/callcounters"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/core"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/rt"
)

func main() { core.Main("util") }

// Scenario counters: histories of creating, linking, incrementing, resetting and reporting call counters in any order
// and with any order of map iteration, judged against a model.

const (
	nCounters = 48
	prefix    = "ct_" // tells our counters from the library's own
)

// node is the model of a counter.
type node struct {
	idx        int
	ptr        *cc.CallCounter
	referenced bool // in the table
	created    bool
	display    bool
	root       bool
	name       string
	parent     int
	children   []int
	remaining  bool
	direct     int
	links      map[int]int
}

type counterWorld struct {
	x *core.X
	n [nCounters]*node
}

func cid(i int) cc.Id {
	if i < 0 {
		return ""
	}
	return cc.Id(fmt.Sprintf("%s%02d", prefix, i))
}

func (w *counterWorld) ref(i int) *node {
	w.n[i].referenced = true
	return w.n[i]
}

// total follows all links that lead to i.
func (w *counterWorld) totals() (t [nCounters]int) {
	var add func(i, amount int)
	add = func(i, amount int) {
		t[i] += amount
		for j, m := range w.n[i].links {
			add(j, amount*m)
		}
	}
	for i, n := range w.n {
		if n.direct != 0 {
			add(i, n.direct)
		}
	}
	return
}

func (w *counterWorld) remainder(i int, t *[nCounters]int) int {
	r := t[i]
	for _, c := range w.n[i].children {
		r -= t[c]
	}
	return r
}

// attach makes a counter a child.
func (w *counterWorld) attach(child, parent int) {
	p := w.ref(parent)
	w.n[child].parent = parent
	p.children = append(p.children, child)
}

// mustPanic runs a forbidden call, which must panic with a message.
func (w *counterWorld) mustPanic(what string, f func()) {
	val, panicked := core.Try(f)
	w.x.Check(panicked, "no panic", "%s did not panic", what)
	if _, ok := val.(string); !ok {
		_, ok = val.(error)
		if _, isRuntime := val.(interface{ RuntimeError() }); isRuntime || !ok {
			w.x.Violate("panic", "%s panicked with %v", what, val)
		}
	}
	w.x.Fault("forbidden call")
}

func (w *counterWorld) mustWork(what string, f func()) {
	if val, panicked := core.Try(f); panicked {
		w.x.Violate("panic", "%s panicked: %v", what, val)
	}
}

var counterNames = []string{"", "Name of", "Additions and", "x"}

func (w *counterWorld) do(o core.Op) {
	x := w.x
	abs := func(k int) int { // index of a counter; -1 is the empty id
		v := int(o.Arg(k) % (nCounters + 1))
		if v < 0 {
			v = -v
		}
		return v - 1
	}
	i, j := abs(0), abs(1)
	// links go from higher to lower numbers
	below := func() (int, int) {
		switch {
		case i < 0 || j < 0:
			return i, j
		case i == j && i == 0:
			return 1, 0
		case i == j:
			return i, i - 1
		case i < j:
			return j, i
		}
		return i, j
	}
	switch o.K {
	case "hier", "new", "attached", "link", "rlink":
		i, j = below()
	}
	name := ""
	if k := int(o.Arg(2)&0xffff) % len(counterNames); k > 0 && i >= 0 {
		name = prefix + counterNames[k] + string(cid(i))
	}
	create := func(f func() *cc.CallCounter, display, root bool, parent int) bool {
		what := fmt.Sprintf("%s of %q with parent %q", o.K, cid(i), cid(parent))
		if i < 0 || w.n[i].created {
			w.mustPanic(what, func() { f() })
			return false
		}
		n := w.ref(i)
		var p *cc.CallCounter
		w.mustWork(what, func() { p = f() })
		x.Check(p != nil && (n.ptr == nil || n.ptr == p), "wrong counter", "%s did not return the counter", what)
		n.ptr = p
		n.created, n.display, n.root, n.name = true, display, root, name
		if name == "" {
			n.name = string(cid(i))
		}
		if parent >= 0 {
			if !w.n[parent].created {
				x.Probe("child before parent")
			}
			w.attach(i, parent)
		}
		return true
	}
	switch o.K {
	case "hier":
		if create(func() *cc.CallCounter { return cc.CreateHierarchicalCallCounter(cid(i), name, cid(j)) }, true, j < 0, j) && j >= 0 {
			n := w.n[i]
			if n.links[j]++; n.links[j] == 0 {
				delete(n.links, j)
			}
			if p := w.n[j]; !p.created { // stays like this unless created
				p.display, p.root, p.name = true, true, string(cid(j))+"(dummy)"
			}
		}
	case "new":
		display, root := o.Arg(3)&1 == 0, o.Arg(3)&2 != 0
		create(func() *cc.CallCounter { return cc.CreateNewCallCounter(cid(i), name, display, cid(j), root) }, display, root, j)
	case "attached":
		if create(func() *cc.CallCounter { return cc.CreateAttachedCallCounter(cid(i), name, cid(j)) }, true, false, j) && j >= 0 {
			w.n[j].remaining = true
		}
	case "link", "rlink":
		m := multipliers[uint64(o.Arg(2))%uint64(len(multipliers))]
		f := func() *cc.CallCounter {
			if o.K == "link" {
				if i >= 0 && w.n[i].ptr != nil && o.Arg(3)&1 == 0 {
					return w.n[i].ptr.AddThisToTarget(cid(j), m)
				}
				return cid(i).AddThisToTarget(cid(j), m)
			}
			if j >= 0 && w.n[j].ptr != nil && o.Arg(3)&1 == 0 {
				return w.n[j].ptr.AddToThisFromSource(cid(i), m)
			}
			return cid(j).AddToThisFromSource(cid(i), m)
		}
		recv := i
		if o.K == "rlink" {
			recv = j
		}
		if recv < 0 || (m != 0 && (i < 0 || j < 0)) {
			if recv >= 0 {
				w.ref(recv)
			}
			w.mustPanic(o.K+" without id", func() { f() })
			return
		}
		w.ref(recv)
		w.mustWork(o.K, func() {
			p := f()
			n := w.n[recv]
			x.Check(p != nil && (n.ptr == nil || n.ptr == p), "wrong counter", "%s did not return its receiver", o.K)
			n.ptr = p
		})
		if m != 0 {
			w.ref(i)
			w.ref(j)
			n := w.n[i]
			if n.links[j] += m; n.links[j] == 0 {
				delete(n.links, j)
				x.Probe("link cancelled")
			}
		}
	case "remaining":
		on := o.Arg(1)&1 != 0
		if i < 0 {
			w.mustPanic("SetDisplayRemaining without id", func() { cid(i).SetDisplayRemaining(on) })
			return
		}
		n := w.ref(i)
		w.mustWork(fmt.Sprintf("SetDisplayRemaining(%v) of %q", on, cid(i)), func() {
			var p *cc.CallCounter
			if n.ptr != nil && o.Arg(2)&1 == 0 {
				p = n.ptr.SetDisplayRemaining(on)
			} else {
				p = cid(i).SetDisplayRemaining(on)
			}
			x.Check(p != nil && (n.ptr == nil || n.ptr == p), "wrong counter", "SetDisplayRemaining did not return its receiver")
			n.ptr = p
		})
		n.remaining = on
	case "inc":
		if i < 0 || !w.n[i].created {
			w.mustPanic(fmt.Sprintf("Increment of %q, which was not created,", cid(i)), func() { cid(i).Increment() })
			return
		}
		k := 1 + int(o.Arg(1)&7)
		w.mustWork("Increment", func() {
			for a := 0; a < k; a++ {
				cid(i).Increment()
			}
		})
		w.n[i].direct += k
	case "reset":
		switch {
		case i < 0:
			w.mustPanic("Reset without id", func() { cid(i).Reset() })
		case w.n[i].ptr != nil && o.Arg(1)&1 == 0:
			w.mustWork("Reset", func() { w.n[i].ptr.Reset() })
			w.n[i].direct = 0
		case w.n[i].referenced:
			w.mustWork("Reset", func() { cid(i).Reset() })
			w.n[i].direct = 0
		}
	case "resetall":
		w.mustWork("ResetAllCounters", cc.ResetAllCounters)
		for _, n := range w.n {
			n.direct = 0
		}
	case "get":
		if i < 0 {
			w.mustPanic("Get without id", func() { cid(i).Get() })
			return
		}
		w.get(i, o.Arg(1)&1 == 0)
	case "exists":
		want := i >= 0 && w.n[i].created
		x.Check(cid(i).Exists() == want, "wrong answer", "Exists of %q is %v", cid(i), !want)
	case "report":
		w.report(o.Arg(0)&1 != 0, o.Arg(0)&2 != 0)
	case "structure":
		w.structure([]string{"\t", "  ", "....", "--"}[o.Arg(0)&3])
	}
}

func (w *counterWorld) get(i int, viaPtr bool) {
	n := w.n[i]
	t := w.totals()
	var got int
	var ok bool
	if viaPtr && n.ptr != nil {
		w.mustWork("Get", func() { got, ok = n.ptr.Get() })
		w.x.Check(ok, "wrong answer", "Get of a counter failed")
	} else {
		w.mustWork(fmt.Sprintf("Get of %q (created: %v, referred to: %v)", cid(i), n.created, n.referenced), func() { got, ok = cid(i).Get() })
		w.x.Check(ok || !n.created, "wrong answer", "Get of %q failed", cid(i))
		w.x.Check(!ok || n.referenced, "wrong answer", "Get of %q found it", cid(i))
	}
	if n.referenced {
		w.x.Check(got == t[i], "wrong total", "total of %q is %d, should be %d", cid(i), got, t[i])
	} else {
		w.x.Check(got == 0, "wrong total", "total of unknown %q is %d", cid(i), got)
	}
	w.x.Obs("get %d %d", i, got)
}

// entry is what a report should contain: tag, total, and the entries below.
type want struct {
	tag    string
	calls  int
	cc     *cc.CallCounter
	hidden bool
	dummy  bool
	below  []*want
	node   int
}

// tree gives what is listed for a counter, including hidden ones.
func (w *counterWorld) tree(i int, t *[nCounters]int, useName bool) *want {
	n := w.n[i]
	e := &want{tag: string(cid(i)), calls: t[i], cc: n.ptr, hidden: !n.display, dummy: !n.created, node: i}
	if useName {
		e.tag = n.name
	}
	for _, c := range n.children {
		e.below = append(e.below, w.tree(c, t, useName))
	}
	if n.remaining {
		r := &want{tag: string(cid(i)) + "Other", calls: w.remainder(i, t), node: -1}
		if useName {
			r.tag = string(cid(i)) + "(other)"
		}
		e.below = append(e.below, r)
	}
	return e
}

func (w *counterWorld) report(onlyPositive, useName bool) {
	var all []cc.CCReport
	w.mustWork("ReportCallCounters", func() { all = cc.ReportCallCounters(onlyPositive, useName) })
	var got []cc.CCReport
	for _, r := range all {
		if strings.HasPrefix(r.Tag, prefix) {
			got = append(got, r)
		}
	}
	t := w.totals()
	roots := map[string]*want{}
	for i, n := range w.n {
		if n.referenced && n.root {
			e := w.tree(i, &t, useName)
			roots[e.tag] = e
		}
	}
	what := fmt.Sprintf("ReportCallCounters(%v, %v)", onlyPositive, useName)
	pos := 0
	var parse func(e *want)
	parse = func(e *want) {
		r := got[pos]
		pos++
		w.x.Check(r.Calls == e.calls, "wrong report", "%s: %q has %d, should be %d", what, r.Tag, r.Calls, e.calls)
		w.x.Check(r.CC != nil && (e.cc == nil || e.cc == r.CC), "wrong report", "%s: %q comes with another counter", what, r.Tag)
		open := map[string]*want{}
		for _, b := range e.below {
			w.x.Check(open[b.tag] == nil, "harness", "ambiguous tags")
			open[b.tag] = b
		}
		for pos < len(got) {
			b := open[got[pos].Tag]
			if b == nil || b.hidden || (onlyPositive && b.calls == 0) {
				break
			}
			delete(open, b.tag)
			parse(b)
		}
		for _, b := range sortWants(open) {
			if !b.hidden && (!onlyPositive || b.calls > 0) {
				w.x.Violate("wrong report", "%s lacks %q below %q: %s", what, b.tag, e.tag, tags(got))
			}
		}
	}
	for pos < len(got) {
		e := roots[got[pos].Tag]
		if e == nil || e.hidden || (onlyPositive && e.calls == 0) {
			w.x.Violate("wrong report", "%s has unexpected %q (or twice) at %d: %s", what, got[pos].Tag, pos, tags(got))
		}
		delete(roots, e.tag)
		parse(e)
	}
	for _, e := range sortWants(roots) {
		if !e.hidden && (!onlyPositive || e.calls > 0) {
			w.x.Violate("wrong report", "%s lacks %q: %s", what, e.tag, tags(got))
		}
	}
	if len(got) > 4 {
		w.x.Probe("report with more than 4 lines")
	}
}

func sortWants(m map[string]*want) (l []*want) {
	for _, e := range m {
		l = append(l, e)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].tag < l[j].tag })
	return
}

func tags(l []cc.CCReport) string {
	var s []string
	for _, r := range l {
		s = append(s, fmt.Sprintf("%s=%d", r.Tag, r.Calls))
	}
	return strings.Join(s, " ")
}

// Lines of the structure report.

type line struct {
	depth                      int
	tag                        string
	hidden, recursively, dummy bool
}

const (
	sHidden = "(hidden)"
	sRec    = "(recursively hidden)"
	sDummy  = "(counter was only refered to, never actually created)"
)

func parseLine(s, indent string) (l line) {
	for strings.HasPrefix(s, indent) {
		s = s[len(indent):]
		l.depth++
	}
	tag, rest, _ := strings.Cut(s, " ")
	l.tag = tag
	l.hidden = strings.Contains(rest, sHidden)
	l.recursively = strings.Contains(rest, sRec)
	l.dummy = strings.Contains(rest, sDummy)
	return
}

func (w *counterWorld) structure(indent string) {
	var s string
	w.mustWork("GetCallCounterStructureReport", func() { s = cc.GetCallCounterStructureReport(indent) })
	var t [nCounters]int
	wants := map[string]bool{}     // canonical forms of the roots' trees
	remaining := map[string]bool{} // not below a root
	seen := map[int]bool{}
	var canon func(e *want, depth int, below bool) string
	canon = func(e *want, depth int, below bool) string {
		if e.node >= 0 {
			seen[e.node] = true
		}
		var parts []string
		for _, b := range e.below {
			parts = append(parts, canon(b, depth+1, below || e.hidden))
		}
		sort.Strings(parts)
		return fmt.Sprint(line{depth, e.tag, e.hidden, !e.hidden && below, e.dummy}) + "(" + strings.Join(parts, "") + ")"
	}
	for i, n := range w.n {
		if n.referenced && n.root {
			wants[canon(w.tree(i, &t, false), 0, false)] = true
		}
	}
	for i, n := range w.n {
		if n.referenced && !seen[i] {
			remaining[fmt.Sprint(line{1, string(cid(i)), !n.display, false, !n.created})] = true
		}
	}
	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	pos := 0
	var gather func() string
	gather = func() string {
		l := parseLine(lines[pos], indent)
		pos++
		var parts []string
		for pos < len(lines) && parseLine(lines[pos], indent).depth > l.depth {
			parts = append(parts, gather())
		}
		sort.Strings(parts)
		return fmt.Sprint(l) + "(" + strings.Join(parts, "") + ")"
	}
	rest := false
	for pos < len(lines) {
		l := parseLine(lines[pos], indent)
		if strings.HasPrefix(l.tag, prefix) {
			var g string
			m := wants
			if rest {
				g = fmt.Sprint(l)
				m = remaining
				pos++
			} else {
				g = gather()
			}
			w.x.Check(m[g], "wrong structure report", "unexpected %s (rest: %v) in\n%s\nexpected %v %v", g, rest, s, wants, remaining)
			delete(m, g)
			continue
		}
		pos++
		if strings.HasPrefix(lines[pos-1], "Call counters not below") {
			rest = true
		}
	}
	w.x.Check(len(wants) == 0 && len(remaining) == 0, "wrong structure report", "missing %v %v in\n%s", wants, remaining, s)
}

func execCounters(x *core.X) {
	w := &counterWorld{x: x}
	for i := range w.n {
		w.n[i] = &node{idx: i, parent: -1, links: map[int]int{}}
	}
	// Threads take turns, in an order that the schedule decides.
	var mu rt.Mutex
	var fns []func()
	step := uint64(0)
	for _, ops := range x.Threads {
		ops := ops
		fns = append(fns, func() {
			for _, o := range ops {
				mu.Lock()
				step++
				if x.Cfg["perm"] != 0 {
					rt.SetPerm(uint64(x.Cfg["perm"]) + step*0x9e3779b97f4a7c15)
					x.Fault("map order changed")
				}
				w.do(o)
				mu.Unlock()
			}
		})
	}
	x.Go(fns...)
	x.Seq(func() {
		for i := range w.n {
			w.get(i, false)
		}
		for k := 0; k < 4; k++ {
			w.report(k&1 != 0, k&2 != 0)
		}
		w.structure("\t")
		cc.ResetAllCounters()
		for _, n := range w.n {
			n.direct = 0
		}
		for i := range w.n {
			w.get(i, true)
		}
	})
}

var multipliers = []int{-2, -1, 0, 1, 2, 3, -7, 10, 256, -1000, 1 << 16, -1 << 20, 1<<31 + 1}

func genCounters(r *core.Rng, thorough bool) *core.Plan {
	p := &core.Plan{Cfg: map[string]int64{"perm": int64(r.N(1 << 40))}}
	n, deep := r.In(2, 12), r.P(1, 10)
	if deep { // long chains, or many children
		n = r.In(12, nCounters)
	}
	far := r.N(3)
	at := func() int64 { return int64(1 + r.N(n)) }
	opt := func() int64 { // sometimes no id
		if r.P(1, 4) {
			return 0
		}
		return at()
	}
	var build, use []core.Op
	wild := r.P(1, 3)
	for i := 1; i <= n; i++ {
		if wild && r.P(1, 6) {
			continue // perhaps referred to, but not created
		}
		parent := int64(0)
		if i > 1 && r.P(4, 5) {
			parent = int64(1 + r.N(i-1))
			if deep && far == 0 && !r.P(1, 16) {
				parent = int64(i - 1)
			} else if deep && far == 1 && !r.P(1, 8) {
				parent = 1
			}
		}
		kind := r.N(6)
		if deep && far < 2 && !r.P(1, 10) {
			kind = 0
		}
		switch kind {
		case 0, 1, 2:
			build = append(build, core.Op{K: "hier", A: []int64{int64(i), parent, int64(r.N(4))}})
		case 3, 4:
			build = append(build, core.Op{K: "attached", A: []int64{int64(i), parent, int64(r.N(4))}})
		default:
			build = append(build, core.Op{K: "new", A: []int64{int64(i), parent, int64(r.N(4)), int64(r.N(4))}})
		}
	}
	for k := r.N(6); k > 0; k-- {
		build = append(build, core.Op{K: r.PickS("link", "rlink"), A: []int64{at(), at(), int64(r.Pick(0, 1, 2, 3, 4, r.N(len(multipliers)))), int64(r.N(2))}})
	}
	for k := r.N(4); k > 0; k-- {
		build = append(build, core.Op{K: "remaining", A: []int64{at(), int64(r.N(2)), int64(r.N(2))}})
	}
	for k := r.In(3, 25); k > 0; k-- {
		switch r.N(12) {
		case 0:
			use = append(use, core.Op{K: "get", A: []int64{at(), int64(r.N(2))}})
		case 1:
			use = append(use, core.Op{K: "report", A: []int64{int64(r.N(4))}})
		case 2:
			use = append(use, core.Op{K: "structure", A: []int64{int64(r.N(4))}})
		case 3:
			use = append(use, core.Op{K: "reset", A: []int64{opt(), int64(r.N(2))}})
		case 4:
			use = append(use, core.Op{K: r.PickS("resetall", "exists", "exists", "get"), A: []int64{opt()}})
		case 5:
			use = append(use, core.Op{K: r.PickS("hier", "attached", "new"), A: []int64{opt(), opt(), int64(r.N(4)), int64(r.N(4))}}) // most of them created twice
		case 6:
			use = append(use, core.Op{K: r.PickS("link", "rlink", "remaining"), A: []int64{opt(), opt(), int64(r.N(5)), int64(r.N(2))}})
		case 7:
			use = append(use, core.Op{K: "inc", A: []int64{opt(), int64(r.N(8))}})
		default:
			use = append(use, core.Op{K: "inc", A: []int64{at(), int64(r.N(8))}})
		}
	}
	// any order of creation
	for i := range build {
		j := r.N(i + 1)
		build[i], build[j] = build[j], build[i]
	}
	ops := build
	if wild { // use while creating
		ops = nil
		for len(build)+len(use) > 0 {
			if r.N(len(build)+len(use)) < len(build) {
				ops, build = append(ops, build[0]), build[1:]
			} else {
				ops, use = append(ops, use[0]), use[1:]
			}
		}
	}
	ops = append(ops, use...)
	if n := r.Pick(1, 1, 2, 3); n == 1 {
		p.Threads = [][]core.Op{ops}
	} else {
		p.Threads = r.Split(ops, n)
	}
	return p
}

func init() {
	core.Register(&core.Scenario{Name: "counters", Props: []string{"P16"}, Gen: genCounters, Exec: execCounters, Init: func() {}, Wt: 3})
}
