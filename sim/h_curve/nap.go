//go:build go1.22

package main

import (
	"fmt"
	"runtime"
	"strings"
	"unsafe"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/core"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/rt"
)

// Scenario nap: threads register handlers for invalid points and do operations with valid and invalid points.

// handler is what a registered function does.
type handler struct {
	id  int
	fn  cp.NaPErrorHandler
	ret bool
	act int64
	seed,
	limit int64
}

const (
	actNone = iota
	actPanic
	actSleep
	actGet
	actSet
	actQuery
	actExit
	nActs
)

type handlerPanic struct{ id int }

// regOp is an operation on the register: a swap or a read.
type regOp struct {
	swap     bool
	old, new int // handlers; a read has just old
	inv, ret int64
}

type callRec struct {
	id         int
	comparison bool
	panicked   bool
}

// opRec is an operation in progress.
type opRec struct {
	name     string
	operands []cp.CurvePointPtrInterface
	inv      int64
	calls    []callRec
	lax      bool // may report intermediate results
}

type napThread struct {
	x     *core.X
	w     *napWorld
	stack []*opRec
	hist  []regOp
	inner int                  // operations that handlers did within the current one
	held  []cp.NaPErrorHandler // handlers obtained
}

const maxHandlers = 200

// napWorld is shared; the simulator runs one thread at a time.
type napWorld struct {
	x        *core.X
	threads  [16]*napThread
	handlers [maxHandlers]*handler
	n        int
}

func identity(f cp.NaPErrorHandler) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&f)) }

//go:norace
func (w *napWorld) register(h *handler) bool {
	if w.n >= maxHandlers {
		return false
	}
	h.id = w.n
	w.handlers[w.n] = h
	w.n++
	return true
}

//go:norace
func (w *napWorld) find(f cp.NaPErrorHandler) int {
	for i := 0; i < w.n; i++ {
		if identity(w.handlers[i].fn) == identity(f) {
			return i
		}
	}
	return -1
}

//go:norace
func (w *napWorld) self() *napThread {
	id := rt.Self()
	if id < 0 || id >= len(w.threads) {
		return nil
	}
	return w.threads[id]
}

//go:norace
func (w *napWorld) iAm(t *napThread) { w.threads[rt.Self()] = t }

//go:norace
func (w *napWorld) get(i int) *handler { return w.handlers[i] }

func (w *napWorld) newHandler(ret bool, act, seed int64) *handler {
	h := &handler{ret: ret, act: act, seed: seed, limit: 3}
	h.fn = func(reason string, comparison bool, points ...cp.CurvePointPtrInterfaceBaseRead) bool {
		return w.handle(h, reason, comparison, points)
	}
	if !w.register(h) {
		return nil
	}
	return h
}

func (t *napThread) id(f cp.NaPErrorHandler) int {
	if f == nil {
		t.x.Check(false, "wrong handler", "got nil as handler")
	}
	i := t.w.find(f)
	if i < 0 {
		t.x.Check(false, "wrong handler", "got a handler that was never registered")
	}
	return i
}

func (t *napThread) set(f cp.NaPErrorHandler) cp.NaPErrorHandler {
	n := t.id(f)
	inv := rt.Tick()
	old := cp.SetNaPErrorHandler(f)
	t.hist = append(t.hist, regOp{true, t.id(old), n, inv, rt.Tick()})
	return old
}

func (t *napThread) get() cp.NaPErrorHandler {
	inv := rt.Tick()
	f := cp.GetNaPErrorHandler()
	t.hist = append(t.hist, regOp{false, t.id(f), 0, inv, rt.Tick()})
	return f
}

func pointerOf(p any) unsafe.Pointer { return (*[2]unsafe.Pointer)(unsafe.Pointer(&p))[1] }

// handle is called by the library.
func (w *napWorld) handle(h *handler, reason string, comparison bool, points []cp.CurvePointPtrInterfaceBaseRead) bool {
	x := w.x
	t := w.self()
	if t == nil || len(t.stack) == 0 {
		x.Check(false, "handler called out of place", "handler called by a goroutine that did not meet an invalid point (%s)", reason)
	}
	op := t.stack[len(t.stack)-1]
	now := rt.Tick()
	t.hist = append(t.hist, regOp{false, h.id, 0, op.inv, now})
	op.calls = append(op.calls, callRec{id: h.id, comparison: comparison})
	if reason == "" {
		x.Check(false, "wrong report", "%s: no reason given", op.name)
	}
	nap := len(points) == 0
	for _, p := range points {
		known := false
		for _, q := range op.operands {
			known = known || pointerOf(p) == pointerOf(q)
			if pointerOf(p) == pointerOf(q) && q.IsNaP() {
				nap = true
			}
		}
		if q, ok := p.(interface{ IsNaP() bool }); ok && !known && op.lax && q.IsNaP() {
			known, nap = true, true
		}
		if !known {
			x.Check(false, "wrong report", "%s: a point was reported that is not an operand", op.name)
		}
	}
	if !nap {
		x.Check(false, "wrong report", "%s: none of the points reported is invalid", op.name)
	}
	act := h.act
	if len(t.stack) == 1 && len(op.calls) == 1 {
		t.inner = 0
	}
	if (act == actQuery || act == actSet) && (len(t.stack) > 3 || t.inner >= 12) {
		act = actNone
	}
	t.inner++
	switch act {
	case actPanic:
		x.Fault("handler panics")
		op.calls[len(op.calls)-1].panicked = true
		panic(handlerPanic{h.id})
	case actSleep:
		x.Fault("slow handler")
		rt.Sleep(1 + h.seed%1000)
	case actGet:
		x.Fault("handler reads register")
		t.get()
	case actSet:
		x.Fault("handler registers handler")
		if n := w.newHandler(h.seed&1 == 0, actNone, h.seed); n != nil {
			old := t.set(n.fn)
			if h.seed&2 == 0 {
				t.set(old)
			}
		}
	case actQuery:
		x.Fault("handler meets invalid point")
		t.query(core.NewRng(uint64(h.seed)))
	case actExit:
		x.Fault("handler ends goroutine")
		runtime.Goexit()
	}
	return h.ret
}

const napFlavours = 4

var napTemplates [nTypes][napFlavours]cp.CurvePointPtrInterface

func initNap() {
	initPool()
	if napTemplates[0][0] != nil {
		return
	}
	for typ := range napTemplates {
		for f := range napTemplates[typ] {
			p := newPoint(typ)
			q := newPoint(tAxtwSub)
			load(q, pool[5].Pt)
			switch f {
			case 1:
				p.AddEq(q)
			case 2:
				load(p, pool[6].Pt)
				p.SubEq(newPoint(tXtwSub))
			case 3:
				p.AddEq(q)
				p.DoubleEq()
				p.NegEq()
			}
			if !p.IsNaP() {
				panic("harness: point is not invalid")
			}
			napTemplates[typ][f] = p
		}
	}
}

// point makes a point, invalid if nap.
func (t *napThread) point(r *core.Rng, typ int, nap bool, flavours int) (cp.CurvePointPtrInterface, snap) {
	if nap {
		f := 0
		if r.P(1, 2) {
			f = r.N(flavours)
		}
		return napTemplates[typ][f].Clone(), snap{kind: 2}
	}
	p := newPoint(typ)
	i := r.N(nSub)
	if typ >= tAxtwFull && r.P(1, 3) {
		i = r.N(nPool)
	}
	load(p, pool[i].Pt)
	vary(p, uint64(r.N(40)))
	return p, snap{p: pool[i].Pt}
}

// operand is a point that is only read, possibly of a type that the library does not know.
func (t *napThread) operand(r *core.Rng, typ int, nap bool, flavours int) (cp.CurvePointPtrInterface, snap) {
	p, v := t.point(r, typ, nap, flavours)
	if r.P(1, 5) {
		p = stranger(p, r.P(1, 2))
		t.x.Probe("point of a user's type")
	}
	return p, v
}

func sameValue(p cp.CurvePointPtrInterface, s snap) bool {
	if p.IsNaP() != (s.kind == 2) {
		return false
	}
	return s.kind == 2 || value(p).eq(s)
}

// do runs an operation; it returns what the handler calls were and whether (and with what) it panicked.
func (t *napThread) do(name string, operands []cp.CurvePointPtrInterface, f func()) (op *opRec, val any, panicked bool) {
	return t.doLax(name, operands, false, f)
}

func (t *napThread) doLax(name string, operands []cp.CurvePointPtrInterface, lax bool, f func()) (op *opRec, val any, panicked bool) {
	op = &opRec{name: name, operands: operands, inv: rt.Tick(), lax: lax}
	depth := len(t.stack)
	t.stack = append(t.stack, op)
	val, panicked = core.Try(f)
	t.stack = t.stack[:depth]
	return
}

// query does an operation with points, some of which may be invalid.
func (t *napThread) query(r *core.Rng) {
	x := t.x
	typ := r.N(nTypes)
	nap := r.P(3, 4)
	kind := r.N(10)
	var res, want bool // result and what it should be for valid operands
	switch kind {
	case 0, 1, 2:
		p, v := t.point(r, typ, nap, napFlavours)
		name := [...]string{"IsNeutralElement", "IsAtInfinity", "IsInSubgroup"}[kind]
		name += " of " + typeNames[typ]
		op, val, panicked := t.do(name, []cp.CurvePointPtrInterface{p}, func() {
			switch kind {
			case 0:
				res, want = p.IsNeutralElement(), v.kind == 0 && v.p.Eq(pool[0].Pt)
			case 1:
				res, want = p.IsAtInfinity(), false
			case 2:
				res, want = p.IsInSubgroup(), v.kind == 0 && v.p.InSubgroup()
			}
		})
		t.judge(op, nap, kind != 1, res, want, val, panicked)
		x.Check(sameValue(p, v), "operand changed", "%s changed its operand", name)
	case 3, 4, 5:
		typ2 := r.N(nTypes)
		nap2 := r.P(1, 2)
		p, v := t.point(r, typ, nap, napFlavours)
		q, w := t.operand(r, typ2, nap2, napFlavours)
		if r.P(1, 8) {
			q, w, nap2, typ2 = p, v, nap, typ
		}
		name := "IsEqual of " + typeNames[typ] + " and " + typeNames[typ2]
		op, val, panicked := t.do(name, []cp.CurvePointPtrInterface{p, q}, func() { res = p.IsEqual(q) })
		want = v.eq(w)
		t.judge(op, nap || nap2, true, res, want, val, panicked)
		x.Check(sameValue(p, v) && sameValue(q, w), "operand changed", "%s changed an operand", name)
	case 6:
		typ2 := r.N(nTypes)
		p, v := t.point(r, typ, false, 1)
		q, w := t.operand(r, typ2, nap, napFlavours)
		trusted := common.UntrustedInput
		if r.P(1, 3) && (w.kind == 2 || w.p.InSubgroup()) {
			trusted = common.TrustedInput
		}
		name := "SetFromSubgroupPoint of " + typeNames[typ] + " with " + typeNames[typ2]
		op, val, panicked := t.do(name, []cp.CurvePointPtrInterface{p, q}, func() { res = p.SetFromSubgroupPoint(q, trusted) })
		want = w.kind == 0 && w.p.InSubgroup()
		t.judge(op, nap, false, res, want, val, panicked)
		if !panicked {
			x.Check(res == want, "wrong result", "%s: %v", name, res)
		}
		if want && !panicked {
			v = w
		}
		x.Check(sameValue(p, v), "operand changed", "%s left a wrong point in the receiver", name)
		x.Check(sameValue(q, w), "operand changed", "%s changed its argument", name)
	case 7:
		p, v := t.point(r, typ, nap, napFlavours)
		var f func() bool
		name := "NormalizeForZ of " + typeNames[typ]
		if n, ok := p.(cp.NormalizerForY); ok && r.P(1, 2) {
			f, name = n.NormalizeForY, "NormalizeForY of "+typeNames[typ]
		} else if n, ok := p.(cp.NormalizerForZ); ok {
			f = n.NormalizeForZ
		} else {
			return
		}
		op, val, panicked := t.do(name, []cp.CurvePointPtrInterface{p}, func() { res = f() })
		t.judge(op, nap, false, res, true, val, panicked)
		if !panicked {
			x.Check(res == !nap, "wrong result", "%s: %v", name, res)
		}
		x.Check(sameValue(p, v), "operand changed", "%s changed the point", name)
	case 8:
		t.batch(r)
	case 9:
		t.compute(r)
	}
}

func (t *napThread) judge(op *opRec, nap, comparison bool, res, want bool, val any, panicked bool) {
	x := t.x
	if !nap {
		if panicked {
			x.Check(false, "panic", "%s with valid points: %v", op.name, val)
		}
		x.Check(len(op.calls) == 0, "wrong number of handler calls", "%s with valid points called a handler", op.name)
		x.Check(res == want, "wrong result", "%s with valid points: %v", op.name, res)
		return
	}
	if len(op.calls) != 1 {
		x.Check(false, "wrong number of handler calls", "%s with an invalid point called a handler %d times", op.name, len(op.calls))
	}
	c := op.calls[0]
	h := t.w.get(c.id)
	if panicked != c.panicked || panicked && val != any(handlerPanic{h.id}) {
		x.Check(false, "panic", "%s: panicked %v (%v), but the handler (panicking: %v)", op.name, panicked, val, c.panicked)
	}
	if !panicked && comparison && res != h.ret {
		x.Check(false, "wrong result", "%s with an invalid point: %v, but the handler said %v", op.name, res, h.ret)
	}
	if comparison && !c.comparison && !napQuirk(op.name) {
		x.Check(false, "wrong report", "%s was not reported as a comparison", op.name)
	}
	x.Check(!c.comparison || !strings.HasPrefix(op.name, "Normalize"), "wrong report", "%s was reported as a comparison", op.name)
	x.Probe("invalid point reported")
}

// napQuirk are comparisons whose reports are not marked as such.
func napQuirk(name string) bool { return name == "IsInSubgroup of axtw_full" }

func (t *napThread) batch(r *core.Rng) {
	x := t.x
	n := r.Many(1, 2, 3, 4, 5, 6)
	typ := r.Pick(tXtwFull, tXtwSub)
	full := make(cp.CurvePointSlice_xtw_full, n)
	sub := make(cp.CurvePointSlice_xtw_subgroup, n)
	var ops []cp.CurvePointPtrInterface
	var vals []snap
	bad := 0
	for i := 0; i < n; i++ {
		nap := r.P(1, 3)
		p, v := t.point(r, typ, nap, 1)
		if nap {
			bad++
		}
		if !nap && typ == tXtwFull && r.P(1, 6) {
			p, v = special(typ, -2-int64(r.N(2)))
		}
		vals = append(vals, v)
		if typ == tXtwFull {
			full[i] = *p.(*cp.Point_xtw_full)
			ops = append(ops, &full[i])
		} else {
			sub[i] = *p.(*cp.Point_xtw_subgroup)
			ops = append(ops, &sub[i])
		}
	}
	y := r.P(1, 2)
	name := "BatchNormalizeForZ of " + typeNames[typ]
	if y {
		name = "BatchNormalizeForY of " + typeNames[typ]
	}
	var failed []int
	op, val, panicked := t.do(name, ops, func() {
		switch {
		case typ == tXtwFull && y:
			failed = full.BatchNormalizeForY()
		case typ == tXtwFull:
			failed = full.BatchNormalizeForZ()
		case y:
			failed = sub.BatchNormalizeForY()
		default:
			failed = sub.BatchNormalizeForZ()
		}
	})
	for i, p := range ops {
		x.Check(sameValue(p, vals[i]), "operand changed", "%s with %d invalid of %d points: point %d has changed (panicked: %v, %v)", name, bad, n, i, panicked, val)
	}
	for _, c := range op.calls {
		x.Check(!c.comparison, "wrong report", "%s was reported as a comparison", name)
	}
	if len(op.calls) > 0 && op.calls[len(op.calls)-1].panicked {
		x.Check(panicked && val == any(handlerPanic{op.calls[len(op.calls)-1].id}), "panic", "%s: panicked %v (%v) although the handler did", name, panicked, val)
		x.Probe("batch abandoned by handler")
		return
	}
	if panicked {
		x.Check(false, "panic", "%s: %v", name, val)
	}
	x.Check(len(op.calls) == bad, "wrong number of handler calls", "%s with %d invalid points called handlers %d times", name, bad, len(op.calls))
	k := 0
	for i, v := range vals {
		if v.kind != 0 {
			if k >= len(failed) || failed[k] != i {
				x.Check(false, "wrong result", "%s reports %v, point %d is not finite", name, failed, i)
			}
			k++
		}
	}
	x.Check(k == len(failed), "wrong result", "%s reports %v as failed", name, failed)
	x.Probe("batch normalised")
}

// compute does operations which may or may not report invalid points, but whose result is invalid.
func (t *napThread) compute(r *core.Rng) {
	x := t.x
	typ, typ2 := r.N(nTypes), r.N(nTypes)
	if typ < tAxtwFull {
		typ2 = r.N(tAxtwFull)
	}
	p, _ := t.point(r, typ, false, 1)
	q, w := t.operand(r, typ2, true, napFlavours)
	o, v := t.operand(r, r.N(tAxtwFull), false, 1)
	kind := r.N(7)
	name := [...]string{"Add", "Sub", "Neg", "Double", "Endo", "SetFrom", "AddEq"}[kind] + " of " + typeNames[typ2] + " to " + typeNames[typ]
	op, val, panicked := t.doLax(name, []cp.CurvePointPtrInterface{p, q, o}, true, func() {
		switch kind {
		case 0:
			p.Add(o, q)
		case 1:
			p.Sub(q, o)
		case 2:
			p.Neg(q)
		case 3:
			p.Double(q)
		case 4:
			p.Endo(q)
		case 5:
			p.SetFrom(q)
		case 6:
			p.AddEq(q)
		}
	})
	thrown := len(op.calls) > 0 && op.calls[len(op.calls)-1].panicked
	if panicked != thrown {
		x.Check(false, "panic", "%s: panicked %v (%v), the handler did: %v", name, panicked, val, thrown)
	}
	x.Check(sameValue(q, w) && sameValue(o, v), "operand changed", "%s changed an operand", name)
	if !panicked {
		x.Check(p.IsNaP(), "wrong result", "%s with an invalid point gave a valid one", name)
	}
	x.Probe("computed with invalid point")
}

func (t *napThread) run(op core.Op) {
	r := core.NewRng(uint64(op.Arg(0)))
	fresh := func() cp.NaPErrorHandler {
		act := int64(actNone)
		if r.P(1, 2) {
			act = int64(r.N(int(nActs)))
		}
		if act == actExit && r.P(2, 3) {
			act = actPanic
		}
		if h := t.w.newHandler(r.P(1, 2), act, int64(r.N(1<<30))); h != nil {
			return h.fn
		}
		return t.w.get(0).fn
	}
	switch op.K {
	case "set":
		t.held = append(t.held, t.set(fresh()))
	case "reset":
		if len(t.held) > 0 {
			t.set(t.held[r.N(len(t.held))])
		}
	case "get":
		t.held = append(t.held, t.get())
	case "query":
		t.query(r)
	case "guard": // as the package's own tests do
		old := t.set(fresh())
		defer func() { t.set(old) }()
		t.query(r)
	}
}

// linearizable decides whether the histories can be ordered such that every swap and read gives what was registered last.
func linearizable(hist [][]regOp, first int) bool {
	type state struct {
		pos [16]uint8
		v   int
	}
	seen := map[state]bool{}
	var rec func(s state) bool
	rec = func(s state) bool {
		if seen[s] {
			return false
		}
		seen[s] = true
		done := true
		bound := int64(1 << 62)
		for t, h := range hist {
			if int(s.pos[t]) < len(h) {
				done = false
				if r := h[s.pos[t]].ret; r < bound {
					bound = r
				}
			}
		}
		if done {
			return true
		}
		for t, h := range hist {
			i := int(s.pos[t])
			if i >= len(h) || h[i].inv > bound || h[i].old != s.v {
				continue
			}
			n := s
			n.pos[t]++
			if h[i].swap {
				n.v = h[i].new
			}
			if rec(n) {
				return true
			}
		}
		return false
	}
	return rec(state{v: first})
}

func genNap(r *core.Rng, thorough bool) *core.Plan {
	p := &core.Plan{Cfg: map[string]int64{"ret": int64(r.N(2)), "act": int64(r.Pick(0, 0, 0, actGet, actSleep))}}
	for n := r.Pick(1, 2, 2, 3, 3, 4); n > 0; n-- {
		var ops []core.Op
		for k := r.In(1, 7); k > 0; k-- {
			ops = append(ops, core.Op{K: r.PickS("set", "set", "reset", "get", "query", "query", "query", "guard"), A: []int64{int64(r.N(1 << 40))}})
		}
		p.Threads = append(p.Threads, ops)
	}
	return p
}

func execNap(x *core.X) {
	w := &napWorld{x: x}
	first := w.newHandler(x.Cfg["ret"]&1 == 1, 0, 5)
	main := &napThread{x: x, w: w}
	x.Seq(func() {
		orig := cp.GetNaPErrorHandler()
		if orig == nil {
			x.Check(false, "wrong handler", "no handler at the start")
		}
		got := cp.SetNaPErrorHandler(first.fn)
		x.Check(identity(got) == identity(orig), "wrong handler", "SetNaPErrorHandler did not return the initial handler")
	})
	var fns []func()
	var ts []*napThread
	for i := range x.Threads {
		if i >= 12 {
			break
		}
		ops := x.Threads[i]
		t := &napThread{x: x, w: w}
		ts = append(ts, t)
		fns = append(fns, func() {
			w.iAm(t)
			for _, o := range ops {
				t.run(o)
			}
		})
	}
	x.Go(fns...)
	x.Seq(func() {
		w.threads = [16]*napThread{}
		w.iAm(main)
		main.get()
		var hist [][]regOp
		last := int64(0)
		for _, t := range ts {
			hist = append(hist, t.hist)
			for _, o := range t.hist {
				if o.ret > last {
					last = o.ret
				}
			}
		}
		main.hist[0].inv, main.hist[0].ret = last+1, last+2
		hist = append(hist, main.hist)
		n := 0
		for _, h := range hist {
			n += len(h)
			if len(h) > 250 {
				return
			}
		}
		if !linearizable(hist, first.id) {
			x.Check(false, "not linearizable", "handlers registered, read and called do not fit any order: %s", fmt.Sprint(hist))
		}
		if n > 4 {
			x.Probe("history of the register checked")
		}
		main.query(core.NewRng(uint64(n)))
	})
}

func init() {
	core.Register(&core.Scenario{Name: "nap", Props: []string{"P03"}, Gen: genNap, Exec: execNap, Init: initNap})
}
