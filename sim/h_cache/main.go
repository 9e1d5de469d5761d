//go:build go1.22

// Simulation of package testutils: PrecomputedCache shared by threads whose callbacks are slow, re-entrant or fail.
package main

import (
	"math/rand"
	"runtime"

	"github.com/GottfriedHerold/Bandersnatch/internal/testutils"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/core"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/rt"
)

func main() { core.Main("cache") }

const nKeys = 4

type elem struct {
	v    uint64
	more []uint64 // deep part
}

const maxElements = 6000

var canonTable = func() (t [nKeys][maxElements + 100]uint64) {
	for key := range t {
		r := core.Std(uint64(key)*7919 + 5)
		for i := range t[key] {
			t[key][i] = r.Uint64()
		}
	}
	return
}()

func canon(key int64, i int) uint64 { return canonTable[key][i] }

func prepopVal(id int64, i int) uint64 { return uint64(id)<<32 | uint64(i)<<8 | 0xF1 }

func genPlan(faulty bool) func(r *core.Rng, thorough bool) *core.Plan {
	return func(r *core.Rng, thorough bool) *core.Plan {
		n := r.In(2, 4)
		if thorough && r.P(1, 4) {
			n = r.In(4, 7)
		}
		nk := r.In(1, 3)
		p := &core.Plan{Cfg: map[string]int64{}}
		p.Cfg["ptr"] = int64(r.N(2))
		p.Cfg["nilrng"] = b(r.P(1, 8))
		p.Cfg["nilcopy"] = b(p.Cfg["ptr"] == 0 && r.P(1, 2))
		p.Cfg["depth"] = int64(r.Pick(0, 0, 1, 2)) // number of extra yields inside of callbacks
		p.Cfg["goexitok"] = 1
		if faulty {
			p.Cfg["nested"] = b(r.P(1, 3))
			p.Cfg["nilcreate"] = b(r.P(1, 8))
		}
		disjoint := faulty && r.P(1, 4)
		if disjoint {
			p.Cfg["disjoint"] = 1
			p.Cfg["nested"] = 0
		}
		maxAmount := r.Pick(3, 6, 12)
		if r.P(1, 25) {
			maxAmount = r.Pick(20, 70, 70, 140, 300)
			if r.P(1, 15) {
				maxAmount = r.Pick(600, 1100, 5000)
			}
		}
		prepopLeft := r.N(3)
		for t := 0; t < n; t++ {
			var ops []core.Op
			for k := r.In(1, 5); k > 0; k-- {
				key := int64(r.N(nk))
				if r.P(1, 3) && prepopLeft > 0 {
					prepopLeft--
					ops = append(ops, core.Op{K: "prepop", A: []int64{key, int64(r.N(maxAmount))}})
					continue
				}
				amount := int64(r.In(1, maxAmount))
				if maxAmount > 12 && r.P(1, 2) { // at the top
					amount = int64(maxAmount - r.N(3))
				}
				if r.P(1, 8) {
					amount = 0
				}
				ops = append(ops, core.Op{K: "get", A: []int64{key, amount, b(r.P(1, 2))}})
				if r.P(1, 6) {
					ops = append(ops, core.Op{K: "sleep", A: []int64{int64(r.In(1, 100))}})
				}
			}
			p.Threads = append(p.Threads, ops)
		}
		if faulty {
			for k := r.In(1, 4); k > 0; k-- {
				// kind, key (-1: any), at the n'th call of the callback, slow-down
				where := r.PickS("create", "create", "copy", "rng")
				what := r.PickS("panic", "panic", "goexit", "slow", "slow")
				p.Faults = append(p.Faults, core.Op{K: where + "/" + what, A: []int64{int64(r.N(nk)), int64(r.N(8)), int64(r.In(1, 1000))}})
			}
		}
		return p
	}
}

func b(x bool) int64 {
	if x {
		return 1
	}
	return 0
}

type call struct {
	kind     string
	key      int64
	n        int64
	inv, ret int64
	ok       bool // returned normally
	done     bool // returned at all
	prepop   int64
	vals     []uint64
	simDur   int64
	slept    int64
}

const maxCalls = 64

// world is the state shared by the callbacks. It is only accessed by norace functions: one thread runs at a time.
type world struct {
	x        *core.X
	creating [nKeys]int // how many creations are in progress
	created  [nKeys]int
	calls    [3][nKeys]int // number of calls of each callback per key
	slept    [64]int64     // per thread: simulated time spent in own callbacks
	fault    [16]core.Op
	fired    [16]bool
	nf       int
	extra    [nKeys]int // creations that failed
}

//go:norace
func (w *world) next(where int, key int64) (what string, d int64) {
	c := w.calls[where][key]
	w.calls[where][key]++
	for i := 0; i < w.nf; i++ {
		f := &w.fault[i]
		if w.fired[i] || f.A[0] != key || f.A[1] != int64(c) {
			continue
		}
		switch {
		case where == 0 && hasPrefix(f.K, "create/"):
			what = f.K[7:]
		case where == 1 && hasPrefix(f.K, "copy/"):
			what = f.K[5:]
		case where == 2 && hasPrefix(f.K, "rng/"):
			what = f.K[4:]
		default:
			continue
		}
		w.fired[i] = true
		w.x.Fault(f.K)
		return what, f.A[2]
	}
	return "", 0
}

func hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

type injected struct{ what string }

//go:norace
func (w *world) addSlept(d int64) { w.slept[rt.Self()] += d }

//go:norace
func (w *world) getSlept() int64 { return w.slept[rt.Self()] }

// disturb lets the planned fault happen.
func (w *world) disturb(where int, key int64) {
	what, d := w.next(where, key)
	switch what {
	case "panic":
		panic(injected{"callback"})
	case "goexit":
		runtime.Goexit()
	case "slow":
		rt.Sleep(d)
		w.addSlept(d)
	}
	for i := int64(0); i < w.x.Cfg["depth"]; i++ {
		rt.YieldNow()
	}
}

//go:norace
func (w *world) enter(key int64) bool {
	w.creating[key]++
	return w.creating[key] == 1
}

//go:norace
func (w *world) leave(key int64, ok bool) {
	w.creating[key]--
	if ok {
		w.created[key]++
	}
}

type cacheAPI struct {
	get    func(key int64, n int) []uint64 // also checks isolation by overwriting what it got
	prepop func(key int64, vals []uint64)
}

func (w *world) build() cacheAPI {
	x := w.x
	var api cacheAPI
	seq := [nKeys]*int{}
	for i := range seq {
		seq[i] = new(int)
	}
	rng := func(key int64) *rand.Rand {
		w.disturb(2, key)
		return core.Std(uint64(key)*7919 + 5)
	}
	if x.Cfg["nilrng"] == 1 {
		rng = nil
	}
	draw := func(r *rand.Rand, key int64) uint64 {
		if x.Cfg["nilrng"] == 1 {
			x.Check(r == nil, "wrong rng", "creation function got an rng although none was configured")
			// creation for one key never happens concurrently, so that this needs no synchronisation
			*seq[key]++
			return canon(key, *seq[key]-1)
		}
		return r.Uint64()
	}
	creation := func(r *rand.Rand, key int64, getOther func(key int64)) uint64 {
		x.Check(w.enter(key), "concurrent creation", "two elements for key %d are created at the same time", key)
		ok := false
		defer func() { w.leave(key, ok) }()
		w.disturb(0, key)
		if x.Cfg["nested"] == 1 && key+1 < nKeys {
			getOther(key + 1)
		}
		v := draw(r, key)
		ok = true
		return v
	}
	if x.Cfg["ptr"] == 1 {
		var c testutils.PrecomputedCache[int64, *elem]
		create := func(r *rand.Rand, key int64) *elem {
			v := creation(r, key, func(k int64) { w.checkNested(k, conv(c.GetElements(k, 1))) })
			return &elem{v, []uint64{v, ^v}}
		}
		if x.Cfg["nilcreate"] == 1 {
			create = nil
		}
		copyFun := func(e *elem) *elem {
			w.disturb(1, w.keyOf(e.v))
			return &elem{e.v, append([]uint64(nil), e.more...)}
		}
		c = testutils.MakePrecomputedCache[int64, *elem](rng, create, copyFun)
		api.get = func(key int64, n int) []uint64 {
			es := c.GetElements(key, n)
			vals := conv(es)
			for i, e := range es { // must not influence anybody
				if len(e.more) != 2 || e.more[0] != e.v || e.more[1] != ^e.v {
					x.Violate("damaged element", "element %d of key %d is damaged: %v", i, key, e.more)
				}
				e.v, e.more[0], e.more[1] = 1, 2, 3
				es[i] = nil
			}
			return vals
		}
		api.prepop = func(key int64, vals []uint64) {
			var es []*elem
			for _, v := range vals {
				es = append(es, &elem{v, []uint64{v, ^v}})
			}
			defer func() {
				for i, e := range es {
					e.v, e.more[0], e.more[1] = 4, 5, 6
					es[i] = nil
				}
			}()
			c.PrepopulateCache(key, es)
		}
		return api
	}
	var c testutils.PrecomputedCache[int64, uint64]
	create := func(r *rand.Rand, key int64) uint64 {
		return creation(r, key, func(k int64) { w.checkNested(k, c.GetElements(k, 1)) })
	}
	if x.Cfg["nilcreate"] == 1 {
		create = nil
	}
	copyFun := func(e uint64) uint64 {
		w.disturb(1, w.keyOf(e))
		return e
	}
	if x.Cfg["nilcopy"] == 1 {
		copyFun = nil
	}
	c = testutils.MakePrecomputedCache[int64, uint64](rng, create, copyFun)
	api.get = func(key int64, n int) []uint64 {
		es := c.GetElements(key, n)
		vals := append([]uint64(nil), es...)
		for i := range es {
			es[i] = 1
		}
		return vals
	}
	api.prepop = func(key int64, vals []uint64) {
		es := append([]uint64(nil), vals...)
		defer func() {
			for i := range es {
				es[i] = 2
			}
		}()
		c.PrepopulateCache(key, es)
	}
	return api
}

func conv(es []*elem) []uint64 {
	var vals []uint64
	for _, e := range es {
		vals = append(vals, e.v)
	}
	return vals
}

var keyOfTable = func() map[uint64]int64 {
	m := map[uint64]int64{}
	for k := int64(0); k < nKeys; k++ {
		for i := range canonTable[k] {
			m[canon(k, i)] = k
		}
	}
	return m
}()

// keyOf finds out for which key an element was made.
func (w *world) keyOf(v uint64) int64 {
	if v&0xff == 0xF1 && v>>40 < 1<<16 {
		return int64(v>>48) % nKeys
	}
	return keyOfTable[v]
}

func (w *world) checkNested(key int64, vals []uint64) {
	w.x.Check(len(vals) == 1, "wrong length", "nested retrieval of 1 element returned %d", len(vals))
}

// run executes the plan.
func run(x *core.X) {
	w := &world{x: x}
	for _, f := range x.Faults {
		if w.nf < len(w.fault) && len(f.A) >= 3 && f.A[0] >= 0 && f.A[0] < nKeys {
			w.fault[w.nf] = f
			w.nf++
		}
	}
	api := w.build()
	nT := len(x.Threads)
	hist := make([][]*call, nT)
	keyFor := func(t int, k int64) int64 {
		if x.Cfg["disjoint"] == 1 {
			return int64(t % nKeys)
		}
		if k < 0 {
			k = -k
		}
		return k % nKeys
	}
	do := func(c *call, f func()) {
		sl := w.getSlept()
		t0 := rt.Now()
		c.inv = rt.Tick()
		defer func() {
			c.ret = rt.Tick()
			c.simDur = rt.Now() - t0
			c.slept = w.getSlept() - sl
			if r := recover(); r != nil {
				c.done = true
				if _, ok := r.(injected); !ok && !(c.kind == "prepop") && x.Cfg["nilcreate"] == 0 {
					panic(r)
				}
				x.Obs("%s key=%d n=%d panicked", c.kind, c.key, c.n)
			}
		}()
		f()
		c.ok, c.done = true, true
		x.Obs("%s key=%d n=%d -> %x", c.kind, c.key, c.n, c.vals)
	}
	var fns []func()
	for t := range x.Threads {
		t := t
		fns = append(fns, func() {
			for i, o := range x.Threads[t] {
				switch o.K {
				case "sleep":
					rt.Sleep(o.Arg(0))
				case "get":
					c := &call{kind: "get", key: keyFor(t, o.Arg(0)), n: max(o.Arg(1), 0) % maxElements}
					hist[t] = append(hist[t], c)
					do(c, func() { c.vals = api.get(c.key, int(c.n)) })
				case "prepop":
					c := &call{kind: "prepop", key: keyFor(t, o.Arg(0)), n: max(o.Arg(1), 0) % maxElements}
					c.prepop = c.key<<16 | int64(t)<<8&0x0f00 | int64(i&0xff)
					hist[t] = append(hist[t], c)
					var vals []uint64
					for k := 0; k < int(c.n); k++ {
						vals = append(vals, prepopVal(c.prepop, k))
					}
					do(c, func() { api.prepop(c.key, vals) })
				}
			}
		})
	}
	x.Go(fns...)

	// Oracle over the recorded history.
	var base [nKeys]*call // the successful prepopulation, if any
	var need [nKeys]int   // elements needed by successful calls
	var want [nKeys]int   // elements needed by any call
	var all []*call
	for t := range hist {
		all = append(all, hist[t]...)
	}
	for _, c := range all {
		if c.kind == "prepop" && c.ok {
			x.Check(base[c.key] == nil, "prepopulated twice", "two prepopulations of key %d succeeded", c.key)
			base[c.key] = c
		}
	}
	for _, c := range all {
		if x.Cfg["disjoint"] == 1 && nT <= nKeys && c.done {
			x.Check(c.simDur == c.slept, "blocked by unrelated key", "%s for key %d took %dns of simulated time, but its own callbacks only %dns", c.kind, c.key, c.simDur, c.slept)
		}
		want[c.key] = max(want[c.key], int(c.n))
		switch {
		case c.kind == "get" && c.ok:
			x.Check(len(c.vals) == int(c.n), "wrong length", "asked for %d elements of key %d, got %d", c.n, c.key, len(c.vals))
			checkVals(x, c.vals, c.key, base[c.key])
			need[c.key] = max(need[c.key], int(c.n))
			if c.n > 0 && base[c.key] != nil && c.ret < base[c.key].inv {
				x.Violate("prepopulated after use", "prepopulation of key %d succeeded after elements had been retrieved", c.key)
			}
		case c.kind == "get" && c.done && len(x.Faults) == 0 && x.Cfg["nilcreate"] == 1:
			avail := 0
			if base[c.key] != nil {
				avail = int(base[c.key].n)
			}
			x.Check(int(c.n) > avail || c.inv < base[c.key].ret, "spurious failure", "retrieval of %d of %d prepopulated elements failed", c.n, avail)
		case c.kind == "prepop" && c.done && !c.ok && len(x.Faults) == 0:
			ok := false
			for _, o := range all {
				if o != c && o.key == c.key && o.inv < c.ret && (o.kind == "prepop" || o.n > 0) {
					ok = true
				}
			}
			x.Check(ok || x.Cfg["nested"] == 1, "spurious failure", "prepopulation of the unused key %d failed", c.key)
		}
	}
	if x.Cfg["nested"] == 0 && x.Cfg["nilcreate"] == 0 {
		for k := 0; k < nKeys; k++ {
			off := 0
			if base[k] != nil {
				off = int(base[k].n)
			}
			lo, hi := max(need[k]-off, 0), max(want[k]-off, 0)
			if base[k] == nil {
				hi = max(want[k], 0)
			}
			if len(x.Faults) == 0 {
				hi = lo
			}
			x.Check(w.created[k] >= lo && w.created[k] <= hi, "created too many or too few", "%d elements were created for key %d, but %d..%d were needed", w.created[k], k, lo, hi)
		}
	}
	// Faults have stopped: everything works and continues the same lists.
	w.nf = 0
	x.Seq(func() {
		for k := int64(0); k < nKeys; k++ {
			n := want[k] + 2
			if x.Cfg["nilcreate"] == 1 {
				if base[k] == nil {
					continue
				}
				n = int(base[k].n)
			}
			vals := api.get(k, n)
			x.Check(len(vals) == n, "wrong length", "asked for %d elements of key %d, got %d", n, k, len(vals))
			checkVals(x, vals, k, base[k])
			x.Obs("final %d %x", k, vals)
		}
	})
}

func checkVals(x *core.X, vals []uint64, key int64, base *call) {
	off := 0
	if base != nil {
		off = int(base.n)
	}
	for i, v := range vals {
		var e uint64
		if i < off {
			e = prepopVal(base.prepop, i)
		} else {
			e = canon(key, i-off)
		}
		x.Check(v == e, "wrong element", "element %d of key %d is %#x, must be %#x", i, key, v, e)
	}
}

func init() {
	core.Register(&core.Scenario{Name: "cache", Props: []string{"P01"}, Gen: genPlan(false), Exec: run, Wt: 6})
	core.Register(&core.Scenario{Name: "cache-faults", Props: []string{"P02"}, Gen: genPlan(true), Exec: run})
}
