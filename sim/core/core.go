//go:build go1.22

// Package core is the part of the simulation harness that is common to all scenarios: plans, seeded generation, execution,
// recording, minimisation, replay and the worker protocol spoken with the driver (/verif/tool).
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"regexp"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"

	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/rt"
)

// Op is one operation of a simulated thread or one entry of a fault script.
type Op struct {
	K string  `json:"k"`
	A []int64 `json:"a,omitempty"`
}

// Arg returns the i'th argument, 0 if there is none.
func (o Op) Arg(i int) int64 {
	if i < len(o.A) {
		return o.A[i]
	}
	return 0
}

func (o Op) String() string {
	if len(o.A) == 0 {
		return o.K
	}
	return o.K + strings.ReplaceAll(fmt.Sprint(o.A), " ", ",")
}

// Plan is everything that determines a simulated run, apart from the schedule.
type Plan struct {
	Scenario string           `json:"scenario"`
	Seed     uint64           `json:"seed"`
	Cfg      map[string]int64 `json:"cfg,omitempty"`
	Threads  [][]Op           `json:"threads,omitempty"`
	Faults   []Op             `json:"faults,omitempty"`
	Policy   rt.Policy        `json:"policy"`
	Perm     uint64           `json:"perm"`
}

func (p *Plan) clone() *Plan {
	q := *p
	q.Cfg = map[string]int64{}
	for k, v := range p.Cfg {
		q.Cfg[k] = v
	}
	cp := func(os []Op) []Op {
		r := make([]Op, len(os))
		for i, o := range os {
			r[i] = Op{o.K, append([]int64(nil), o.A...)}
		}
		return r
	}
	q.Threads = make([][]Op, len(p.Threads))
	for i := range p.Threads {
		q.Threads[i] = cp(p.Threads[i])
	}
	q.Faults = cp(p.Faults)
	return &q
}

func (p *Plan) hash() uint64 {
	q := p.clone()
	q.Policy = rt.Policy{}
	q.Seed = 0
	b, _ := json.Marshal(q)
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// Scenario is a workload with its oracle.
type Scenario struct {
	Name  string
	Props []string // properties it decides
	Gen   func(r *Rng, thorough bool) *Plan
	Exec  func(x *X)
	Init  func() // run once per process before anything else (single-threaded, before globals are recorded)
	Wt    int    // relative frequency (default 1)
}

var scenarios []*Scenario

// Register adds a scenario.
func Register(s *Scenario) { scenarios = append(scenarios, s) }

const maxNames = 128

type counter struct {
	names [maxNames]string
	n     [maxNames]int64
	len   int
}

//go:norace
func (c *counter) add(name string) {
	for i := 0; i < c.len; i++ {
		if c.names[i] == name {
			c.n[i]++
			return
		}
	}
	if c.len < maxNames {
		c.names[c.len] = name
		c.n[c.len] = 1
		c.len++
	}
}

func (c *counter) into(m map[string]int64) {
	for i := 0; i < c.len; i++ {
		m[c.names[i]] += c.n[i]
	}
}

const maxThreads = 64

// X is the execution of one plan.
type X struct {
	*Plan
	Tracing  bool
	explicit []rt.Event
	useExpl  bool

	class, msg string
	known      int
	res        rt.Result
	ran        bool
	hash       [maxThreads + 1]uint64
	trace      [maxThreads + 1][]string
	faults     counter
	probes     counter
	raceBefore int
	seqs       uint64
	extraSteps int
	extraSim   int64
}

// Outcome of an execution.
type Outcome struct {
	Class  string     `json:"class"`
	Msg    string     `json:"msg"`
	Events []rt.Event `json:"events"`
	Hash   uint64     `json:"hash"`
	Sched  uint64     `json:"-"`
	Steps  int        `json:"steps"`
	Switch int        `json:"switches"`
	Sim    int64      `json:"simtime_ns"`
	Known  bool       `json:"known,omitempty"`
	Trace  []string   `json:"trace,omitempty"`
	x      *X
}

type abort struct{}

// Fault counts a fault that really fired.
//
//go:norace
func (x *X) Fault(kind string) { x.faults.add(kind) }

// Probe counts that a rare condition was reached.
//
//go:norace
func (x *X) Probe(name string) { x.probes.add(name) }

// Obs mixes observed values into the thread's observation hash (for determinism checks) and traces them.
func (x *X) Obs(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	t := rt.Self() + 1
	x.mixin(t, h)
	if x.Tracing {
		x.trace[t] = append(x.trace[t], fmt.Sprintf("%06d T%d %s", rt.Tick(), t-1, s))
	}
}

//go:norace
func (x *X) mixin(t int, h uint64) {
	x.hash[t] = (x.hash[t]*1099511628211 ^ h) + 0x9e3779b97f4a7c15
}

// Violate reports a violation and ends the run (it does not return).
func (x *X) Violate(class, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if rt.Active() {
		rt.Fail(class, msg)
		return
	}
	if x.class == "" {
		x.class, x.msg = class, msg
	}
	panic(abort{})
}

// Check reports a violation unless ok.
func (x *X) Check(ok bool, class, format string, args ...any) {
	if !ok {
		x.Violate(class, format, args...)
	}
	rt.Progress()
}

// Budget is the bound on the number of steps between two checks of a run.
const Budget = 250_000_000

// Go runs the functions as simulated threads under the plan's schedule. Only one call per execution.
func (x *X) Go(fns ...func()) {
	if x.ran {
		panic("harness: X.Go called twice")
	}
	x.ran = true
	pol := x.Policy
	var ex []rt.Event
	if x.useExpl {
		pol = rt.Policy{Kind: "explicit"}
		ex = x.explicit
	}
	x.res = rt.Run(pol, ex, Budget, fns...)
	x.settle(x.res)
}

func (x *X) settle(res rt.Result) {
	if res.Class != "" && x.class == "" {
		x.class, x.msg = res.Class, res.Msg
		if res.Class == "panic" && len(res.Panics) > 0 {
			x.class = "panic"
			x.msg = res.Msg + " at " + panicSite(res.Panics[0])
			if x.Tracing {
				x.trace[0] = append(x.trace[0], strings.Split(res.Panics[0], "\n")...)
			}
		}
		panic(abort{})
	}
	if rt.RaceErrors() > x.raceBefore {
		x.raceBefore = rt.RaceErrors()
		x.class, x.msg = "data race", "the race detector found conflicting unsynchronised accesses"
		if r := readRaceLog(); r != "" {
			x.msg += ": " + r
		}
		panic(abort{})
	}
}

// Seq runs f as a single simulated thread (sequential reference executions, phases without concurrency).
func (x *X) Seq(f func()) {
	x.seqs++
	res := rt.Run(rt.Policy{Kind: "uniform", Seed: x.Plan.Perm + x.seqs, Gap: 6}, nil, Budget, f) // matters if the code under test starts threads
	x.extraSteps += res.Steps
	x.extraSim += res.SimTime
	x.settle(res)
}

var siteRe = regexp.MustCompile(`(/[^\s:]+\.go):(\d+)`)

// panicSite extracts the innermost frame in the code under test.
func panicSite(stack string) string {
	after := stack
	if i := strings.LastIndex(stack, "panic("); i >= 0 {
		after = stack[i:]
	}
	for _, m := range siteRe.FindAllStringSubmatch(after, -1) {
		if strings.Contains(m[1], "/repo/") && !strings.Contains(m[1], "verifsim") {
			return m[1] + ":" + m[2]
		}
	}
	for _, m := range siteRe.FindAllStringSubmatch(after, -1) {
		if strings.Contains(m[1], "verifsim/h_") {
			return m[1] + ":" + m[2]
		}
	}
	return "unknown site"
}

var raceLogOff int64

// readRaceLog returns a summary of the race reports written since the last call.
func readRaceLog() string {
	p := os.Getenv("VSIM_RACELOG")
	if p == "" {
		return ""
	}
	f, err := os.Open(fmt.Sprintf("%s.%d", p, os.Getpid()))
	if err != nil {
		return ""
	}
	defer f.Close()
	f.Seek(raceLogOff, 0)
	buf := make([]byte, 1<<16)
	n, _ := f.Read(buf)
	st, _ := f.Stat()
	raceLogOff = st.Size()
	var sites []string
	for _, l := range strings.Split(string(buf[:n]), "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "by goroutine") || strings.Contains(l, "by main") {
			if len(sites) == 2 {
				break
			}
			w := strings.Fields(l)
			k := w[0]
			if k == "Previous" {
				k = w[1]
			}
			sites = append(sites, strings.ToLower(k)+" at ?")
		}
		if m := siteRe.FindStringSubmatch(l); m != nil && len(sites) > 0 && strings.HasSuffix(sites[len(sites)-1], "?") && strings.Contains(m[1], "/repo/") && (!strings.Contains(m[1], "verifsim/rt") && !strings.Contains(m[1], "verifsim/core")) {
			sites[len(sites)-1] = strings.TrimSuffix(sites[len(sites)-1], "?") + m[1][strings.Index(m[1], "/repo/")+6:] + ":" + m[2]
		}
	}
	return strings.Join(sites, " / ")
}

var debugStack = os.Getenv("VSIM_DEBUG") != ""

func findScenario(name string) *Scenario {
	for _, s := range scenarios {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// Known is an entry of the list of known findings.
type Known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "open" or "fixed"
	Scenario string `json:"scenario,omitempty"`
	Class    string `json:"class,omitempty"`
	Match    string `json:"match,omitempty"` // regular expression for the message
	What     string `json:"what"`
	re       *regexp.Regexp
}

var knowns []*Known
var curProp string

func matchKnown(scen, class, msg string) int {
	for i, k := range knowns {
		if k.Status != "open" || (k.Property != curProp && curProp != "") || (k.Scenario != "" && k.Scenario != scen) || k.Class != class {
			continue
		}
		if k.re == nil {
			k.re = regexp.MustCompile(k.Match)
		}
		if k.re.MatchString(msg) {
			return i
		}
	}
	return -1
}

var progress atomic.Int64

// execute performs one run. events==nil && !expl: use the plan's policy.
func execute(p *Plan, events []rt.Event, expl, tracing bool) (out *Outcome) {
	s := findScenario(p.Scenario)
	if s == nil {
		panic("harness: unknown scenario " + p.Scenario)
	}
	progress.Store(time.Now().Unix())
	rt.RestoreGlobals()
	rt.SetPerm(p.Perm)
	rt.SetGlobalRand(p.Seed)
	x := &X{Plan: p.clone(), Tracing: tracing, explicit: events, useExpl: expl, known: -1, raceBefore: rt.RaceErrors()}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abort); ok {
					return
				}
				st := string(debug.Stack())
				if debugStack {
					fmt.Fprintln(os.Stderr, r, st)
				}
				if sl, ok := r.(rt.StepLimit); ok {
					x.class, x.msg = "livelock", sl.Error()
					return
				}
				x.class, x.msg = "panic", fmt.Sprintf("uncaught panic: %v at %s", r, panicSite(st))
				x.trace[0] = append(x.trace[0], strings.Split(st, "\n")...)
			}
		}()
		s.Exec(x)
		if rt.RaceErrors() > x.raceBefore {
			x.settle(rt.Result{})
		}
	}()
	out = &Outcome{Class: x.class, Msg: x.msg, Events: x.res.Events, Steps: x.res.Steps + x.extraSteps, Switch: x.res.Switches, Sim: x.res.SimTime + x.extraSim, Sched: x.res.Hash, x: x}
	h := x.res.Hash
	for _, v := range x.hash {
		h = h*1099511628211 ^ v
	}
	for i := 0; i < len(x.class); i++ {
		h = (h ^ uint64(x.class[i])) * 1099511628211
	}
	out.Hash = h
	if out.Class != "" {
		if i := matchKnown(p.Scenario, out.Class, out.Msg); i >= 0 {
			out.Known = true
			x.known = i
		}
	}
	if tracing {
		for t := 1; t <= maxThreads; t++ {
			out.Trace = append(out.Trace, x.trace[t]...)
		}
		sortTrace(out.Trace)
		out.Trace = append(out.Trace, x.trace[0]...)
	}
	return
}

func sortTrace(t []string) {
	for i := 1; i < len(t); i++ {
		for j := i; j > 0 && t[j-1] > t[j]; j-- {
			t[j-1], t[j] = t[j], t[j-1]
		}
	}
}

// FaultsFor returns the faults of a thread. Faults are addressed by a suffix "@thread" of their kind; without one, they belong to thread 0.
func (p *Plan) FaultsFor(t int) (fs []Op) {
	for _, f := range p.Faults {
		k, at := f.K, "0"
		if i := strings.IndexByte(k, '@'); i >= 0 {
			k, at = k[:i], k[i+1:]
		}
		if at == fmt.Sprint(t) {
			fs = append(fs, Op{k, f.A})
		}
	}
	return
}

// At addresses faults to a thread.
func At(t int, fs []Op) []Op {
	for i := range fs {
		fs[i].K = fmt.Sprintf("%s@%d", fs[i].K, t)
	}
	return fs
}

// B converts a bool.
func B(x bool) int64 {
	if x {
		return 1
	}
	return 0
}

// Try runs f and returns the value it panicked with.
func Try(f func()) (val any, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			val = recover()
			if _, ok := val.(abort); ok {
				panic(val)
			}
			if val == nil { // runtime.Goexit: the run is being torn down
				panicked = false
			}
		}
	}()
	f()
	panicked = false
	return
}
