//go:build go1.22

// Package rt is the runtime of the deterministic simulator.
//
// All simulated threads are goroutines of one process that hand a baton to each other: at any time at most one of them
// runs, and which one runs next is decided only here, either by a seeded policy or by an explicit list of events.
// The instrumenter (tool/instrument.go) inserts a call to Y before every statement of the code under test and redirects sync
// primitives, goroutine creation, clocks, global randomness and map iteration to this package.
//
// Functions here are marked norace and use no maps and no growing slices, and the baton hand-over is hidden from the race detector:
// in a -race build, the only happens-before edges the detector sees are the ones that the code under test creates itself
// (its own mutexes, atomics, goroutine creation). A data race of the code under test is therefore reported
// deterministically although the threads never really run in parallel.
package rt

import (
	"fmt"
	"runtime"
	"runtime/debug"
)

const (
	maxThreads = 4096
	maxEvents  = 1 << 14
	maxSites   = 1 << 16
	fairAfter  = 1 << 16 // steps after which a thread has to let others go on: waiting by polling makes progress under all policies
)

const (
	stRunnable = iota
	stBlocked
	stSleeping
	stDone
)

// Event is one scheduling decision that deviates from the default (keep running; at a blocking point: lowest runnable id).
type Event struct {
	Tid  int `json:"t"`
	Step int `json:"s"` // number of yield points the thread has passed
	To   int `json:"to"`
}

// Policy selects how a seeded schedule is drawn.
type Policy struct {
	Kind string `json:"kind"` // "explicit", "none", "uniform", "burst", "pct", "sync"
	Seed uint64 `json:"seed"`
	Gap  int    `json:"gap"` // mean number of yield points between preemptions, or number of priority changes for pct
	Span int    `json:"span,omitempty"`
}

// Result of a simulated run.
type Result struct {
	Class    string // "" if no violation was found by the runtime itself
	Msg      string
	Events   []Event
	Steps    int
	Switches int
	Hash     uint64 // hash of the whole schedule (thread, site) at every switch and the number of steps
	SimTime  int64
	Panics   []string // uncaught panics of threads
	Overflow bool
}

type thread struct {
	id        int
	ch        chan struct{}
	state     int
	waitOn    *byte
	steps     int
	wakeAt    int64
	unwinding bool
	started   bool
	fn        func()
	prio      int64
	daemon    bool // started by the code under test
	panicMsg  string
}

type sched struct {
	threads  [maxThreads]*thread
	n        int
	running  *thread
	done     chan struct{}
	budget   int
	slack    int // steps without progress that are allowed
	total    int
	switches int
	hash     uint64
	now      int64
	killing  bool
	class    string
	msg      string

	pol       Policy
	rng       uint64
	countdown int
	changeAt  [64]int
	nChange   int
	burst     int

	explicit []Event
	used     []bool
	events   [maxEvents]Event
	nEvents  int
	overflow bool
	live     int
	lastSite uint32
	tick     int64
	join     byte

	solo    int // steps since the last switch
	giveWay bool
	demoted int64

	waiters  [maxThreads]*Sel
	nWaiters int
	choices  uint64
	polled   bool
}

var (
	cur      *sched
	schedBuf sched
	siteHits [maxSites]uint8
	perm     uint64 // seed of the map iteration order, 0: canonical order
	grng     uint64 // state of the stream that replaces global math/rand
	grngUsed int
	stepCap  int
	soloStep int
)

//go:norace
func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

//go:norace
func (s *sched) rand() uint64 {
	s.rng += 0x9e3779b97f4a7c15
	return mix(s.rng)
}

// Active reports whether a simulated run is in progress.
//
//go:norace
func Active() bool { return cur != nil }

// Y is a yield point.
//
//go:norace
func Y(site uint32) {
	if cur == nil {
		if stepCap != 0 {
			solo()
		}
		return
	}
	cur.yield(site)
}

// solo counts the steps of code that runs outside of threads, bounding them if asked to (see Bounded).
//
//go:norace
func solo() {
	soloStep++
	if soloStep > stepCap {
		stepCap = 0
		panic(StepLimit{soloStep})
	}
}

// StepLimit is the panic value used if code run by Bounded did not finish in time.
type StepLimit struct{ Steps int }

func (e StepLimit) Error() string {
	return fmt.Sprintf("no result after %d simulated steps", e.Steps)
}

// Bounded runs f single-threaded, with an upper bound on the number of yield points it passes. It panics with StepLimit if f exceeds them.
//
//go:norace
func Bounded(limit int, f func()) (steps int) {
	if cur != nil {
		f()
		return 0
	}
	stepCap, soloStep = limit, 0
	defer boundedEnd()
	f()
	return soloStep
}

//go:norace
func boundedEnd() { stepCap = 0 }

// StepLog records the yield points passed, if it is not nil (debugging).
var StepLog []uint32

//go:norace
func (s *sched) yield(site uint32) {
	t := s.running
	if t.unwinding {
		return
	}
	if s.killing {
		t.unwinding = true
		runtime.Goexit()
	}
	t.steps++
	s.total++
	s.lastSite = site
	if StepLog != nil {
		StepLog = append(StepLog, site)
	}
	if site < maxSites {
		siteHits[site] = 1
	}
	if s.total > s.budget {
		s.fail("livelock", "the run did not finish within its step budget")
		return
	}
	to := s.decide(t)
	s.solo++
	fair := s.solo > fairAfter // in every kind of run
	if fair || s.giveWay && s.pol.Kind != "explicit" && !s.overflow {
		if to < 0 || to == t.id {
			s.demoted--
			t.prio = s.demoted
			to = s.after(t.id)
		}
		if fair {
			s.solo = 0
		}
	}
	s.giveWay = false
	if to >= 0 && to != t.id && (s.record(t, to) || fair) {
		s.switchTo(s.threads[to], site)
	}
}

// Progress tells that the harness has got somewhere: what follows has the whole budget of steps again.
//
//go:norace
func Progress() {
	if s := cur; s != nil {
		s.budget = s.total + s.slack
	}
}

// YieldNow is a yield point at which the policy is asked to switch with high probability (sync operations, simulated I/O).
//
//go:norace
func YieldNow() {
	s := cur
	if s == nil {
		return
	}
	if s.pol.Kind != "explicit" && s.pol.Kind != "none" && s.rand()%2 == 0 {
		s.countdown = 1
	}
	s.yield(0)
}

//go:norace
func (s *sched) decide(t *thread) int {
	switch s.pol.Kind {
	case "explicit":
		return s.lookup(t.id, t.steps)
	case "none":
		return -1
	case "pct":
		for i := 0; i < s.nChange; i++ {
			if s.changeAt[i] == s.total {
				t.prio = int64(s.nChange - i) // below all initial priorities
			}
		}
		return s.best()
	case "sync":
		if s.countdown != 1 {
			return -1
		}
		s.countdown = 0
		return s.pick(t.id)
	default: // uniform, burst
		s.countdown--
		if s.countdown > 0 {
			return -1
		}
		s.rearm()
		return s.pick(t.id)
	}
}

//go:norace
func (s *sched) rearm() {
	g := s.pol.Gap
	if g < 1 {
		g = 1
	}
	if s.pol.Kind == "burst" { // phases of dense and of rare switching
		if s.burst == 0 {
			s.burst = int(s.rand()%64) + 1
		}
		s.burst--
		if s.burst%16 < 8 {
			g = 1 + int(s.rand()%3)
		}
	}
	s.countdown = 1 + int(s.rand()%uint64(2*g))
}

// lookup finds the explicit decision for a thread at a step.
//
//go:norace
func (s *sched) lookup(tid, step int) int {
	for i := range s.explicit {
		e := &s.explicit[i]
		if !s.used[i] && e.Tid == tid && e.Step == step {
			s.used[i] = true
			if e.To >= 0 && e.To < s.n && s.threads[e.To].state == stRunnable {
				return e.To
			}
			return -1
		}
	}
	return -1
}

// pick draws a runnable thread, preferably another one. -1 if there is none at all.
//
//go:norace
func (s *sched) pick(not int) int {
	c := 0
	for i := 0; i < s.n; i++ {
		if i != not && s.threads[i].state == stRunnable {
			c++
		}
	}
	if c == 0 {
		if not >= 0 && s.threads[not].state == stRunnable {
			return not
		}
		return -1
	}
	k := int(s.rand() % uint64(c))
	for i := 0; i < s.n; i++ {
		if i != not && s.threads[i].state == stRunnable {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return -1
}

// after returns the next runnable thread in cyclic order, -1 if there is no other one.
//
//go:norace
func (s *sched) after(id int) int {
	for i := 1; i < s.n; i++ {
		if k := (id + i) % s.n; s.threads[k].state == stRunnable {
			return k
		}
	}
	return -1
}

//go:norace
func (s *sched) best() int {
	b := -1
	for i := 0; i < s.n; i++ {
		if s.threads[i].state == stRunnable && (b < 0 || s.threads[i].prio > s.threads[b].prio) {
			b = i
		}
	}
	return b
}

//go:norace
func (s *sched) lowest() int {
	for i := 0; i < s.n; i++ {
		if s.threads[i].state == stRunnable {
			return i
		}
	}
	return -1
}

//go:norace
func (s *sched) record(t *thread, to int) bool {
	if s.nEvents < maxEvents {
		s.events[s.nEvents] = Event{t.id, t.steps, to}
		s.nEvents++
		return true
	}
	s.overflow = true
	if s.pol.Kind != "explicit" {
		s.pol.Kind = "none"
	}
	return false
}

// switchTo passes the baton to n and waits until it comes back.
//
//go:norace
func (s *sched) switchTo(n *thread, site uint32) {
	t := s.running
	s.handOver(n, site)
	raceDisable()
	<-t.ch
	raceEnable()
	if s.killing && !t.unwinding {
		t.unwinding = true
		runtime.Goexit()
	}
}

//go:norace
func (s *sched) handOver(n *thread, site uint32) {
	s.switches++
	s.hash = mix(s.hash ^ uint64(n.id)<<40 ^ uint64(site)<<8 ^ uint64(s.running.id))
	s.running = n
	s.solo = 0
	raceDisable()
	n.ch <- struct{}{}
	raceEnable()
}

// next selects the thread to run when the current one cannot continue. Returns nil if nobody can.
//
//go:norace
func (s *sched) next(t *thread) *thread {
	for {
		if s.killing {
			for i := 0; i < s.n; i++ {
				if s.threads[i].state != stDone && s.threads[i] != t {
					return s.threads[i]
				}
			}
			return nil
		}
		def := s.lowest()
		if def >= 0 {
			to := -1
			t.steps++
			switch s.pol.Kind {
			case "explicit":
				to = s.lookup(t.id, t.steps)
			case "none":
			case "pct":
				to = s.best()
			default:
				to = s.pick(t.id)
			}
			if to < 0 {
				to = def
			}
			if to != def && !s.record(t, to) {
				to = def
			}
			return s.threads[to]
		}
		// nobody is runnable: let simulated time pass
		wake := int64(-1)
		for i := 0; i < s.n; i++ {
			if s.threads[i].state == stSleeping && (wake < 0 || s.threads[i].wakeAt < wake) {
				wake = s.threads[i].wakeAt
			}
		}
		if wake < 0 {
			if !s.polled && s.poll() { // channels that code outside of the simulation uses
				continue
			}
			return nil
		}
		if wake > s.now {
			s.now = wake
		}
		for i := 0; i < s.n; i++ {
			if s.threads[i].state == stSleeping && s.threads[i].wakeAt <= s.now {
				s.threads[i].state = stRunnable
			}
		}
	}
}

// poll lets all threads that wait for channel operations try again.
//
//go:norace
func (s *sched) poll() (any bool) {
	s.polled = true
	for i := 0; i < s.n; i++ {
		if t := s.threads[i]; t.state == stBlocked && t.waitOn == &chanKey {
			t.state = stRunnable
			t.waitOn = nil
			any = true
		}
	}
	return any
}

// onlyDaemons reports whether nobody but threads that the code under test has started is left: programs end although such
// goroutines still wait for something.
//
//go:norace
func (s *sched) onlyDaemons() bool {
	for i := 0; i < s.n; i++ {
		if s.threads[i].state != stDone && !s.threads[i].daemon {
			return false
		}
	}
	return true
}

// Block suspends the current thread until Wake is called for the same object.
//
//go:norace
func Block(on *byte) {
	s := cur
	if s == nil {
		panic("simulator: blocking operation outside of a simulated run")
	}
	t := s.running
	if t.unwinding {
		return
	}
	t.state = stBlocked
	t.waitOn = on
	s.suspend(t)
}

//go:norace
func (s *sched) suspend(t *thread) {
	n := s.next(t)
	if n == nil {
		t.state = stRunnable
		if s.onlyDaemons() {
			s.fail("", "")
			return
		}
		s.fail("deadlock", s.describe(t))
		return
	}
	if n == t { // its own timer fired
		return
	}
	s.switchTo(n, s.lastSite)
}

//go:norace
func (s *sched) describe(t *thread) string {
	m := "no thread can make progress: threads still blocked:"
	for i := 0; i < s.n; i++ {
		if s.threads[i].state == stBlocked || s.threads[i] == t {
			m += fmt.Sprintf(" T%d", i)
		}
	}
	return m
}

// Wake makes all threads blocked on the object runnable.
//
//go:norace
func Wake(on *byte) {
	s := cur
	if s == nil {
		return
	}
	for i := 0; i < s.n; i++ {
		t := s.threads[i]
		if t.state == stBlocked && t.waitOn == on {
			t.state = stRunnable
			t.waitOn = nil
		}
	}
}

// Sleep suspends the current thread for simulated time.
//
//go:norace
func Sleep(d int64) {
	s := cur
	if s == nil {
		return
	}
	t := s.running
	if t.unwinding {
		return
	}
	if d <= 0 {
		YieldNow()
		return
	}
	t.state = stSleeping
	t.wakeAt = s.now + d
	s.suspend(t)
}

// Now is the simulated clock.
//
//go:norace
func Now() int64 {
	if cur == nil {
		return 0
	}
	return cur.now
}

// Tick returns a strictly increasing global sequence number (for recorded histories).
//
//go:norace
func Tick() int64 {
	if cur == nil {
		return 0
	}
	cur.tick++
	return cur.tick
}

// Self returns the id of the running thread, -1 outside of a run.
//
//go:norace
func Self() int {
	if cur == nil {
		return -1
	}
	return cur.running.id
}

// Killing reports whether the run is being torn down.
//
//go:norace
func Killing() bool { return cur != nil && cur.killing }

// Fail records a violation found while the run proceeds and ends the run.
//
//go:norace
func Fail(class, msg string) {
	if cur == nil {
		panic("simulator: Fail outside of a run: " + class + ": " + msg)
	}
	cur.fail(class, msg)
}

//go:norace
func (s *sched) fail(class, msg string) {
	if s.class == "" {
		s.class, s.msg = class, msg
	}
	s.killing = true
	t := s.running
	if !t.unwinding {
		t.unwinding = true
		runtime.Goexit()
	}
}

//go:norace
func (s *sched) add(fn func()) *thread {
	if s.n >= maxThreads {
		panic("simulator: too many threads")
	}
	t := &thread{id: s.n, ch: make(chan struct{}, 1), fn: fn, prio: int64(1000 + s.rand()%1000000)}
	s.threads[s.n] = t
	s.n++
	s.live++
	go s.main(t)
	return t
}

//go:norace
func (s *sched) main(t *thread) {
	raceDisable()
	<-t.ch
	raceEnable()
	defer s.finish(t)
	defer s.catch(t)
	if s.killing {
		return
	}
	t.fn()
}

//go:norace
func (s *sched) catch(t *thread) {
	if t.unwinding {
		_ = recover() // panics of deferred functions of a thread that is being removed
		return
	}
	if r := recover(); r != nil {
		t.panicMsg = fmt.Sprintf("%v\n%s", r, debug.Stack())
		if s.class == "" {
			s.class, s.msg = "panic", fmt.Sprintf("uncaught panic in thread %d: %v", t.id, r)
		}
		s.killing = true
	}
}

//go:norace
func (s *sched) finish(t *thread) {
	t.state = stDone
	t.unwinding = true
	s.live--
	raceReleaseMerge(&s.join)
	n := s.next(t)
	if n != nil {
		s.handOver(n, s.lastSite)
		return
	}
	if s.live > 0 {
		// everybody else is blocked
		if s.class == "" && !s.onlyDaemons() {
			s.class, s.msg = "deadlock", s.describe(nil)
		}
		s.killing = true
		s.handOver(s.next(t), s.lastSite)
		return
	}
	raceDisable()
	s.done <- struct{}{}
	raceEnable()
}

// Go starts a new simulated thread (go statements of instrumented code).
//
//go:norace
func Go(fn func()) {
	if cur == nil {
		go fn()
		return
	}
	cur.add(fn).daemon = true
	YieldNow()
}

// Run executes the given functions as simulated threads and returns when all of them are done.
// Within a run, nothing but seed and events decides what happens.
//
//go:norace
func Run(pol Policy, explicit []Event, budget int, fns ...func()) (res Result) {
	if cur != nil {
		panic("simulator: nested run")
	}
	schedBuf = sched{}
	s := &schedBuf
	s.done = make(chan struct{}, 1)
	s.budget, s.slack = budget, budget
	s.pol = pol
	s.rng = mix(pol.Seed)
	s.explicit = explicit
	s.used = make([]bool, len(explicit))
	if pol.Kind == "uniform" || pol.Kind == "burst" {
		s.rearm()
	}
	if pol.Kind == "pct" {
		s.nChange = pol.Gap
		if s.nChange > len(s.changeAt) {
			s.nChange = len(s.changeAt)
		}
		span := pol.Span
		if span < 1 {
			span = 1
		}
		for i := 0; i < s.nChange; i++ {
			s.changeAt[i] = 1 + int(s.rand()%uint64(span))
		}
	}
	for _, f := range fns {
		s.add(f)
	}
	if s.n == 0 {
		return
	}
	cur = s
	first := s.threads[0]
	switch pol.Kind {
	case "explicit":
		if to := s.lookup(-1, 0); to >= 0 {
			first = s.threads[to]
		}
	case "none":
	case "pct":
		first = s.threads[s.best()]
	default:
		first = s.threads[s.pick(-1)]
	}
	if first.id != 0 {
		s.events[0] = Event{-1, 0, first.id}
		s.nEvents = 1
	}
	s.running = first
	raceDisable()
	first.ch <- struct{}{}
	<-s.done
	raceEnable()
	raceAcquire(&s.join)
	cur = nil
	res.Class, res.Msg = s.class, s.msg
	res.Steps, res.Switches = s.total, s.switches
	res.Hash = mix(s.hash ^ uint64(s.total))
	res.SimTime = s.now
	res.Overflow = s.overflow
	if pol.Kind == "explicit" {
		for i, u := range s.used {
			if u {
				res.Events = append(res.Events, explicit[i])
			}
		}
	} else {
		res.Events = append(res.Events, s.events[:s.nEvents]...)
	}
	for i := 0; i < s.n; i++ {
		if s.threads[i].panicMsg != "" {
			res.Panics = append(res.Panics, s.threads[i].panicMsg)
		}
	}
	return
}

// SitesHit returns how many distinct yield points were passed inside of threads since the process started.
func SitesHit() (n int) {
	for _, h := range siteHits {
		if h != 0 {
			n++
		}
	}
	return
}

// SetPerm sets the seed that determines map iteration order in instrumented code.
func SetPerm(seed uint64) { perm = seed }

// SetGlobalRand seeds the stream that replaces global math/rand in instrumented code.
func SetGlobalRand(seed uint64) { grng = seed; grngUsed = 0 }

// GlobalRandUsed reports how many values were drawn from the global stream since SetGlobalRand.
func GlobalRandUsed() int { return grngUsed }

//go:norace
func GlobalRand64() uint64 {
	grngUsed++
	grng += 0x9e3779b97f4a7c15
	return mix(grng)
}

// SiteList returns the yield points passed inside of threads.
func SiteList() (l []int) {
	for i, h := range siteHits {
		if h != 0 && i > 0 {
			l = append(l, i)
		}
	}
	return
}
