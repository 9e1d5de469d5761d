//go:build go1.22

package rt

import (
	"reflect"
	"runtime"
	"time"
	"unsafe"
)

// Channels of the code under test. Buffered channels hold their values themselves: operations are tried without blocking, and a
// thread whose operation is not possible yet waits in the scheduler until some channel operation has happened. Unbuffered
// channels need two parties, only one of which runs at any time: the one that comes first registers itself as a waiter, the other
// one transfers the value. Which one of several possible operations a select statement takes is a function of the seed of the
// plan and of how many choices were made before.

type chanOp interface {
	try() bool // without blocking
	ptr() unsafe.Pointer
	rendezvous() bool // an unbuffered channel
	sending() bool
	give() unsafe.Pointer
	take(unsafe.Pointer)
	native() reflect.SelectCase
	received(v reflect.Value, ok bool)
}

type sendOp[T any] struct {
	ch chan<- T
	v  T
}

func (o *sendOp[T]) try() bool {
	select {
	case o.ch <- o.v:
		return true
	default:
		return false
	}
}

//go:norace
func (o *sendOp[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&o.ch)) }

//go:norace
func (o *sendOp[T]) rendezvous() bool { return cap(o.ch) == 0 }

//go:norace
func (o *sendOp[T]) sending() bool        { return true }
func (o *sendOp[T]) give() unsafe.Pointer { return unsafe.Pointer(&o.v) }
func (o *sendOp[T]) take(unsafe.Pointer)  {}

func (o *sendOp[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(o.ch), Send: reflect.ValueOf(&o.v).Elem()}
}
func (o *sendOp[T]) received(reflect.Value, bool) {}

// Received is the outcome of a receive operation.
type Received[T any] struct {
	V  T
	OK bool
	ch <-chan T
}

func (o *Received[T]) try() bool {
	select {
	case o.V, o.OK = <-o.ch:
		return true
	default:
		return false
	}
}

//go:norace
func (o *Received[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&o.ch)) }

//go:norace
func (o *Received[T]) rendezvous() bool { return cap(o.ch) == 0 }

//go:norace
func (o *Received[T]) sending() bool         { return false }
func (o *Received[T]) give() unsafe.Pointer  { return nil }
func (o *Received[T]) take(p unsafe.Pointer) { o.V, o.OK = *(*T)(p), true }

func (o *Received[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(o.ch)}
}
func (o *Received[T]) received(v reflect.Value, ok bool) {
	reflect.ValueOf(&o.V).Elem().Set(v)
	o.OK = ok
}

// outside executes the statement outside of simulated runs (initialisation).
func (l *Sel) outside() int {
	var cs []reflect.SelectCase
	for _, o := range l.ops {
		cs = append(cs, o.native())
	}
	if l.hasDefault {
		cs = append(cs, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	k, v, ok := reflect.Select(cs)
	if k == len(l.ops) {
		return -1
	}
	if cs[k].Dir == reflect.SelectRecv {
		l.ops[k].received(v, ok)
	}
	return k
}

// Sel is a select statement (or a single channel operation) under execution.
type Sel struct {
	ops        []chanOp
	hasDefault bool
	fired      int
	t          *thread
	in, out    byte // synchronisation as seen by the race detector
}

// NewSel starts a select statement.
func NewSel(hasDefault bool) *Sel { return &Sel{hasDefault: hasDefault} }

// SelRecv adds a receive case.
func SelRecv[T any](l *Sel, ch <-chan T) *Received[T] {
	r := &Received[T]{ch: ch}
	l.ops = append(l.ops, r)
	return r
}

// SelSend adds a send case.
func SelSend[T any](l *Sel, ch chan<- T) func(v T) {
	return func(v T) { l.ops = append(l.ops, &sendOp[T]{ch, v}) }
}

// SendTo replaces the send statement: ch <- v becomes SendTo(ch)(v).
func SendTo[T any](ch chan<- T) func(v T) {
	return func(v T) {
		l := Sel{ops: []chanOp{&sendOp[T]{ch, v}}}
		l.Do()
	}
}

// Recv replaces the receive operator.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 replaces the receive operator in its form with two results.
func Recv2[T any](ch <-chan T) (T, bool) {
	r := &Received[T]{ch: ch}
	l := Sel{ops: []chanOp{r}}
	l.Do()
	return r.V, r.OK
}

// CloseChan replaces close.
func CloseChan[T any](ch chan<- T) {
	YieldNow()
	close(ch)
	Wake(&chanKey)
	YieldNow()
}

// ChanIter replaces a channel as operand of range.
type ChanIter[T any] struct{ ch <-chan T }

// RangeChan replaces a channel as operand of range; the second result is the initial value of the loop variable.
func RangeChan[T any](ch <-chan T) (ChanIter[T], T) {
	var z T
	return ChanIter[T]{ch}, z
}

// RangeChan0 is for loops without loop variable.
func RangeChan0[T any](ch <-chan T) ChanIter[T] { return ChanIter[T]{ch} }

// Next receives.
func (c ChanIter[T]) Next(v *T) bool {
	x, ok := Recv2(c.ch)
	if ok {
		*v = x
	}
	return ok
}

// Next0 receives.
func (c ChanIter[T]) Next0() bool {
	_, ok := Recv2(c.ch)
	return ok
}

// Forever replaces the empty select statement.
func Forever() {
	l := Sel{}
	l.Do()
}

var chanKey byte

// Do executes the statement. It returns the index of the case that was taken, -1 for the default case.
//
//go:norace
func (l *Sel) Do() int {
	s := cur
	n := len(l.ops)
	if s == nil {
		return l.outside()
	}
	YieldNow()
	first := 0
	if n > 1 {
		s.choices++
		if p := permSeed(); p != 0 {
			first = int(mix(p^s.choices) % uint64(n))
		}
	}
	for {
		if s.killing {
			Y(0)
			for k := 0; k < n; k++ { // deferred functions of a thread that is being removed
				if l.ops[k].ptr() != nil && l.ops[k].try() {
					return k
				}
			}
			if l.hasDefault || n == 0 {
				return -1
			}
			return 0
		}
		for i := 0; i < n; i++ {
			k := (first + i) % n
			if l.attempt(k) {
				s.polled = false
				YieldNow()
				return k
			}
		}
		if l.hasDefault {
			return -1
		}
		l.t, l.fired = s.running, -1
		raceReleaseMerge(&l.in)
		s.register(l)
		Block(&chanKey)
		s.unregister(l)
		if l.fired >= 0 {
			raceAcquire(&l.out)
			YieldNow()
			return l.fired
		}
	}
}

// attempt performs a case if that is possible now.
//
//go:norace
func (l *Sel) attempt(k int) bool {
	o := l.ops[k]
	p := o.ptr()
	if p == nil {
		return false
	}
	if o.try() {
		Wake(&chanKey)
		return true
	}
	s := cur
	if s == nil || !o.rendezvous() {
		return false
	}
	for i := 0; i < s.nWaiters; i++ {
		w := s.waiters[i]
		if w == l || w.fired >= 0 {
			continue
		}
		for j := range w.ops {
			if q := w.ops[j]; q.ptr() == p && q.sending() != o.sending() {
				raceAcquire(&w.in)
				if o.sending() {
					q.take(o.give())
				} else {
					o.take(q.give())
				}
				raceReleaseMerge(&w.out)
				w.fired = j
				w.t.state = stRunnable
				w.t.waitOn = nil
				return true
			}
		}
	}
	return false
}

//go:norace
func (s *sched) register(l *Sel) {
	if s.nWaiters < len(s.waiters) {
		s.waiters[s.nWaiters] = l
		s.nWaiters++
	}
}

//go:norace
func (s *sched) unregister(l *Sel) {
	for i := 0; i < s.nWaiters; i++ {
		if s.waiters[i] == l {
			for ; i+1 < s.nWaiters; i++ {
				s.waiters[i] = s.waiters[i+1]
			}
			s.nWaiters--
			s.waiters[s.nWaiters] = nil
			return
		}
	}
}

// TimeAfter replaces time.After.
func TimeAfter(d time.Duration) <-chan time.Time {
	if cur == nil {
		return time.After(d)
	}
	c := make(chan time.Time, 1)
	Go(func() {
		TimeSleep(d)
		SendTo(c)(TimeNow())
	})
	return c
}

// Gosched replaces runtime.Gosched: another thread goes on.
//
//go:norace
func Gosched() {
	s := cur
	if s == nil {
		runtime.Gosched()
		return
	}
	s.giveWay = true
	s.yield(0)
}

// NumCPU replaces runtime.NumCPU.
func NumCPU() int { return 4 }

// GOMAXPROCS replaces runtime.GOMAXPROCS.
func GOMAXPROCS(int) int { return 4 }
