//go:build go1.22

package rt

import "sync"

// Simulated versions of the types of package sync. Outside of a simulated run, nothing runs in parallel, so that operations
// that would have to wait panic (the harness converts that into a violation).

// Mutex replaces sync.Mutex.
type Mutex struct {
	locked bool
	k      byte
}

//go:norace
func (m *Mutex) Lock() {
	YieldNow()
	for m.locked {
		if Killing() {
			Y(0)
			return
		}
		Block(&m.k)
	}
	m.locked = true
	raceAcquire(&m.k)
}

//go:norace
func (m *Mutex) TryLock() bool {
	YieldNow()
	if m.locked {
		return false
	}
	m.locked = true
	raceAcquire(&m.k)
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if Killing() {
		m.locked = false
		return
	}
	if !m.locked {
		fatal("fatal error: sync: unlock of unlocked mutex")
		return
	}
	raceRelease(&m.k)
	m.locked = false
	Wake(&m.k)
	YieldNow()
}

//go:norace
func fatal(msg string) {
	if cur != nil {
		Fail("fatal", msg)
		return
	}
	panic(msg)
}

// RWMutex replaces sync.RWMutex. As in the original, a waiting writer keeps out new readers.
type RWMutex struct {
	readers int
	writer  bool
	waiting int
	r, w, k byte
}

//go:norace
func (m *RWMutex) Lock() {
	YieldNow()
	m.waiting++
	for m.writer || m.readers > 0 {
		if Killing() {
			Y(0)
			return
		}
		Block(&m.k)
	}
	m.waiting--
	m.writer = true
	raceAcquire(&m.r)
	raceAcquire(&m.w)
}

//go:norace
func (m *RWMutex) TryLock() bool {
	YieldNow()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	raceAcquire(&m.r)
	raceAcquire(&m.w)
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if Killing() {
		m.writer = false
		return
	}
	if !m.writer {
		fatal("fatal error: sync: Unlock of unlocked RWMutex")
		return
	}
	raceRelease(&m.r)
	m.writer = false
	Wake(&m.k)
	YieldNow()
}

//go:norace
func (m *RWMutex) RLock() {
	YieldNow()
	for m.writer || m.waiting > 0 {
		if Killing() {
			Y(0)
			return
		}
		Block(&m.k)
	}
	m.readers++
	raceAcquire(&m.r)
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	YieldNow()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	raceAcquire(&m.r)
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if Killing() {
		return
	}
	if m.readers <= 0 {
		fatal("fatal error: sync: RUnlock of unlocked RWMutex")
		return
	}
	raceReleaseMerge(&m.w)
	m.readers--
	if m.readers == 0 {
		Wake(&m.k)
	}
	YieldNow()
}

// RLocker is as in sync.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
	k    byte
}

//go:norace
func (o *Once) Do(f func()) {
	YieldNow()
	if o.done {
		raceAcquire(&o.k)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.finish()
		f()
	}
}

//go:norace
func (o *Once) finish() {
	raceReleaseMerge(&o.k)
	o.done = true
}

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue replaces sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues replaces sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n int
	k byte
}

//go:norace
func (w *WaitGroup) Add(d int) {
	YieldNow()
	if d < 0 {
		raceReleaseMerge(&w.k)
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		Wake(&w.k)
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

// Go is as in sync.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

//go:norace
func (w *WaitGroup) Wait() {
	YieldNow()
	for w.n > 0 {
		if Killing() {
			Y(0)
			return
		}
		Block(&w.k)
	}
	raceAcquire(&w.k)
}

// Cond replaces sync.Cond. As in the original, waiting threads are woken up in the order in which they came, and by nothing else.
type Cond struct {
	L      sync.Locker
	wait   int // tickets handed out
	notify int // tickets that may go on
	k      byte
}

// NewCond replaces sync.NewCond.
func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	t := c.wait
	c.wait++
	c.L.Unlock()
	for t >= c.notify && !Killing() {
		Block(&c.k)
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if c.notify < c.wait {
		c.notify++
	}
	Wake(&c.k)
	YieldNow()
}

//go:norace
func (c *Cond) Broadcast() {
	c.notify = c.wait
	Wake(&c.k)
	YieldNow()
}

// Pool replaces sync.Pool. It hands out pooled objects whenever it has one: the adversarial choice for code that relies on fresh ones.
type Pool struct {
	New   func() any
	items []any
	m     Mutex
}

func (p *Pool) Get() any {
	p.m.Lock()
	var x any
	if n := len(p.items); n > 0 {
		x = p.items[n-1]
		p.items = p.items[:n-1]
	}
	p.m.Unlock()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

func (p *Pool) Put(x any) {
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
}

// Map replaces sync.Map.
type Map struct {
	m  Mutex
	kv map[any]any
	ks []any
}

func (m *Map) Load(k any) (v any, ok bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok = m.kv[k]
	return
}

func (m *Map) store(k, v any) {
	if m.kv == nil {
		m.kv = map[any]any{}
	}
	if _, ok := m.kv[k]; !ok {
		m.ks = append(m.ks, k)
	}
	m.kv[k] = v
}

func (m *Map) Store(k, v any) {
	m.m.Lock()
	defer m.m.Unlock()
	m.store(k, v)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	if o, ok := m.kv[k]; ok {
		return o, true
	}
	m.store(k, v)
	return v, false
}

func (m *Map) Swap(k, v any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	o, ok := m.kv[k]
	m.store(k, v)
	return o, ok
}

func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.m.Lock()
	defer m.m.Unlock()
	if v, ok := m.kv[k]; ok && v == o {
		m.kv[k] = n
		return true
	}
	return false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.m.Lock()
	defer m.m.Unlock()
	v, ok := m.kv[k]
	m.del(k)
	return v, ok
}

func (m *Map) del(k any) {
	if _, ok := m.kv[k]; !ok {
		return
	}
	delete(m.kv, k)
	for i := range m.ks {
		if m.ks[i] == k {
			m.ks = append(m.ks[:i:i], m.ks[i+1:]...)
			return
		}
	}
}

func (m *Map) Delete(k any) {
	m.m.Lock()
	defer m.m.Unlock()
	m.del(k)
}

func (m *Map) Clear() {
	m.m.Lock()
	defer m.m.Unlock()
	m.kv, m.ks = nil, nil
}

func (m *Map) Range(f func(k, v any) bool) {
	m.m.Lock()
	ks := append([]any(nil), m.ks...)
	m.m.Unlock()
	for _, k := range ks {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}
