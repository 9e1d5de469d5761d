package zt

import (
	"context"
	"errors"
	"fmt"
	"maps"
	"runtime"
	"slices"
	"sync"
	"sync/atomic"
	"time"
)

type C chan int

var sem = make(chan struct{}, 1)
var pool = make(chan *int, 4)

func Semaphore(n int) int {
	x := 0
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			sem <- struct{}{}
			y := x
			y += k
			x = y
			<-sem
		}(i)
	}
	wg.Wait()
	return x
}

func Unbuf(n int) (r []int) {
	c := make(C)
	done := make(chan bool)
	go func() {
		for v := range c {
			r = append(r, v)
		}
		close(done)
	}()
	for i := 0; i < n; i++ {
		c <- i
	}
	close(c)
	if _, ok := <-done; ok {
		panic("ok")
	}
	return
}

func worker(id int, in <-chan int, out chan<- int, err chan error) {
	for v := range in {
		out <- v * v
	}
	err <- nil
}

func Workers(n int) (s int) {
	in, out, errs := make(chan int), make(chan int, 3), make(chan error)
	for i := 0; i < 3; i++ {
		go worker(i, in, out, errs)
	}
	go func() {
		for i := 0; i < n; i++ {
			in <- i
		}
		close(in)
	}()
	live := 3
loop:
	for {
		select {
		case v := <-out:
			s += v
			continue loop
		case e, ok := <-errs:
			if e != nil || !ok {
				panic(e)
			}
			live--
			if live == 0 {
				break loop
			}
		case <-time.After(time.Hour):
			panic("timeout")
		}
	}
	for {
		select {
		case v := <-out:
			s += v
		default:
			return
		}
	}
}

type spin struct{ f int32 }

func (s *spin) lock() {
	for !atomic.CompareAndSwapInt32(&s.f, 0, 1) {
	}
}
func (s *spin) lock2() {
	for !atomic.CompareAndSwapInt32(&s.f, 0, 1) {
		runtime.Gosched()
	}
}
func (s *spin) unlock() { atomic.StoreInt32(&s.f, 0) }

func Spin(n int) int {
	var s spin
	x := 0
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			if i%2 == 0 {
				s.lock()
			} else {
				s.lock2()
			}
			defer s.unlock()
			y := x
			y++
			x = y
		}()
	}
	wg.Wait()
	return x
}

func Args() string {
	out := make(chan string, 8)
	s := "a"
	f := func(t string) { out <- t }
	go f(s)
	s = "b"
	f = func(t string) { out <- t + "!" }
	go f(s)
	s = "c"
	var e error = errors.New("x")
	m := map[string]func(...int){"q": func(x ...int) { out <- fmt.Sprint(x) }}
	l := []int{1, 2}
	go m["q"](l...)
	l = nil
	m["q"] = nil
	go func(e error, x any) { out <- fmt.Sprint(e, x) }(e, nil)
	e = nil
	go two(pair())
	var r []string
	for i := 0; i < 4; i++ {
		r = append(r, <-out)
	}
	slices.Sort(r)
	return fmt.Sprint(r)
}

func pair() (int, error) { return 1, nil }
func two(a int, b error) {}

func keys[M ~map[K]V, K comparable, V any](m M) (r []K) {
	for k := range m {
		r = append(r, k)
	}
	return
}

func Maps() string {
	m := map[string]int{"a": 1, "b": 2, "c": 3}
	s := 0
	for k, v := range m {
		k := k
		v := v
		s += v + len(k)
	}
	for _, m := range m {
		m := m
		s += m
	}
	for range m {
		s++
	}
	var k string
	for k = range m {
		k := k
		s += len(k)
	}
	for k, s = range m {
	}
	for k := range m {
		delete(m, k)
		delete(m, "b")
	}
	m = map[string]int{"a": 1, "b": 2, "c": 3}
	a, b := keys(m), slices.Sorted(maps.Keys(m))
	slices.Sort(a)
	var fs []func() string
	for k := range m {
		fs = append(fs, func() string { return k })
	}
	return fmt.Sprint(a, b, fs[0]() == fs[2](), len(k))
}

func CondQ(n int) int {
	var mu sync.Mutex
	c := sync.NewCond(&mu)
	q := 0
	var wg sync.WaitGroup
	wg.Add(2)
	sum := 0
	go func() {
		defer wg.Done()
		for i := 0; i < n; i++ {
			mu.Lock()
			for q == 0 {
				c.Wait()
			}
			q--
			sum++
			mu.Unlock()
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < n; i++ {
			mu.Lock()
			q++
			c.Signal()
			mu.Unlock()
		}
	}()
	wg.Wait()
	return sum
}

func Ctx() string {
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan string)
	go func() {
		select {
		case <-ctx.Done():
			done <- "cancelled"
		}
	}()
	cancel()
	return <-done
}

func Leak() int {
	c := make(chan int)
	go func() {
		for {
			c <- 1
		}
	}()
	go func() { select {} }()
	return <-c + <-c
}

func SelSend() (n int) {
	a, b := make(chan int), make(chan int)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < 5; i++ {
			select {
			case a <- i:
			case b <- 100 + i:
			}
		}
		close(stop)
	}()
	var nilc chan int
	for {
		select {
		case v := <-a:
			n += v
		case v, ok := <-b:
			if ok {
				n += v - 100
			}
		case _ = <-nilc:
			panic("nil")
		case <-stop:
			wg.Wait()
			return n
		}
	}
}

func Pooled() int {
	var p *int
	select {
	case p = <-pool:
	default:
		p = new(int)
	}
	*p = 7
	x := *p
	select {
	case pool <- p:
	default:
	}
	return x + len(pool)
}

func Deadlock() { c := make(chan int); c <- 1 }

func Race() int {
	x := 0
	c := make(chan int)
	go func() { x = 1; <-c }()
	x = 2
	c <- 1
	return x
}

func NoRace() int {
	x := 0
	c := make(chan int)
	go func() { x = 1; <-c }()
	c <- 1
	x = 2
	return x
}

var early = func() (s int) {
	c := make(chan int)
	go func() {
		defer close(c)
		for i := 0; i < 3; i++ {
			c <- i
		}
	}()
	for v := range c {
		s += v
	}
	return
}()

// Early was computed during initialisation.
func Early() int { return early }
