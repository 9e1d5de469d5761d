//go:build go1.22

package core

import (
	"math/rand"

	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/rt"
)

// Rng is the only source of randomness of plan generators and scenarios (splitmix64).
type Rng struct{ s uint64 }

// NewRng returns a generator for a seed.
func NewRng(seed uint64) *Rng { return &Rng{mix(seed ^ 0x5851f42d4c957f2d)} }

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// N returns a number in 0..n-1.
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a number in a..b.
func (r *Rng) In(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability a/b.
func (r *Rng) P(a, b int) bool { return r.N(b) < a }

// Pick picks one of the numbers.
func (r *Rng) Pick(xs ...int) int { return xs[r.N(len(xs))] }

// PickS picks one of the strings.
func (r *Rng) PickS(xs ...string) string { return xs[r.N(len(xs))] }

// Skew returns a number in 0..n-1, small ones preferred.
func (r *Rng) Skew(n int) int {
	m := r.N(n) + 1
	return r.N(m)
}

// Bytes returns n random bytes.
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}

// Std returns a math/rand generator that depends on the seed only.
func Std(seed uint64) *rand.Rand { return rand.New(&src{seed}) }

type src struct{ s uint64 }

func (s *src) Uint64() uint64 {
	s.s += 0x9e3779b97f4a7c15
	return mix(s.s)
}
func (s *src) Int63() int64 { return int64(s.Uint64() >> 1) }
func (s *src) Seed(x int64) { s.s = uint64(x) }

// RandPolicy draws a scheduling policy.
func (r *Rng) RandPolicy() rt.Policy {
	p := rt.Policy{Seed: r.U64()}
	switch r.N(12) {
	case 0, 1:
		p.Kind, p.Gap = "uniform", r.In(1, 4)
	case 2, 3:
		p.Kind, p.Gap = "uniform", 1<<r.In(3, 9)
	case 4, 5:
		p.Kind, p.Gap = "burst", 1<<r.In(2, 8)
	case 6, 7, 8, 9:
		p.Kind, p.Gap, p.Span = "pct", r.In(1, 5), 1<<r.In(4, 13)
	case 10:
		p.Kind, p.Gap = "sync", 1
	default:
		p.Kind = "none"
	}
	return p
}

// Split distributes the ops over n threads.
func (r *Rng) Split(ops []Op, n int) [][]Op {
	ts := make([][]Op, n)
	for _, o := range ops {
		i := r.N(n)
		ts[i] = append(ts[i], o)
	}
	return ts
}

// Many draws a length: mostly one of those given, sometimes a longer one.
func (r *Rng) Many(small ...int) int {
	switch {
	case !r.P(1, 14):
		return r.Pick(small...)
	case !r.P(1, 5):
		return r.In(5, 20)
	case !r.P(1, 5):
		return r.In(21, 70)
	}
	return r.Pick(100, 127, 128, 129, 200, 255, 256, 257, 300)
}

// Lots is Many with more of the large numbers.
func (r *Rng) Lots(small ...int) int {
	if r.P(1, 25) {
		return r.In(130, 600)
	}
	return r.Many(small...)
}
