//go:build go1.22

package main

import (
	"fmt"
	"math/rand"

	"github.com/GottfriedHerold/Bandersnatch/internal/testutils"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/core"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/rt"
)

// Several caches side by side, with the package's own way of seeding, and many keys.

const (
	mCaches  = 5
	mMaxKeys = 1500
	mMaxN    = 40
)

// mWorld is only accessed by norace functions: one thread runs at a time.
type mWorld struct {
	created [mCaches][mMaxKeys]int32
	busy    [mCaches][mMaxKeys]bool
}

//go:norace
func (w *mWorld) begin(c, key int) bool {
	was := w.busy[c][key]
	w.busy[c][key] = true
	w.created[c][key]++
	return !was
}

//go:norace
func (w *mWorld) end(c, key int) { w.busy[c][key] = false }

type compound struct {
	a int32
	b string
}

// mSeed is the seed of the source for a key. The seeds of different caches coincide.
func mSeed(key int) int64 { return int64(key)*3 - 40 }

// mValue is how cache c makes an element from a source.
func mValue(c int, r *rand.Rand) uint64 {
	switch c {
	case 0:
		return r.Uint64()
	case 1:
		return uint64(r.Int63n(1000003))<<8 | uint64(r.Intn(200))
	case 2:
		return uint64(r.Perm(5)[0]) + r.Uint64()<<3
	}
	return r.Uint64() + uint64(c)
}

// mPre is the number of elements that a key of a cache is prepopulated with.
func mPre(c, key int) int {
	if c == 3 && key%3 == 0 {
		return key%7 + 1
	}
	return 0
}

func mCanon(c, key, n int) []uint64 {
	ret := make([]uint64, n)
	r := core.Std(0)
	if n > mPre(c, key) {
		r = rand.New(rand.NewSource(mSeed(key)))
	}
	for i := range ret {
		if i < mPre(c, key) {
			ret[i] = uint64(key)<<32 | uint64(i)
		} else {
			ret[i] = mValue(c, r)
		}
	}
	return ret
}

func genMany(r *core.Rng, thorough bool) *core.Plan {
	p := &core.Plan{Cfg: map[string]int64{"depth": int64(r.N(2))}}
	keys := r.Pick(2, 5, 20, 70, 150, 300)
	if r.P(1, 20) {
		keys = r.Pick(600, 1100, mMaxKeys)
	}
	for t := r.In(1, 3); t > 0; t-- {
		var ops []core.Op
		for k := r.In(2, 6); k > 0; k-- {
			c, key := int64(r.N(mCaches)), int64(r.N(min(keys, 8)))
			switch {
			case r.P(1, 3):
				from := r.N(keys)
				ops = append(ops, core.Op{K: "crowd", A: []int64{c, int64(from), int64(keys - from), int64(r.In(1, 2))}})
				if r.P(1, 2) { // back to the start
					ops = append(ops, core.Op{K: "crowd", A: []int64{c, 0, int64(r.In(1, min(keys, 20))), int64(r.In(1, 4))}})
				}
			case r.P(1, 4):
				ops = append(ops, core.Op{K: "all", A: []int64{0, key, int64(r.In(1, 5))}})
			default:
				ops = append(ops, core.Op{K: "get", A: []int64{c, key, int64(r.N(mMaxN))}})
			}
		}
		p.Threads = append(p.Threads, ops)
	}
	return p
}

func runMany(x *core.X) {
	w := &mWorld{}
	create := func(c int) func(r *rand.Rand, key int) uint64 {
		return func(r *rand.Rand, key int) uint64 {
			x.Check(w.begin(c, key), "concurrent creation", "two elements for key %d of cache %d are created at the same time", key, c)
			if x.Cfg["depth"] == 1 {
				rt.YieldNow()
			}
			v := mValue(c, r)
			w.end(c, key)
			return v
		}
	}
	keyOf := func(seed int64) int { return int(seed+40) / 3 }
	c0 := testutils.MakePrecomputedCache[int64, uint64](testutils.DefaultCreateRandFromSeed, func(r *rand.Rand, key int64) uint64 { return create(0)(r, keyOf(key)) }, nil)
	c1 := testutils.MakePrecomputedCache[int64, []uint64](testutils.DefaultCreateRandFromSeed, func(r *rand.Rand, key int64) []uint64 {
		return []uint64{create(1)(r, keyOf(key))}
	}, func(e []uint64) []uint64 { return append([]uint64(nil), e...) })
	c2 := testutils.MakePrecomputedCache[string, uint64](func(key string) *rand.Rand {
		k := 0
		fmt.Sscanf(key, "key %d", &k)
		return rand.New(rand.NewSource(mSeed(k)))
	}, func(r *rand.Rand, key string) uint64 {
		k := 0
		fmt.Sscanf(key, "key %d", &k)
		return create(2)(r, k)
	}, nil)
	c3 := testutils.MakePrecomputedCache[int64, uint64](testutils.DefaultCreateRandFromSeed, func(r *rand.Rand, key int64) uint64 { return create(3)(r, keyOf(key)) }, nil)
	c4 := testutils.MakePrecomputedCache[compound, *uint64](func(key compound) *rand.Rand { return rand.New(rand.NewSource(mSeed(int(key.a)))) }, func(r *rand.Rand, key compound) *uint64 {
		v := create(4)(r, int(key.a))
		return &v
	}, func(e *uint64) *uint64 { v := *e; return &v })
	get := func(c, key, n int) (vals []uint64) {
		switch c {
		case 0:
			vals = c0.GetElements(mSeed(key), n)
		case 1:
			for _, e := range c1.GetElements(mSeed(key), n) {
				vals = append(vals, e[0])
				e[0] = 7
			}
		case 2:
			vals = c2.GetElements(fmt.Sprintf("key %d", key), n)
		case 3:
			vals = c3.GetElements(mSeed(key), n)
		case 4:
			for _, e := range c4.GetElements(compound{int32(key), "x"}, n) {
				vals = append(vals, *e)
				*e = 9
			}
		}
		return
	}
	most := func(c, key, n int, m *[mCaches][mMaxKeys]int32) { m[c][key] = max(m[c][key], int32(n)) }
	check := func(c, key, n int) {
		vals := get(c, key, n)
		x.Check(len(vals) == n, "wrong length", "asked for %d elements of key %d of cache %d, got %d", n, key, c, len(vals))
		for i, v := range mCanon(c, key, n) {
			x.Check(vals[i] == v, "wrong element", "element %d of key %d of cache %d is %#x, must be %#x", i, key, c, vals[i], v)
		}
		for i := range vals {
			vals[i] = 3
		}
	}
	x.Seq(func() {
		for key := 0; key < 64; key++ {
			if n := mPre(3, key); n > 0 {
				pre := mCanon(3, key, n)
				c3.PrepopulateCache(mSeed(key), pre)
				for i := range pre {
					pre[i] = 5
				}
			}
		}
	})
	need := make([][mCaches][mMaxKeys]int32, len(x.Threads))
	var fns []func()
	for t := range x.Threads {
		t := t
		fns = append(fns, func() {
			one := func(c, key, n int) {
				most(c, key, n, &need[t])
				check(c, key, n)
			}
			for _, o := range x.Threads[t] {
				c, key := int(uint64(o.Arg(0))%mCaches), int(uint64(o.Arg(1))%mMaxKeys)
				switch o.K {
				case "get":
					one(c, mLimit(c, key), int(uint64(o.Arg(2))%mMaxN))
				case "crowd":
					n := int(uint64(o.Arg(2)) % mMaxKeys)
					for k := key; k < min(key+n, mMaxKeys); k++ {
						one(c, mLimit(c, k), int(uint64(o.Arg(3))%mMaxN))
					}
				case "all":
					for c := 0; c < mCaches; c++ {
						one(c, mLimit(c, key), int(uint64(o.Arg(2))%mMaxN))
					}
				}
			}
		})
	}
	x.Go(fns...)
	total := 0
	for c := 0; c < mCaches; c++ {
		for k := 0; k < mMaxKeys; k++ {
			n := int32(0)
			for t := range need {
				n = max(n, need[t][c][k])
			}
			n = max(n-int32(mPre(c, k)), 0)
			total += int(n)
			x.Check(w.created[c][k] == n, "created too many or too few", "%d elements were created for key %d of cache %d, but %d were needed", w.created[c][k], k, c, n)
		}
	}
	x.Obs("%d elements", total)
}

// mLimit keeps within the keys that were prepopulated.
func mLimit(c, key int) int {
	if c == 3 {
		return key % 64
	}
	return key
}

func init() {
	core.Register(&core.Scenario{Name: "cache-many", Props: []string{"P01"}, Gen: genMany, Exec: runMany, Wt: 1})
}
