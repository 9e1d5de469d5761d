//go:build go1.22

package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"

	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/testutils"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/bridge"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/core"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/ref"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/rt"
)

// Scenario sample: threads sample with sources of randomness that are equal, crafted, slow or failing;
// everything is done again by a single thread at another time, with another state of all global sources.

// simSource is a source of randomness that the simulator controls.
type simSource struct {
	r       *core.Rng
	crafted int   // number of words that are not random
	kind    int64 // which
	drawn   int
	dieAt   int // fails at this draw, if positive
	slowAt  int
	yields  bool
}

type sourceFailure struct{}

func (s *simSource) Uint64() uint64 {
	s.drawn++
	if s.drawn == s.dieAt {
		panic(sourceFailure{})
	}
	if s.drawn == s.slowAt {
		rt.Sleep(5e6)
	}
	if s.yields {
		rt.YieldNow()
	}
	v := s.r.U64()
	if s.drawn <= s.crafted {
		switch s.kind {
		case 0:
			v = 0
		case 1:
			v = ^uint64(0)
		case 2: // above the field size often
			v |= 0x7300000073000000
		case 3:
			v &= 0x0000000100000003
		case 4:
			if s.drawn%8 != 0 {
				v = 0
			}
		}
	}
	return v
}

func (s *simSource) Int63() int64 { return int64(s.Uint64() >> 1) }
func (s *simSource) Seed(int64)   { panic("harness: the source must not be seeded") }

type sampleRec struct {
	what string
	got  string
}

var (
	sampleF    func(any, *rand.Rand) bool
	sampleNaPF func(any, *rand.Rand, int) bool
	rerandF    func(any, *rand.Rand) bool
	bigSampleF func(int, *rand.Rand) *big.Int
)

func initSample() {
	initArith()
	sampleF, _ = bridge.Get("sample").(func(any, *rand.Rand) bool)
	sampleNaPF, _ = bridge.Get("sampleNaP").(func(any, *rand.Rand, int) bool)
	rerandF, _ = bridge.Get("rerandomize").(func(any, *rand.Rand) bool)
	bigSampleF, _ = bridge.Get("fe_BigInt").(func(int, *rand.Rand) *big.Int)
}

// words collects the numbers stored in a value.
func words(v reflect.Value, out []byte) []byte {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			return words(v.Elem(), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			out = words(v.Field(i), out)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out = words(v.Index(i), out)
		}
	case reflect.Uint64:
		u := v.Uint()
		for i := 0; i < 8; i++ {
			out = append(out, byte(u>>(8*i)))
		}
	}
	return out
}

func feRep(z *fe.FieldElement) string {
	b := make([]byte, z.BytesLength())
	z.ToBytes(b)
	return hex.EncodeToString(b)
}

func pointRep(q cp.CurvePointPtrInterface) string {
	return hex.EncodeToString(words(reflect.ValueOf(q), nil))
}

// sampler does a sequence of samplings with a source.
type sampler struct {
	x   *core.X
	rnd *rand.Rand
	src *simSource
	out []sampleRec
}

func (s *sampler) note(what, got string) {
	if s.src != nil {
		got += fmt.Sprint(" after ", s.src.drawn)
	}
	s.out = append(s.out, sampleRec{what, got})
}

func (s *sampler) validFe(what string, z *fe.FieldElement, nonZero bool) {
	s.note(what, feRep(z))
	v := z.ToBigInt()
	w := *z
	w.Normalize()
	s.x.Check(v.Sign() >= 0 && v.Cmp(ref.P) < 0 && w.IsEqual(z) && w.ToBigInt().Cmp(v) == 0, "invalid sample", "%s gave an invalid field element", what)
	s.x.Check(!nonZero || (!z.IsZero() && v.Sign() != 0), "invalid sample", "%s gave zero", what)
}

func (s *sampler) validPoint(what string, q cp.CurvePointPtrInterface) {
	s.note(what, pointRep(q))
	v := value(q.Clone())
	ok := v.kind == 0 && ref.OnCurve(v.p.X, v.p.Y)
	if q.CanOnlyRepresentSubgroup() {
		ok = ok && ref.Member(v.p.Y) && ref.Class1(v.p.X)
	}
	if val, has := q.(interface{ Validate() bool }); has {
		ok = ok && val.Validate()
	}
	s.x.Check(ok, "invalid sample", "%s gave an invalid point: %v", what, v)
	if v.kind == 0 && v.p.X.Sign() == 0 {
		s.x.Probe("point with x=0 sampled")
	}
}

func (s *sampler) step(r *core.Rng) {
	switch k := r.N(12); k {
	case 0:
		z := fe.CreateRandomFieldElement_Unsafe[fe.FieldElement](s.rnd)
		s.validFe("CreateRandomFieldElement_Unsafe", &z, false)
		if z.IsZero() {
			s.x.Probe("zero sampled")
		}
	case 1:
		z := fe.CreateRandomNonZeroFieldElement_Unsafe[fe.FieldElement](s.rnd)
		s.validFe("CreateRandomNonZeroFieldElement_Unsafe", &z, true)
	case 2:
		z := feOf(smallOrBig(r))
		z.SetRandomUnsafe(s.rnd)
		s.validFe("SetRandomUnsafe", &z, false)
		if z.IsZero() {
			s.x.Probe("zero sampled")
		}
	case 3:
		z := feOf(smallOrBig(r))
		z.SetRandomUnsafeNonZero(s.rnd)
		s.validFe("SetRandomUnsafeNonZero", &z, true)
	case 4:
		v := smallOrBig(r)
		z1, z2 := feOf(v), feOf(v)
		for i := r.N(4); i > 0; i-- {
			z1.RerandomizeRepresentation(r.U64())
		}
		for i := r.N(4); i > 0; i-- {
			z2.RerandomizeRepresentation(r.U64())
		}
		if feRep(&z1) != feRep(&z2) {
			s.x.Probe("equal elements, different representations")
		}
		seed := s.rnd.Uint64()
		z1.RerandomizeRepresentation(seed)
		z2.RerandomizeRepresentation(seed)
		s.note("RerandomizeRepresentation", feRep(&z1))
		s.x.Check(feRep(&z1) == feRep(&z2), "representation depends on more than value and seed", "seed %x gave %s and %s for the same element", seed, feRep(&z1), feRep(&z2))
		s.x.Check(z1.ToBigInt().Cmp(v) == 0 && z1.IsEqual(&z2), "value changed", "re-randomising the representation changed a field element")
		// Neither does it make a difference for computing.
		w := z1
		w.MulEqFive()
		s.x.Check(w.ToBigInt().Cmp(ref.Mul(v, big.NewInt(5))) == 0, "value changed", "a re-randomised field element multiplied by five gives the wrong result")
		w.Add(&z1, &z2)
		s.x.Check(w.ToBigInt().Cmp(ref.Add(v, v)) == 0, "value changed", "adding re-randomised field elements gives the wrong result")
		w.Neg(&z1)
		w.SubEq(&z2)
		s.x.Check(w.ToBigInt().Cmp(ref.Neg(ref.Add(v, v))) == 0, "value changed", "subtracting re-randomised field elements gives the wrong result")
		w.Mul(&z1, &z2)
		s.x.Check(w.ToBigInt().Cmp(ref.Mul(v, v)) == 0, "value changed", "multiplying re-randomised field elements gives the wrong result")
	case 5:
		q := cp.MakeRandomPointUnsafe_xtw_full(s.rnd)
		s.validPoint("MakeRandomPointUnsafe_xtw_full", &q)
	case 6:
		q := cp.MakeRandomPointUnsafe_xtw_subgroup(s.rnd)
		s.validPoint("MakeRandomPointUnsafe_xtw_subgroup", &q)
	case 7, 8:
		typ := r.N(nTypes)
		q := newPoint(typ)
		if r.P(1, 2) {
			load(q, pool[r.N(nSub)].Pt)
		}
		if sampleF != nil && sampleF(q, s.rnd) {
			s.validPoint("sampleRandomUnsafe of "+typeNames[typ], q)
			s.x.Probe("unexported samplers")
		}
	case 9, 10:
		typ := r.N(nTypes)
		var q cp.CurvePointPtrInterface
		var want snap
		switch {
		case r.P(1, 6):
			q, want = special(typ, int64(-1-r.N(3)))
		case typ >= tAxtwFull:
			q, want = newPoint(typ), fin(pool[r.N(nPool)].Pt)
			load(q, want.p)
		default:
			q, want = newPoint(typ), fin(pool[r.N(nSub)].Pt)
			load(q, want.p)
		}
		if want.kind == 0 && r.P(1, 2) {
			vary(q, r.U64())
		}
		before := q.Clone()
		if rerandF != nil && rerandF(q, s.rnd) {
			s.note("rerandomizeRepresentation of "+typeNames[typ], pointRep(q))
			got := value(q.Clone())
			s.x.Check(got.eq(want), "value changed", "re-randomising the representation changed a point of type %s from %v to %v", typeNames[typ], want, got)
			if want.kind != 2 {
				s.x.Check(q.IsEqual(before), "value changed", "a point of type %s is not equal to itself after re-randomising its representation", typeNames[typ])
			}
		}
	case 11:
		if bigSampleF != nil && s.src == nil { // both implementations, next to each other
			which := r.N(3)
			seed := s.rnd.Int63()
			r1, r2 := testutils.DefaultCreateRandFromSeed(seed), testutils.DefaultCreateRandFromSeed(seed)
			b := bigSampleF(which, r1)
			var z fe.FieldElement
			switch which {
			case 0:
				z = fe.CreateRandomFieldElement_Unsafe[fe.FieldElement](r2)
			case 1:
				z = fe.CreateRandomNonZeroFieldElement_Unsafe[fe.FieldElement](r2)
			default:
				z.SetRandomUnsafe(r2)
			}
			s.validFe("sampling both implementations", &z, which == 1)
			s.x.Check(z.ToBigInt().Cmp(b) == 0, "implementations differ", "two implementations of field elements give different samples for the same source: %x %x", z.ToBigInt(), b)
			s.x.Check(r1.Uint64() == r2.Uint64(), "implementations differ", "two implementations of field elements take different amounts of randomness")
			s.x.Probe("both implementations")
			return
		}
		typ := r.N(nTypes)
		q := newPoint(typ)
		load(q, pool[r.N(nSub)].Pt)
		i := r.N(64)
		if sampleNaPF != nil && sampleNaPF(q, s.rnd, i) {
			s.note("sampleNaP of "+typeNames[typ], pointRep(q))
			s.x.Check(q.IsNaP(), "invalid sample", "sampleNaP(%d) of %s gave a valid point", i, typeNames[typ])
		}
	}
}

// bulk draws many samples.
func (s *sampler) bulk(n, which int) {
	h := uint64(n)
	for i := 0; i < n; i++ {
		var z fe.FieldElement
		switch which {
		case 0:
			z = fe.CreateRandomFieldElement_Unsafe[fe.FieldElement](s.rnd)
		case 1:
			z = fe.CreateRandomNonZeroFieldElement_Unsafe[fe.FieldElement](s.rnd)
		case 2:
			z.SetRandomUnsafe(s.rnd)
		default:
			z.SetRandomUnsafeNonZero(s.rnd)
		}
		for _, c := range []byte(feRep(&z)) {
			h = (h ^ uint64(c)) * 0x100000001b3
		}
	}
	s.note("many samples", fmt.Sprintf("%d %x", n, h))
}

// run does the samplings that an operation describes: seed and kind of the source, sequence of samplings.
func runSamples(x *core.X, o core.Op, faults []core.Op, reference bool) []sampleRec {
	s := &sampler{x: x}
	seed := uint64(o.Arg(0))
	switch o.Arg(1) & 3 {
	case 0:
		s.rnd = testutils.DefaultCreateRandFromSeed(int64(seed))
		if o.Arg(2)&1 == 1 && !reference { // used before, but set back
			fe.CreateRandomFieldElement_Unsafe[fe.FieldElement](s.rnd)
			s.rnd.Seed(int64(seed))
			x.Probe("source was set back")
		}
	case 1:
		s.rnd = core.Std(seed)
	default:
		s.src = &simSource{r: core.NewRng(seed), kind: o.Arg(1) >> 2 & 7, crafted: int(o.Arg(1) >> 5 & 31), yields: !reference && o.Arg(1)&(1<<12) != 0}
		for _, f := range faults {
			switch f.K {
			case "fail":
				s.src.dieAt = int(f.Arg(1))
			case "slow":
				if !reference {
					s.src.slowAt = int(f.Arg(1))
				}
			}
		}
		s.rnd = rand.New(s.src)
	}
	r := core.NewRng(uint64(o.Arg(2)))
	n := 1 + int(o.Arg(3)&7)
	val, panicked := core.Try(func() {
		if o.K == "bulk" {
			s.bulk(int(o.Arg(3)&0xfff), int(o.Arg(2)&3))
			return
		}
		for i := 0; i < n; i++ {
			s.step(r)
		}
	})
	switch {
	case panicked:
		_, ok := val.(sourceFailure)
		x.Check(ok, "panic", "sampling panicked with %v", val)
		if !reference {
			x.Fault("source of randomness fails")
		}
		s.note("source failed", "")
	case s.src == nil:
		s.note("afterwards the source", fmt.Sprintf("%x", s.rnd.Uint64()))
	}
	if s.src != nil && !reference {
		if s.src.crafted > 0 {
			x.Fault("crafted randomness")
		}
		if s.src.slowAt > 0 && s.src.drawn >= s.src.slowAt {
			x.Fault("slow source")
		}
	}
	return s.out
}

func genSample(r *core.Rng, thorough bool) *core.Plan {
	p := &core.Plan{Cfg: map[string]int64{"first": int64(r.N(2)), "other": int64(r.N(1 << 40))}}
	// few different operations, so that threads do the same
	var kinds []core.Op
	for i := r.In(1, 4); i > 0; i-- {
		src := r.N(4)
		if src >= 2 {
			src |= r.N(5)<<2 | r.Pick(0, 1, 2, 8, 16, 31)<<5
			if r.P(1, 3) {
				src |= 1 << 12
			}
		}
		kinds = append(kinds, core.Op{K: "sample", A: []int64{int64(r.N(1 << 40)), int64(src), int64(r.N(1 << 40)), int64(r.N(4))}})
	}
	for t := r.Pick(1, 2, 2, 3, 3, 4); t > 0; t-- {
		var ops []core.Op
		for k := r.In(1, 4); k > 0; k-- {
			if r.P(1, 6) {
				ops = append(ops, core.Op{K: "sleep", A: []int64{int64(r.In(1, 20))}})
			}
			if r.P(1, 6) {
				ops = append(ops, core.Op{K: "other", A: []int64{int64(r.N(1 << 40))}})
			}
			o := kinds[r.N(len(kinds))]
			if o.A[1]&2 != 0 && r.P(1, 3) {
				for i := r.In(1, 2); i > 0; i-- {
					p.Faults = append(p.Faults, core.At(len(p.Threads), []core.Op{{K: r.PickS("fail", "slow"), A: []int64{int64(len(ops)), int64(r.In(1, 60))}}})...)
				}
			}
			ops = append(ops, o)
		}
		p.Threads = append(p.Threads, ops)
	}
	if r.P(1, 60) {
		p.Threads[0] = append(p.Threads[0], core.Op{K: "bulk", A: []int64{int64(r.N(1 << 40)), int64(r.N(2)), int64(r.N(4)), int64(r.Pick(300, 1100, 2100))}})
	}
	// the clock: how far it is ahead when everything is repeated
	p.Cfg["jump"] = int64(r.Pick(1, 61, 3600*r.N(100), 86400*r.N(500), 86400*365*r.N(60)))
	return p
}

func execSample(x *core.X) {
	results := make([][][]sampleRec, len(x.Threads))
	want := make([][][]sampleRec, len(x.Threads))
	faultsAt := func(t, i int) (fs []core.Op) {
		for _, f := range x.FaultsFor(t) {
			if f.Arg(0) == int64(i) {
				fs = append(fs, f)
			}
		}
		return
	}
	alone := func() {
		if d := x.Cfg["jump"]; d > 0 && d < 1<<32 {
			rt.Sleep(d * 1e9)
			if d > 3600 {
				x.Fault("clock jumps ahead")
			}
		}
		rt.SetPerm(uint64(x.Cfg["other"]))
		for t := len(x.Threads) - 1; t >= 0; t-- {
			want[t] = make([][]sampleRec, len(x.Threads[t]))
			for i, o := range x.Threads[t] {
				if o.K == "sample" || o.K == "bulk" {
					want[t][i] = runSamples(x, o, faultsAt(t, i), true)
				}
			}
		}
	}
	global := func() {
		x.Check(rt.GlobalRandUsed() == 0, "global randomness", "sampling drew %d values from a global source of randomness", rt.GlobalRandUsed())
		rt.SetGlobalRand(uint64(x.Cfg["other"]))
	}
	first := x.Cfg["first"]&1 != 0
	if first {
		x.Seq(alone)
		global()
	}
	var fns []func()
	for t := range x.Threads {
		t, ops := t, x.Threads[t]
		results[t] = make([][]sampleRec, len(ops))
		fns = append(fns, func() {
			for i, o := range ops {
				switch o.K {
				case "sleep":
					rt.Sleep(o.Arg(0) % 1000 * 1e6)
				case "other": // something else that samples
					z := feOf(big.NewInt(7))
					z.SetRandomUnsafe(core.Std(uint64(o.Arg(0))))
				case "sample", "bulk":
					results[t][i] = runSamples(x, o, faultsAt(t, i), false)
				}
			}
		})
	}
	x.Go(fns...)
	global()
	if !first {
		x.Seq(alone)
		global()
	}
	for t := range results {
		for i := range results[t] {
			a, b := results[t][i], want[t][i]
			for j := 0; j < len(a) || j < len(b); j++ {
				if j >= len(a) || j >= len(b) || a[j] != b[j] {
					var p, q sampleRec
					if j < len(a) {
						p = a[j]
					}
					if j < len(b) {
						q = b[j]
					}
					x.Violate("not reproducible", "thread %d, operation %d, sampling %d: got %s %s; the same source gave a single thread %s %s", t, i, j, p.what, p.got, q.what, q.got)
				}
				x.Probe(a[j].what)
				x.Obs("%s %s", a[j].what, a[j].got)
			}
		}
	}
}

func init() {
	core.Register(&core.Scenario{Name: "sample", Props: []string{"P18"}, Gen: genSample, Exec: execSample, Init: initSample})
}
