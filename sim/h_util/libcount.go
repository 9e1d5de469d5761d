//go:build go1.22

package main

import (
	"fmt"
	"sort"
	"strings"

	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	cc "github.com/GottfriedHerold/Bandersnatch/internal/callcounters"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/core"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/rt"
)

// Scenario libcount: the library is built with call counters; what a program of operations adds to the counters must be
// the sum of what its operations add alone, whatever came before, for every order of map iteration.

type counts map[string]int

func takeCounts() counts {
	m := counts{}
	for _, r := range cc.ReportCallCounters(false, false) {
		m[r.Tag] = r.Calls
	}
	return m
}

func (c counts) String() string {
	var l []string
	for k, v := range c {
		if v != 0 {
			l = append(l, fmt.Sprintf("%s=%d", k, v))
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// libOp does one operation on fresh operands that depend on the arguments only.
func libOp(o core.Op) {
	r := core.NewRng(uint64(o.Arg(1)))
	a := fe.CreateRandomNonZeroFieldElement_Unsafe[fe.FieldElement](core.Std(r.U64()))
	b := fe.CreateRandomNonZeroFieldElement_Unsafe[fe.FieldElement](core.Std(r.U64()))
	var z fe.FieldElement
	switch o.K {
	case "Add":
		z.Add(&a, &b)
	case "Sub":
		z.Sub(&a, &b)
	case "Mul":
		z.Mul(&a, &b)
	case "Neg":
		z.Neg(&a)
	case "Inv":
		z.Inv(&a)
	case "Divide":
		z.Divide(&a, &b)
	case "Square":
		z.Square(&a)
	case "Double":
		z.Double(&a)
	case "AddEq":
		a.AddEq(&b)
	case "SubEq":
		a.SubEq(&b)
	case "MulEq":
		a.MulEq(&b)
	case "NegEq":
		a.NegEq()
	case "InvEq":
		a.InvEq()
	case "DivideEq":
		a.DivideEq(&b)
	case "SquareEq":
		a.SquareEq()
	case "DoubleEq":
		a.DoubleEq()
	case "MulEqFive":
		a.MulEqFive()
	case "Jacobi":
		a.Jacobi()
	case "SquareRoot":
		z.SquareRoot(&a)
	case "Invert":
		fe.MultiInvertEq(&a, &b)
	case "IsEqual":
		a.IsEqual(&b)
	case "points":
		p := cp.MakeRandomPointUnsafe_xtw_subgroup(core.Std(r.U64()))
		q := cp.MakeRandomPointUnsafe_xtw_full(core.Std(r.U64()))
		var s cp.Point_xtw_full
		var e cp.Point_efgh_full
		switch o.Arg(2) % 6 {
		case 0:
			s.Add(&p, &q)
		case 1:
			s.Double(&q)
		case 2:
			e.Sub(&p, &q)
		case 3:
			q.IsInSubgroup()
		case 4:
			p.Endo(&p)
		case 5:
			p.IsEqual(&q)
		}
	}
}

var libOps = []string{"Add", "Sub", "Mul", "Neg", "Inv", "Divide", "Square", "Double", "AddEq", "SubEq", "MulEq", "NegEq", "InvEq", "DivideEq", "SquareEq", "DoubleEq", "MulEqFive", "Jacobi", "SquareRoot", "Invert", "IsEqual", "points"}

func execLib(x *core.X) {
	if !cp.CallCountersActive {
		panic("harness: built without call counters")
	}
	sum := counts{}
	x.Seq(func() {
		// Everything that is prepared at first use is prepared.
		for _, ops := range x.Threads {
			for _, o := range ops {
				libOp(o)
			}
		}
		cc.ResetAllCounters()
		for tag, v := range takeCounts() {
			x.Check(v == 0, "wrong total", "%s is %d after resetting all counters", tag, v)
		}
		for i, ops := range x.Threads {
			for j, o := range ops {
				cc.ResetAllCounters()
				libOp(o)
				x.Fault("map order changed")
				rt.SetPerm(uint64(x.Cfg["perm"] + int64(100*i+j)))
				c := takeCounts()
				for k, v := range c {
					sum[k] += v
				}
				x.Obs("%s: %v", o.K, c)
			}
		}
		cc.ResetAllCounters()
	})
	var mu rt.Mutex
	var fns []func()
	for _, ops := range x.Threads {
		ops := ops
		fns = append(fns, func() {
			for _, o := range ops {
				mu.Lock()
				libOp(o)
				x.Probe("counted " + o.K)
				mu.Unlock()
			}
		})
	}
	x.Go(fns...)
	x.Seq(func() {
		for k := int64(0); k < 3; k++ {
			rt.SetPerm(uint64(x.Cfg["perm"] * (k + 7)))
			c := takeCounts()
			x.Check(c.String() == sum.String() && len(c) == len(sum), "wrong total", "operations count %v together, %v one by one", c, sum)
			for _, r := range cc.ReportCallCounters(k&1 != 0, false) {
				x.Check(r.Calls == c[r.Tag], "wrong report", "%s is %d and %d", r.Tag, r.Calls, c[r.Tag])
				v, ok := r.CC.Get()
				x.Check(ok && v == r.Calls, "wrong total", "%s is %d and %d", r.Tag, r.Calls, v)
				if cc.Id(r.Tag).Exists() {
					v, ok = cc.Id(r.Tag).Get()
					x.Check(ok && v == r.Calls, "wrong total", "%s is %d and %d", r.Tag, r.Calls, v)
				}
			}
		}
	})
}

func genLib(r *core.Rng, thorough bool) *core.Plan {
	p := &core.Plan{Cfg: map[string]int64{"perm": int64(r.N(1 << 40))}}
	var ops []core.Op
	for k := r.In(1, 10); k > 0; k-- {
		ops = append(ops, core.Op{K: libOps[r.N(len(libOps))], A: []int64{0, int64(r.N(1 << 40)), int64(r.N(6))}})
	}
	p.Threads = r.Split(ops, r.In(1, 3))
	return p
}

func init() {
	core.Register(&core.Scenario{Name: "libcount", Props: []string{"P16"}, Gen: genLib, Exec: execLib, Init: func() {}})
}
