//go:build go1.22

// Simulation of goroutines computing with points and numbers.
package main

import (
	"math/big"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/core"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/ref"
)

func main() { core.Main("curve") }

// The pool of points: elements 0..nSub-1 are inside of the subgroup, nSub..nPool-1 are finite points outside of it.
const (
	nSub  = 28
	nFull = 16
	nPool = nSub + nFull
)

type entry struct {
	ref.Pt
	sub bool
}

var pool []entry

func initPool() {
	if pool != nil {
		return
	}
	r := core.NewRng(0xB4ADE55)
	lift := func() ref.Pt {
		for {
			if p, ok := ref.LiftX(new(big.Int).Mod(new(big.Int).SetBytes(r.Bytes(32)), ref.P)); ok {
				if r.P(1, 2) {
					p.Y = ref.Neg(p.Y)
				}
				return p
			}
		}
	}
	add := func(p ref.Pt) {
		pool = append(pool, entry{p, p.InSubgroup()})
	}
	add(ref.Neutral)
	var g ref.Pt
	for {
		g, _ = lift().Times(big.NewInt(4))
		if g.InSubgroup() && !g.Eq(ref.Neutral) {
			break
		}
	}
	add(g)
	add(g.Neg())
	for q := g; len(pool) < nSub; {
		q, _ = q.Add(g)
		if len(pool) > nSub/2 { // spread out
			q, _ = q.Add(q)
			q, _ = q.Add(q)
		}
		p := q
		if r.P(1, 2) {
			p = p.Neg()
		}
		add(p)
	}
	add(ref.TwoTorsion)
	for len(pool) < nPool {
		var p ref.Pt
		if r.P(1, 3) {
			p = pool[r.In(1, nSub-1)].PlusA()
		} else {
			p = lift()
		}
		if !p.InSubgroup() {
			add(p)
		}
	}
	for i, e := range pool {
		if e.sub != (i < nSub) || !ref.OnCurve(e.X, e.Y) || ref.Member(e.Y) != e.sub || (e.sub && !ref.Class1(e.X)) || !ref.XOnCurve(e.X) || !ref.YOnCurve(e.Y) {
			panic("harness: inconsistent pool of points")
		}
	}
}

func feOf(v *big.Int) (z fe.FieldElement) { z.SetBigInt(v); return }
func val(z fe.FieldElement) *big.Int      { return z.ToBigInt() }

// The types of points.
const (
	tAxtwSub = iota
	tXtwSub
	tEfghSub
	tAxtwFull
	tXtwFull
	tEfghFull
	nTypes
)

var typeNames = []string{"axtw_subgroup", "xtw_subgroup", "efgh_subgroup", "axtw_full", "xtw_full", "efgh_full"}

func newPoint(typ int) cp.CurvePointPtrInterface {
	switch typ {
	case tAxtwSub:
		return new(cp.Point_axtw_subgroup)
	case tXtwSub:
		return new(cp.Point_xtw_subgroup)
	case tEfghSub:
		return new(cp.Point_efgh_subgroup)
	case tAxtwFull:
		return new(cp.Point_axtw_full)
	case tXtwFull:
		return new(cp.Point_xtw_full)
	}
	return new(cp.Point_efgh_full)
}

// load stores a finite point. The point must be in the subgroup if the type cannot hold others.
func load(dst cp.CurvePointPtrInterface, p ref.Pt) {
	x, y := feOf(p.X), feOf(p.Y)
	if dst.CanOnlyRepresentSubgroup() {
		q, err := cp.CurvePointFromXYAffine_subgroup(&x, &y, common.TrustedInput)
		if err != nil {
			panic("harness: " + err.Error())
		}
		dst.SetFrom(&q)
		return
	}
	q, err := cp.CurvePointFromXYAffine_full(&x, &y, common.TrustedInput)
	if err != nil {
		panic("harness: " + err.Error())
	}
	dst.SetFrom(&q)
}

// vary changes the internal representation of a point, not its value.
func vary(dst cp.CurvePointPtrInterface, how uint64) {
	other := how / 6 % (nSub - 1)
	switch how % 6 {
	case 1, 2:
		q := newPoint(tAxtwSub)
		load(q, pool[1+other].Pt)
		dst.AddEq(q)
		dst.SubEq(q)
	case 3:
		dst.NegEq()
		dst.NegEq()
	case 4, 5: // types that work modulo the point of order two may represent a point by the other one of its class
		if !dst.CanOnlyRepresentSubgroup() {
			return
		}
		for i := 0; ref.Sign(pool[1+other].Y) > 0; i++ {
			if i == nSub {
				return
			}
			other = (other + 1) % (nSub - 1)
		}
		p := pool[1+other]
		x, y := feOf(ref.Neg(p.X)), feOf(ref.Neg(p.Y))
		q, err := cp.CurvePointFromXYTimesSignY_subgroup(&x, &y, common.TrustedInput)
		if err != nil {
			panic("harness: " + err.Error())
		}
		r := newPoint(tAxtwSub)
		load(r, p.Pt)
		dst.SubEq(r)
		dst.AddEq(&q)
	}
}

// snap is the abstract value of a point.
type snap struct {
	kind int // 0 finite, 1 infinite, 2 invalid
	p    ref.Pt
	e    int // which of the points at infinity
}

func value(q cp.CurvePointPtrInterfaceRead) (s snap) {
	if q.IsNaP() {
		return snap{kind: 2}
	}
	if q.IsAtInfinity() {
		s.kind = 1
		if d, ok := q.(interface{ IsE1() bool }); ok && !d.IsE1() {
			s.e = 1
		}
		return
	}
	if d, ok := q.(decafCoords); ok && !coherent(d) {
		return snap{kind: 3}
	}
	x, y := q.XY_affine()
	return snap{p: ref.Pt{X: val(x), Y: val(y)}}
}

// coherent checks that the fourth coordinate, which only some operations use, fits to the others.
func coherent(d decafCoords) bool {
	x, y, t, z := d.X_decaf_projective(), d.Y_decaf_projective(), d.T_decaf_projective(), d.Z_decaf_projective()
	return ref.Mul(val(x), val(y)).Cmp(ref.Mul(val(t), val(z))) == 0
}

func (s snap) eq(t snap) bool {
	if s.kind != t.kind || s.e != t.e {
		return false
	}
	return s.kind != 0 || s.p.Eq(t.p)
}

// holds checks that q represents p, cheaply for types that store points modulo A.
func holds(q cp.CurvePointPtrInterfaceRead, p ref.Pt, exact bool) bool {
	if q.IsNaP() || q.IsAtInfinity() {
		return false
	}
	if exact {
		x, y := q.XY_affine()
		return val(x).Cmp(p.X) == 0 && val(y).Cmp(p.Y) == 0
	}
	d := q.(interface {
		X_decaf_affine() fe.FieldElement
		Y_decaf_affine() fe.FieldElement
	})
	x, y := val(d.X_decaf_affine()), val(d.Y_decaf_affine())
	return (ref.Pt{X: x, Y: y}).Eq(p) || (ref.Pt{X: x, Y: y}).Eq(p.PlusA())
}

// Points that are not finite: -1 invalid, -2 and -3 infinite.
func special(typ int, which int64) (q cp.CurvePointPtrInterface, want snap) {
	q = newPoint(typ)
	switch {
	case which == -1:
		return q, snap{kind: 2}
	case typ == tXtwFull && which == -2:
		*q.(*cp.Point_xtw_full) = cp.InfinitePoint1_xtw
	case typ == tXtwFull:
		*q.(*cp.Point_xtw_full) = cp.InfinitePoint2_xtw
	case typ == tEfghFull && which == -2:
		*q.(*cp.Point_efgh_full) = cp.InfinitePoint1_efgh
	case typ == tEfghFull:
		*q.(*cp.Point_efgh_full) = cp.InfinitePoint2_efgh
	default:
		return q, snap{kind: 2}
	}
	s := snap{kind: 1}
	if which != -2 {
		s.e = 1
	}
	return q, s
}

// Types of points that a user may define: as the library's types, but not known to it.
type (
	userAxtwSub  struct{ *cp.Point_axtw_subgroup }
	userXtwSub   struct{ *cp.Point_xtw_subgroup }
	userEfghSub  struct{ *cp.Point_efgh_subgroup }
	userAxtwFull struct{ *cp.Point_axtw_full }
	userXtwFull  struct{ *cp.Point_xtw_full }
	userEfghFull struct{ *cp.Point_efgh_full }
	userPoint    struct{ cp.CurvePointPtrInterface } // has nothing beyond the interface...
	userPointInf struct{ userPoint }                 // ...and what is necessary for points at infinity
)

func (p *userPointInf) IsE1() bool {
	return p.CurvePointPtrInterface.(cp.CurvePointPtrInterfaceDistinguishInfinity).IsE1()
}

func (p *userPointInf) IsE2() bool {
	return p.CurvePointPtrInterface.(cp.CurvePointPtrInterfaceDistinguishInfinity).IsE2()
}

// foreign wraps a point.
func foreign(p cp.CurvePointPtrInterfaceRead) cp.CurvePointPtrInterface {
	switch p := p.(type) {
	case *cp.Point_axtw_subgroup:
		return &userAxtwSub{p}
	case *cp.Point_xtw_subgroup:
		return &userXtwSub{p}
	case *cp.Point_efgh_subgroup:
		return &userEfghSub{p}
	case *cp.Point_axtw_full:
		return &userAxtwFull{p}
	case *cp.Point_xtw_full:
		return &userXtwFull{p}
	case *cp.Point_efgh_full:
		return &userEfghFull{p}
	}
	panic("harness: unknown type")
}

// stranger wraps a point in one of the types that hide what the library knows about it.
func stranger(p cp.CurvePointPtrInterface, simple bool) cp.CurvePointPtrInterface {
	switch {
	case !simple:
		return foreign(p)
	case p.CanRepresentInfinity():
		return &userPointInf{userPoint{p}}
	}
	return &userPoint{p}
}
