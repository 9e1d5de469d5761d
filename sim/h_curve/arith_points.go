//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"math/big"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/ref"
)

// The operations on points.

type pread = cp.CurvePointPtrInterfaceRead

// srcP picks a point to read that a receiver of the given type accepts as operand.
func (t *at) srcP(dst int, own bool) (pread, snap, int) {
	p, v, typ := t.srcPlain(dst)
	if t.r.P(1, 6) { // of a type that the library does not know
		// Such a point cannot be the receiver, and the library assumes so.
		p = stranger(p.Clone(), t.r.P(1, 2))
		t.x.Probe("point of a user's type")
	}
	return p, v, typ
}

func (t *at) srcPlain(dst int) (pread, snap, int) {
	for {
		if t.r.P(1, 4) {
			s := t.s.pts[t.r.N(len(t.s.pts))]
			if dst < 0 || dst >= tAxtwFull || s.typ < tAxtwFull {
				return s.p, s.v, s.typ
			}
			continue
		}
		i := t.r.N(nTypes)
		if dst >= 0 && t.r.P(1, 3) {
			i = dst
		}
		if dst < 0 || dst >= tAxtwFull || i < tAxtwFull {
			return t.q[i], t.qv[i], i
		}
	}
}

// fits tells whether the type of register z can hold the result.
func fits(z int, v snap) bool {
	return v.kind == 0 || z == tXtwFull || z == tEfghFull
}

func initPointOps() {
	bin := func(name string, op func(z cp.CurvePointPtrInterface, x, y pread), model func(x, y snap) snap) {
		defOp('p', name, func(t *at) {
			z := t.r.N(nTypes)
			x, xv, xt := t.srcP(z, true)
			y, yv, yt := t.srcP(z, true)
			if t.r.P(1, 6) {
				y, yv, yt = x, xv, xt
			}
			v := model(xv, yv)
			if !fits(z, v) {
				t.x.Probe("infinite result avoided")
				return
			}
			t.op = fmt.Sprint(name, " of ", typeNames[xt], " and ", typeNames[yt], " into ", typeNames[z])
			if v.kind == 1 || xv.kind == 1 || yv.kind == 1 {
				t.x.Probe("points at infinity")
			}
			op(t.q[z], x, y)
			t.qv[z] = v
		})
	}
	minus := func(x, y snap) snap { return x.plus(y.neg()) }
	bin("Point.Add", func(z cp.CurvePointPtrInterface, x, y pread) { z.Add(x, y) }, snap.plus)
	bin("Point.Sub", func(z cp.CurvePointPtrInterface, x, y pread) { z.Sub(x, y) }, minus)
	bin("Point.Neg", func(z cp.CurvePointPtrInterface, x, y pread) { z.Neg(x) }, func(x, y snap) snap { return x.neg() })
	bin("Point.Endo", func(z cp.CurvePointPtrInterface, x, y pread) { z.Endo(x) }, func(x, y snap) snap { return x.endo() })
	bin("Point.SetFrom", func(z cp.CurvePointPtrInterface, x, y pread) { z.SetFrom(x) }, func(x, y snap) snap { return x })
	defOp('p', "Point.cancel", func(t *at) {
		z := t.r.N(nTypes)
		t.op = "cancelling of " + typeNames[z]
		switch t.r.N(3) {
		case 0:
			t.q[z].SubEq(t.q[z])
		case 1:
			t.q[z].AddEq(t.q[z])
			t.q[z].SubEq(t.q[z])
		case 2:
			t.q[z].Sub(t.q[z], t.q[z])
		}
		t.qv[z] = fin(ref.Neutral)
	})
	defOp('p', "Point.Double", func(t *at) {
		z := t.r.N(nTypes)
		x, xv, xt := t.srcP(-1, true)
		v := xv.plus(xv)
		if z < tAxtwFull && !v.sub() {
			t.x.Check(false, "harness", "double outside of the subgroup")
		}
		t.op = fmt.Sprint("Point.Double of ", typeNames[xt], " into ", typeNames[z])
		t.q[z].Double(x)
		t.qv[z] = v
	})
	binEq := func(name string, op func(z cp.CurvePointPtrInterface, x pread), model func(z, x snap) snap) {
		defOp('p', name, func(t *at) {
			z := t.r.N(nTypes)
			x, xv, xt := t.srcP(z, true)
			v := model(t.qv[z], xv)
			if !fits(z, v) {
				t.x.Probe("infinite result avoided")
				return
			}
			if v.kind == 1 || xv.kind == 1 || t.qv[z].kind == 1 {
				t.x.Probe("points at infinity")
			}
			t.op = fmt.Sprint(name, " with ", typeNames[xt], " of ", typeNames[z])
			op(t.q[z], x)
			t.qv[z] = v
		})
	}
	binEq("Point.AddEq", func(z cp.CurvePointPtrInterface, x pread) { z.AddEq(x) }, snap.plus)
	binEq("Point.SubEq", func(z cp.CurvePointPtrInterface, x pread) { z.SubEq(x) }, minus)
	binEq("Point.NegEq", func(z cp.CurvePointPtrInterface, x pread) { z.NegEq() }, func(z, x snap) snap { return z.neg() })
	binEq("Point.DoubleEq", func(z cp.CurvePointPtrInterface, x pread) { z.DoubleEq() }, func(z, x snap) snap { return z.plus(z) })
	binEq("Point.EndoEq", func(z cp.CurvePointPtrInterface, x pread) { z.EndoEq() }, func(z, x snap) snap { return z.endo() })
	defOp('p', "Point.SetFromSubgroupPoint", func(t *at) {
		z := t.r.N(nTypes)
		x, xv, xt := t.srcP(-1, true)
		t.op = fmt.Sprint("SetFromSubgroupPoint from ", typeNames[xt], " of ", typeNames[z])
		in := xv.sub()
		trust := common.UntrustedInput
		if in && t.r.P(1, 2) {
			trust = common.TrustedInput
		}
		ok := t.q[z].SetFromSubgroupPoint(x, trust)
		t.check(ok == in, "wrong result", "%v for %v", ok, xv)
		if ok {
			t.qv[z] = xv
		}
	})
	defOp('p', "Point.set", func(t *at) {
		z := t.r.N(nTypes)
		switch k := t.r.N(4); {
		case k == 0:
			t.q[z].SetNeutral()
			t.qv[z] = fin(ref.Neutral)
		case k == 1 && z >= tAxtwFull:
			t.q[z].(interface{ SetAffineTwoTorsion() }).SetAffineTwoTorsion()
			t.qv[z] = fin(ref.TwoTorsion)
		case k == 2 && z > tAxtwFull:
			p := t.q[z].(interface {
				SetE1()
				SetE2()
			})
			if t.r.P(1, 2) {
				p.SetE1()
				t.qv[z] = inf(0)
			} else {
				p.SetE2()
				t.qv[z] = inf(1)
			}
		default:
			t.setPoint(z, t.r.N(nPool))
		}
	})
	defOp('p', "Point.related", func(t *at) { // something that makes the formulas degenerate
		z, y := t.r.In(tXtwFull, tEfghFull), t.r.N(nTypes)
		v := t.qv[y]
		if t.r.P(1, 2) {
			v = v.neg()
		}
		t.q[z].SetFrom(t.q[y])
		if !v.eq(t.qv[y]) {
			t.q[z].NegEq()
		}
		k := t.r.N(3)
		if k < 2 {
			p, _ := special(tXtwFull, int64(-2-k))
			t.q[z].AddEq(p)
			v = v.plus(inf(k))
		} else {
			t.q[z].AddEq(t.s.pts[8].p)
			v = v.plus(fin(ref.TwoTorsion))
		}
		t.qv[z] = v
	})
	defOp('p', "Point.query", func(t *at) {
		x, xv, xt := t.srcP(-1, true)
		y, yv, yt := t.srcP(-1, true)
		if t.r.P(1, 8) { // both at infinity
			xt, yt = t.r.Pick(tXtwFull, tEfghFull), t.r.Pick(tXtwFull, tEfghFull)
			p, v := special(xt, -2-int64(t.r.N(2)))
			q, w := special(yt, -2-int64(t.r.N(2)))
			for i := t.r.N(3); i > 0; i-- { // other representations
				l, m := newPoint(xt), newPoint(yt)
				s := t.s.pts[8].p
				l.Add(p, s)
				p.Sub(l, s)
				m.Add(q, s)
				q.Sub(m, s)
			}
			x, xv, y, yv = p, v, q, w
			if t.r.P(1, 4) {
				y = stranger(q, t.r.P(1, 2))
			}
			if t.r.P(1, 4) {
				x = stranger(p, t.r.P(1, 2))
			}
		}
		t.op = fmt.Sprint("queries of ", typeNames[xt], " and ", typeNames[yt])
		t.check(!x.IsNaP(), "wrong result", "IsNaP")
		t.check(x.IsNeutralElement() == xv.eq(fin(ref.Neutral)), "wrong result", "IsNeutralElement of %v", xv)
		t.check(x.IsAtInfinity() == (xv.kind == 1), "wrong result", "IsAtInfinity of %v", xv)
		t.check(x.IsInSubgroup() == xv.sub(), "wrong result", "IsInSubgroup of %v", xv)
		t.check(x.IsEqual(y) == xv.eq(yv), "wrong result", "IsEqual of %v and %v", xv, yv)
		if x.CanRepresentInfinity() {
			d := x.(cp.CurvePointPtrInterfaceDistinguishInfinity)
			t.check(d.IsE1() == xv.eq(inf(0)) && d.IsE2() == xv.eq(inf(1)), "wrong result", "IsE1 or IsE2 of %v", xv)
		}
		if v, ok := x.(interface{ Validate() bool }); ok {
			t.check(v.Validate(), "wrong result", "Validate of %v", xv)
		}
		if s := x.String(); s == "" {
			t.check(false, "wrong result", "empty String")
		}
		c := x.Clone()
		t.check(c.CanOnlyRepresentSubgroup() == (xt < tAxtwFull) && value(c).eq(xv), "wrong result", "Clone of %v", xv)
		c.SetNeutral()
	})
	defOp('p', "Point.affine", func(t *at) {
		x, xv, xt := t.srcP(-1, true)
		if xv.kind != 0 {
			return
		}
		t.op = "affine coordinates of " + typeNames[xt]
		X, Y := xv.p.X, xv.p.Y
		T := ref.Mul(X, Y)
		is := func(what string, z fe.FieldElement, v *big.Int) {
			t.check(val(z).Cmp(v) == 0, "wrong result", "%s of %v: %x", what, xv, val(z))
		}
		switch t.r.N(5) {
		case 0:
			is("X_affine", x.X_affine(), X)
		case 1:
			is("Y_affine", x.Y_affine(), Y)
		case 2:
			a, b := x.XY_affine()
			is("XY_affine", a, X)
			is("XY_affine", b, Y)
		case 3:
			d := decaf(x)
			xd, yd, td := val(d.X_decaf_affine()), val(d.Y_decaf_affine()), val(d.T_decaf_affine())
			t.check((ref.Pt{X: xd, Y: yd}).Eq(xv.p) || (ref.Pt{X: xd, Y: yd}).Eq(xv.p.PlusA()), "wrong result", "decaf coordinates of %v: %x %x", xv, xd, yd)
			t.check(td.Cmp(T) == 0, "wrong result", "T_decaf_affine of %v", xv)
			return
		case 4:
			if e, ok := x.(cp.CurvePointPtrInterfaceCooReadExtended); ok {
				is("T_affine", e.T_affine(), T)
				a, b, c := e.XYT_affine()
				is("XYT_affine", a, X)
				is("XYT_affine", b, Y)
				is("XYT_affine", c, T)
			}
		}
		is("MapToFieldElement", cp.MapToFieldElement(x), ref.Mul(X, ref.Inv(Y)))
	})
	defOp('p', "Point.projective", func(t *at) {
		x, xv, xt := t.srcP(-1, true)
		t.op = "projective coordinates of " + typeNames[xt]
		var X, Y, T, Z *big.Int
		e, ext := x.(cp.CurvePointPtrInterfaceCooReadExtended)
		dec := false
		k := t.r.N(5)
		switch {
		case k == 0:
			d := decaf(x)
			X, Y, T, Z = val(d.X_decaf_projective()), val(d.Y_decaf_projective()), val(d.T_decaf_projective()), val(d.Z_decaf_projective())
			dec = true
		case k == 1 && ext:
			a, b, c, d := e.XYTZ_projective()
			X, Y, T, Z = val(a), val(b), val(c), val(d)
		case k == 2 && ext:
			X, Y, T, Z = val(e.X_projective()), val(e.Y_projective()), val(e.T_projective()), val(e.Z_projective())
		case k == 3:
			a, b, c := x.XYZ_projective()
			X, Y, Z = val(a), val(b), val(c)
		default:
			Z, Y, X = val(x.Z_projective()), val(x.Y_projective()), val(x.X_projective())
		}
		if xv.kind == 1 {
			t.check(Z.Sign() == 0 && Y.Sign() == 0 && X.Sign() != 0, "wrong result", "%x %x %x of %v", X, Y, Z, xv)
			if T != nil {
				s := infS
				if xv.e == 1 {
					s = ref.Neg(s)
				}
				t.check(T.Cmp(ref.Mul(s, X)) == 0, "wrong result", "X=%x and T=%x of %v", X, T, xv)
			}
			return
		}
		t.check(Z.Sign() != 0, "wrong result", "Z is 0 for %v", xv)
		if T != nil {
			t.check(ref.Mul(T, Z).Cmp(ref.Mul(X, Y)) == 0, "wrong result", "T and Z do not fit for %v", xv)
		}
		X, Y = ref.Mul(X, ref.Inv(Z)), ref.Mul(Y, ref.Inv(Z))
		p := ref.Pt{X: X, Y: Y}
		t.check(p.Eq(xv.p) || dec && p.Eq(xv.p.PlusA()), "wrong result", "%v instead of %v", fin(p), xv)
	})
	defOp('p', "Point.normalize", func(t *at) {
		z := t.r.N(nTypes)
		if p, ok := t.q[z].(cp.NormalizerForZ); ok && t.r.P(1, 2) {
			t.check(p.NormalizeForZ() == (t.qv[z].kind == 0), "wrong result", "NormalizeForZ of %s, %v", typeNames[z], t.qv[z])
			if d := decaf(t.q[z]); t.qv[z].kind == 0 {
				t.check(val(d.Z_decaf_projective()).Cmp(ref.One) == 0, "not normalised", "Z of %s", typeNames[z])
			}
		} else if p, ok := t.q[z].(cp.NormalizerForY); ok {
			t.check(p.NormalizeForY() == (t.qv[z].kind == 0), "wrong result", "NormalizeForY of %s, %v", typeNames[z], t.qv[z])
			if d := decaf(t.q[z]); t.qv[z].kind == 0 {
				t.check(val(d.Y_decaf_projective()).Cmp(ref.One) == 0, "not normalised", "Y of %s", typeNames[z])
			}
		}
	})
	defOp('p', "Point.batch", func(t *at) {
		n := t.r.Lots(0, 1, 2, 3, 5)
		typ := t.r.Pick(tXtwSub, tXtwFull, tAxtwSub, tAxtwFull)
		var vals []snap
		a, b, c, d := make(cp.CurvePointSlice_xtw_subgroup, n), make(cp.CurvePointSlice_xtw_full, n), make(cp.CurvePointSlice_axtw_subgroup, n), make(cp.CurvePointSlice_axtw_full, n)
		var s cp.CurvePointSlice = []cp.CurvePointSlice{0: c, 1: a, 3: d, 4: b}[typ]
		many := t.r.P(1, 4)
		for i := 0; i < n; i++ {
			x, xv, _ := t.srcP(typ, true)
			if many && typ == tXtwFull && t.r.P(1, 2) {
				x, xv = special(typ, -2-int64(t.r.N(2)))
			}
			if typ == tAxtwFull && xv.kind == 1 {
				xv = fin(ref.Neutral)
				s.GetByIndex(i).SetNeutral()
			} else {
				s.GetByIndex(i).SetFrom(x)
			}
			vals = append(vals, xv)
		}
		var failed, want []int
		for i, v := range vals {
			if v.kind != 0 {
				want = append(want, i)
			}
		}
		y, isY := s.(cp.BatchNormalizerForY)
		zz, isZ := s.(cp.BatchNormalizerForZ)
		doY := isY && t.r.P(1, 2)
		if !doY && !isZ {
			return
		}
		if doY {
			failed = y.BatchNormalizeForY()
		} else {
			failed = zz.BatchNormalizeForZ()
		}
		t.check(fmt.Sprint(failed) == fmt.Sprint(want), "wrong result", "failed: %v, should be %v", failed, want)
		for i, v := range vals {
			p := s.GetByIndex(i)
			if v.kind == 0 {
				d := decaf(p)
				z := d.Z_decaf_projective()
				if doY {
					z = d.Y_decaf_projective()
				}
				t.check(val(z).Cmp(ref.One) == 0, "not normalised", "element %d of %d", i, n)
			}
			t.check(value(p).eq(v), "wrong point", "element %d of %d of %s is %v, should be %v", i, n, typeNames[typ], value(p), v)
		}
	})
	defOp('p', "Point.from", func(t *at) {
		z := t.r.In(tAxtwSub, tAxtwFull)
		if z != tAxtwFull {
			z = tAxtwSub
		}
		k := t.r.N(nPool)
		sub := z == tAxtwSub
		if sub {
			k = t.r.N(nSub)
		}
		trust := common.TrustedInput
		if t.r.P(1, 2) {
			trust = common.UntrustedInput
		}
		p := pool[k].Pt
		x, y := feOf(p.X), feOf(p.Y)
		x.RerandomizeRepresentation(t.r.U64())
		y.RerandomizeRepresentation(t.r.U64())
		s := fe.FieldElementOne
		if ref.Sign(p.Y) < 0 {
			s.NegEq()
		}
		var xs, ys fe.FieldElement
		xs.Mul(&x, &s)
		ys.Mul(&y, &s)
		var err error
		kind := t.r.N(6)
		t.op = fmt.Sprint("creating a point of type ", typeNames[z], ", kind ", kind)
		if sub {
			var q cp.Point_axtw_subgroup
			switch kind {
			case 0:
				q, err = fixErr(cp.CurvePointFromXYAffine_subgroup(&x, &y, trust))
			case 1:
				q, err = fixErr(cp.CurvePointFromXAndSignY_subgroup(&x, ref.Sign(p.Y), trust))
			case 2:
				if p.X.Sign() == 0 {
					return
				}
				q, err = fixErr(cp.CurvePointFromYAndSignX_subgroup(&y, ref.Sign(p.X), trust))
			case 3:
				q, err = fixErr(cp.CurvePointFromXTimesSignY_subgroup(&xs, trust))
			case 4:
				q, err = fixErr(cp.CurvePointFromXYTimesSignY_subgroup(&xs, &ys, trust))
			case 5:
				q, err = fixErr(cp.CurvePointFromYXTimesSignY_subgroup(&ys, &xs, trust))
			}
			t.q[z] = &q
		} else {
			var q cp.Point_axtw_full
			switch {
			case kind < 2:
				q, err = fixErr(cp.CurvePointFromXYAffine_full(&x, &y, trust))
			case kind < 4 || p.X.Sign() == 0:
				q, err = fixErr(cp.CurvePointFromXAndSignY_full(&x, ref.Sign(p.Y), trust))
			default:
				q, err = fixErr(cp.CurvePointFromYAndSignX_full(&y, ref.Sign(p.X), trust))
			}
			t.q[z] = &q
		}
		t.check(err == nil, "wrong error", "%v", err)
		t.qv[z] = fin(p)
		t.check(val(x).Cmp(p.X) == 0 && val(y).Cmp(p.Y) == 0, "operand changed", "coordinates have changed")
	})
	defOp('p', "Point.fromAny", func(t *at) { // any coordinates, not trusted
		p, o := pool[t.r.N(nPool)].Pt, pool[t.r.N(nPool)].Pt
		if t.r.P(1, 3) {
			p.Y = ref.Neg(p.Y)
		}
		X, Y := p.X, p.Y
		switch t.r.N(8) {
		case 0:
			X = o.X
		case 1:
			Y = o.Y
		case 2:
			X = smallOrBig(t.r)
		case 3:
			Y = smallOrBig(t.r)
		case 4:
			X, Y = smallOrBig(t.r), smallOrBig(t.r)
		case 5:
			X, Y = new(big.Int), []*big.Int{ref.One, ref.Neg(ref.One), new(big.Int), ref.InfY, ref.Neg(ref.InfY)}[t.r.Pick(0, 1, 2, 2, 3, 4)]
		}
		sign := t.r.Pick(1, 1, 1, -1, -1, -1, 0, 2, -3)
		x, y := feOf(X), feOf(Y)
		x.RerandomizeRepresentation(t.r.U64())
		y.RerandomizeRepresentation(t.r.U64())
		kind := t.r.N(9)
		t.op = fmt.Sprintf("creating a point from any coordinates, kind %d, %x %x %d", kind, X, Y, sign)
		xS := func() (l []error) {
			if sign != 1 && sign != -1 {
				l = append(l, be.ErrInvalidSign)
			}
			if !ref.XOnCurve(X) {
				l = append(l, be.ErrXNotOnCurve)
			} else if kind != 1 && !ref.Class1(X) {
				l = append(l, be.ErrXNotInSubgroup, be.ErrNotInSubgroup)
			}
			return
		}
		yS := func() (l []error) {
			one := ref.Mul(Y, Y).Cmp(ref.One) == 0
			if sign < -1 || sign > 1 {
				l = append(l, be.ErrInvalidSign)
			}
			if sign == 0 && !one {
				l = append(l, be.ErrInvalidZeroSignX)
			}
			if !ref.YOnCurve(Y) {
				l = append(l, be.ErrYNotOnCurve)
			} else if kind != 2 && !ref.Member(Y) {
				l = append(l, be.ErrNotInSubgroup)
			}
			return
		}
		var q cp.CurvePointPtrInterface
		var err error
		var bad []error // what may be the reason to refuse it, nil if it has to be accepted
		is := func(p ref.Pt) bool { return p.X.Cmp(X) == 0 && p.Y.Cmp(Y) == 0 }
		on := ref.OnCurve(X, Y)
		switch kind {
		case 0, 3:
			if !on {
				bad = append(bad, be.ErrNotOnCurve, be.ErrCannotDeserializeNaP)
				if X.Sign() == 0 && Y.Sign() == 0 { // has an error of its own
					bad = []error{be.ErrCannotDeserializeXYAllZero}
				}
			} else if kind == 3 && !ref.Member(Y) {
				bad = append(bad, be.ErrNotInSubgroup)
			}
			if kind == 0 {
				var p cp.Point_axtw_full
				p, err = fixErr(cp.CurvePointFromXYAffine_full(&x, &y, common.UntrustedInput))
				q = &p
			} else {
				var p cp.Point_axtw_subgroup
				p, err = fixErr(cp.CurvePointFromXYAffine_subgroup(&x, &y, common.UntrustedInput))
				q = &p
			}
		case 1:
			bad = xS()
			var p cp.Point_axtw_full
			p, err = fixErr(cp.CurvePointFromXAndSignY_full(&x, sign, common.UntrustedInput))
			q = &p
			is = func(p ref.Pt) bool { return p.X.Cmp(X) == 0 && ref.Sign(p.Y) == sign }
		case 4:
			bad = xS()
			if len(bad) == 0 {
				l, _ := ref.LiftX(X)
				if ref.Sign(l.Y) != sign {
					l.Y = ref.Neg(l.Y)
				}
				if !ref.Member(l.Y) {
					bad = append(bad, be.ErrNotInSubgroup)
				}
			}
			var p cp.Point_axtw_subgroup
			p, err = fixErr(cp.CurvePointFromXAndSignY_subgroup(&x, sign, common.UntrustedInput))
			q = &p
			is = func(p ref.Pt) bool { return p.X.Cmp(X) == 0 && ref.Sign(p.Y) == sign }
		case 2, 5:
			bad = yS()
			if kind == 2 {
				var p cp.Point_axtw_full
				p, err = fixErr(cp.CurvePointFromYAndSignX_full(&y, sign, common.UntrustedInput))
				q = &p
			} else {
				var p cp.Point_axtw_subgroup
				p, err = fixErr(cp.CurvePointFromYAndSignX_subgroup(&y, sign, common.UntrustedInput))
				q = &p
			}
			is = func(p ref.Pt) bool { return p.Y.Cmp(Y) == 0 && (p.X.Sign() == 0 || ref.Sign(p.X) == sign) }
		default:
			var p cp.Point_axtw_subgroup
			if kind == 6 {
				if !ref.XOnCurve(X) {
					bad = append(bad, be.ErrXNotOnCurve)
				} else if !ref.Class1(X) {
					bad = append(bad, be.ErrXNotInSubgroup)
				}
				p, err = fixErr(cp.CurvePointFromXTimesSignY_subgroup(&x, common.UntrustedInput))
				is = func(p ref.Pt) bool {
					return p.X.Cmp(X) == 0 && ref.Sign(p.Y) > 0 || p.X.Cmp(ref.Neg(X)) == 0 && ref.Sign(p.Y) < 0
				}
			} else {
				if ref.Sign(Y) <= 0 {
					bad = append(bad, be.ErrWrongSignY)
				}
				if !on {
					bad = append(bad, be.ErrNotOnCurve)
				}
				if !ref.Class1(X) {
					bad = append(bad, be.ErrNotInSubgroup)
				}
				if kind == 7 {
					p, err = fixErr(cp.CurvePointFromXYTimesSignY_subgroup(&x, &y, common.UntrustedInput))
				} else {
					p, err = fixErr(cp.CurvePointFromYXTimesSignY_subgroup(&y, &x, common.UntrustedInput))
				}
				is = func(p ref.Pt) bool {
					return p.X.Cmp(X) == 0 && p.Y.Cmp(Y) == 0 || p.X.Cmp(ref.Neg(X)) == 0 && p.Y.Cmp(ref.Neg(Y)) == 0
				}
			}
			q = &p
		}
		t.check(val(x).Cmp(X) == 0 && val(y).Cmp(Y) == 0, "operand changed", "coordinates have changed")
		t.check((err == nil) == (len(bad) == 0), "wrong result", "error %v, reasons to refuse it are %v", err, bad)
		if err != nil {
			t.x.Probe("coordinates refused")
			ok := false
			for _, b := range bad {
				ok = ok || errors.Is(err, b)
			}
			t.check(ok && err.Error() != "", "wrong error", "%v; reasons to refuse it are %v", err, bad)
			t.check(X.Sign() == 0 && Y.Sign() == 0 || !errors.Is(err, be.ErrCannotDeserializeXYAllZero), "wrong error", "%v, but %x and %x are not both 0", err, X, Y)
			for _, name := range [...][]string{0: {"X", "Y"}, 1: {"X", "SignY"}, 2: {"Y", "SignX"}, 6: {"X"}, 7: {"XSignY", "YSignY"}}[[...]int{0, 1, 2, 0, 1, 2, 6, 7, 7}[kind]] {
				got, present := ewd.GetParameter(err, name)
				same := false
				switch g := got.(type) {
				case int:
					same = name[0] == 'S' && g == sign
				case fe.FieldElement:
					same = name[0] == 'X' && val(g).Cmp(X) == 0 || name[0] == 'Y' && val(g).Cmp(Y) == 0
				}
				t.check(present && same, "wrong error data", "the error %v has %v as %v (present: %v)", err, got, name, present)
			}
			return
		}
		v := value(q)
		t.check(v.kind == 0 && is(v.p) && ref.OnCurve(v.p.X, v.p.Y) && (kind < 3 || v.sub()), "wrong point", "%v", v)
		z := tAxtwFull
		if kind >= 3 {
			z = tAxtwSub
		}
		t.q[z], t.qv[z] = q, v
	})
}

func fixErr[P any, E error](p P, err E) (P, error) {
	if any(err) == nil {
		return p, nil
	}
	return p, err
}

type decafCoords interface {
	X_decaf_affine() fe.FieldElement
	Y_decaf_affine() fe.FieldElement
	T_decaf_affine() fe.FieldElement
	X_decaf_projective() fe.FieldElement
	Y_decaf_projective() fe.FieldElement
	T_decaf_projective() fe.FieldElement
	Z_decaf_projective() fe.FieldElement
}

func decaf(p pread) decafCoords { return p.(decafCoords) }
