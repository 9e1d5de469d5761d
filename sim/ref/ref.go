//go:build go1.22

// Package ref is an independent model of the Bandersnatch curve and its field, written with math/big only.
package ref

import "math/big"

func hex(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }

var (
	P    = hex("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001") // base field size
	R    = hex("1cfb69d4ca675f520cce760202687600ff8f87007419047174fd06b52876e7e1") // order of the subgroup
	D    = hex("6389c12633c267cbc66e3bf86be3b6d8cb66677177e54f92b369f2f5188d58e7")
	A    = new(big.Int).Sub(P, big.NewInt(5))
	One  = big.NewInt(1)
	Half = new(big.Int).Rsh(P, 1) // (P-1)/2
)

func Mul(a, b *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, P) }
func Add(a, b *big.Int) *big.Int { r := new(big.Int).Add(a, b); return r.Mod(r, P) }
func Sub(a, b *big.Int) *big.Int { r := new(big.Int).Sub(a, b); return r.Mod(r, P) }
func Neg(a *big.Int) *big.Int    { r := new(big.Int).Neg(a); return r.Mod(r, P) }
func Inv(a *big.Int) *big.Int    { return new(big.Int).ModInverse(a, P) }
func Jac(a *big.Int) int         { return big.Jacobi(a, P) }

// Sign is +1 for 1..(P-1)/2, -1 for the rest, 0 for 0.
func Sign(a *big.Int) int {
	if a.Sign() == 0 {
		return 0
	}
	if a.Cmp(Half) <= 0 {
		return 1
	}
	return -1
}

// Pt is an affine point.
type Pt struct{ X, Y *big.Int }

var Neutral = Pt{new(big.Int), big.NewInt(1)}
var TwoTorsion = Pt{new(big.Int), Sub(new(big.Int), One)} // A

// NumX is 1-aX^2, DenX is 1-dX^2.
func NumX(x *big.Int) *big.Int { return Add(One, Mul(big.NewInt(5), Mul(x, x))) }
func DenX(x *big.Int) *big.Int { return Sub(One, Mul(D, Mul(x, x))) }

// OnCurve checks the equation aX^2+Y^2 = 1+dX^2Y^2.
func OnCurve(x, y *big.Int) bool {
	xx, yy := Mul(x, x), Mul(y, y)
	return Add(Mul(A, xx), yy).Cmp(Add(One, Mul(D, Mul(xx, yy)))) == 0
}

func (p Pt) Eq(q Pt) bool { return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0 }
func (p Pt) Neg() Pt      { return Pt{Neg(p.X), p.Y} }

// PlusA adds the affine point of order 2.
func (p Pt) PlusA() Pt { return Pt{Neg(p.X), Neg(p.Y)} }

// Add is the complete affine addition law. ok is false if the result is at infinity.
func (p Pt) Add(q Pt) (r Pt, ok bool) {
	xx, yy, xy, yx := Mul(p.X, q.X), Mul(p.Y, q.Y), Mul(p.X, q.Y), Mul(p.Y, q.X)
	t := Mul(D, Mul(xx, yy))
	d1, d2 := Add(One, t), Sub(One, t)
	if d1.Sign() == 0 || d2.Sign() == 0 {
		return Pt{}, false
	}
	return Pt{Mul(Add(xy, yx), Inv(d1)), Mul(Sub(yy, Mul(A, xx)), Inv(d2))}, true
}

// InSubgroup checks that p has an order dividing R. Projective double and add; the formulas are complete on the subgroup,
// and Z becomes 0 only for points outside of it.
func (p Pt) InSubgroup() bool {
	X, Y, Z := new(big.Int), big.NewInt(1), big.NewInt(1)
	for i := R.BitLen() - 1; i >= 0; i-- {
		X, Y, Z = addProj(X, Y, Z, X, Y, Z)
		if R.Bit(i) == 1 {
			X, Y, Z = addProj(X, Y, Z, p.X, p.Y, One)
		}
		if Z.Sign() == 0 {
			return false
		}
	}
	return X.Sign() == 0 && Y.Cmp(Z) == 0
}

func addProj(X1, Y1, Z1, X2, Y2, Z2 *big.Int) (X, Y, Z *big.Int) {
	a := Mul(Z1, Z2)
	b := Mul(a, a)
	c, d := Mul(X1, X2), Mul(Y1, Y2)
	e := Mul(D, Mul(c, d))
	f, g := Sub(b, e), Add(b, e)
	X = Mul(Mul(a, f), Sub(Sub(Mul(Add(X1, Y1), Add(X2, Y2)), c), d))
	Y = Mul(Mul(a, g), Sub(d, Mul(A, c)))
	Z = Mul(f, g)
	return
}

// Times is scalar multiplication (affine, slow). ok is false if infinity is met on the way.
func (p Pt) Times(k *big.Int) (r Pt, ok bool) {
	r, ok = Neutral, true
	for i := k.BitLen() - 1; i >= 0 && ok; i-- {
		if r, ok = r.Add(r); !ok {
			return
		}
		if k.Bit(i) == 1 {
			r, ok = r.Add(p)
		}
	}
	return
}

// LiftX finds a point with the given X (Y has sign +1).
func LiftX(x *big.Int) (p Pt, ok bool) {
	yy := Mul(NumX(x), Inv(DenX(x)))
	y := new(big.Int).ModSqrt(yy, P)
	if y == nil {
		return
	}
	if Sign(y) < 0 {
		y = Neg(y)
	}
	return Pt{new(big.Int).Mod(x, P), y}, true
}

// Constants of the birationally equivalent Weierstrass curve Y^2 = X(X-w1)(X-w2): X = wB*(1+y)/(1-y).
var wB, w1, w2 = func() (b, e1, e2 *big.Int) {
	inv := Inv(Sub(A, D))
	b = Mul(big.NewInt(4), inv)
	m := Mul(big.NewInt(2), Mul(Add(A, D), inv))
	s := new(big.Int).ModSqrt(Sub(Mul(m, m), big.NewInt(4)), P)
	half := Inv(big.NewInt(2))
	e1 = Mul(b, Mul(half, Add(Neg(m), s)))
	e2 = Mul(b, Mul(half, Sub(Neg(m), s)))
	return
}()

// Member is InSubgroup for points on the curve, by a different and much faster criterion: P is in the subgroup iff it is in 2E,
// iff X, X-w1 and X-w2 are squares. This depends on y only.
func Member(y *big.Int) bool {
	if y.Cmp(One) == 0 {
		return true
	}
	n, d := Mul(wB, Add(One, y)), Sub(One, y)
	if n.Sign() == 0 {
		return false
	}
	return Jac(Mul(n, d)) == 1 && Jac(Mul(Sub(n, Mul(w1, d)), d)) == 1 && Jac(Mul(Sub(n, Mul(w2, d)), d)) == 1
}

// Class1 tells whether the point or the point plus A is in the subgroup, given x of a point on the curve.
func Class1(x *big.Int) bool { return Jac(NumX(x)) == 1 }

// XOnCurve tells whether there is a point with this x.
func XOnCurve(x *big.Int) bool { return Jac(Mul(NumX(x), DenX(x))) == 1 }

// YOnCurve tells whether there is a finite point with this y.
func YOnCurve(y *big.Int) bool {
	yy := Mul(y, y)
	n, d := Sub(One, yy), Sub(A, Mul(D, yy))
	if d.Sign() == 0 {
		return false
	}
	return Jac(Mul(n, d)) >= 0
}

// LiftY finds a point with the given Y (X has sign +1 or 0).
func LiftY(y *big.Int) (p Pt, ok bool) {
	yy := Mul(y, y)
	d := Sub(A, Mul(D, yy))
	if d.Sign() == 0 {
		return
	}
	x := new(big.Int).ModSqrt(Mul(Sub(One, yy), Inv(d)), P)
	if x == nil {
		return
	}
	if Sign(x) < 0 {
		x = Neg(x)
	}
	return Pt{x, new(big.Int).Mod(y, P)}, true
}

// InfY is the y with y^2 = a/d, where the formula for x has no finite result.
var InfY = new(big.Int).ModSqrt(Mul(A, Inv(D)), P)
