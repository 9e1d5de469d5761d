//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"strings"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	ex "github.com/GottfriedHerold/Bandersnatch/bandersnatch/exponents"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/ref"
)

// The operations on numbers.

func modP(v *big.Int) *big.Int   { return new(big.Int).Mod(v, ref.P) }
func mod256(v *big.Int) *big.Int { return new(big.Int).Mod(v, two256) }
func u64(v uint64) *big.Int      { return new(big.Int).SetUint64(v) }

// small draws a 64-bit number, often a special one.
func (t *at) small() uint64 {
	switch t.r.N(6) {
	case 0:
		return uint64(t.r.N(3))
	case 1:
		return -uint64(t.r.N(3))
	case 2:
		return 1<<63 + uint64(t.r.N(3)) - 1
	}
	return t.r.U64() >> uint(t.r.N(64))
}

type fptr = *fe.FieldElement

func init() {
	// z = x op y
	bin := func(name string, op func(z, x, y fptr), model func(x, y *big.Int) *big.Int) {
		defOp('f', name, func(t *at) {
			x, xv := t.srcF()
			y, yv := t.srcF()
			z := t.r.N(nF)
			if t.r.P(1, 4) {
				y, yv = x, xv
			}
			v := model(xv, yv)
			op(&t.f[z], x, y)
			t.fv[z] = v
		})
	}
	bin("Add", fptr.Add, ref.Add)
	bin("Sub", fptr.Sub, ref.Sub)
	bin("Mul", fptr.Mul, ref.Mul)
	un := func(name string, op func(z, x fptr), model func(x *big.Int) *big.Int) {
		defOp('f', name, func(t *at) {
			x, xv := t.srcF()
			z := t.r.N(nF)
			v := model(xv)
			op(&t.f[z], x)
			t.fv[z] = v
		})
	}
	dbl := func(x *big.Int) *big.Int { return ref.Add(x, x) }
	five := func(x *big.Int) *big.Int { return ref.Mul(x, big.NewInt(5)) }
	sqr := func(x *big.Int) *big.Int { return ref.Mul(x, x) }
	un("Neg", fptr.Neg, ref.Neg)
	un("Double", fptr.Double, dbl)
	un("Square", fptr.Square, sqr)
	un("MulFive", fptr.MulFive, five)
	binEq := func(name string, op func(z, x fptr), model func(z, x *big.Int) *big.Int) {
		defOp('f', name, func(t *at) {
			x, xv := t.srcF()
			z := t.r.N(nF)
			v := model(t.fv[z], xv)
			op(&t.f[z], x)
			t.fv[z] = v
		})
	}
	binEq("AddEq", fptr.AddEq, ref.Add)
	binEq("SubEq", fptr.SubEq, ref.Sub)
	binEq("MulEq", fptr.MulEq, ref.Mul)
	unEq := func(name string, op func(z fptr), model func(z *big.Int) *big.Int) {
		defOp('f', name, func(t *at) {
			z := t.r.N(nF)
			v := model(t.fv[z])
			op(&t.f[z])
			t.fv[z] = v
		})
	}
	unEq("NegEq", fptr.NegEq, ref.Neg)
	unEq("DoubleEq", fptr.DoubleEq, dbl)
	unEq("SquareEq", fptr.SquareEq, sqr)
	unEq("MulEqFive", fptr.MulEqFive, five)
	unEq("Normalize", fptr.Normalize, func(z *big.Int) *big.Int { return z })
	unEq("SetZero", fptr.SetZero, func(z *big.Int) *big.Int { return new(big.Int) })
	unEq("SetOne", fptr.SetOne, func(z *big.Int) *big.Int { return ref.One })
	defOp('f', "RerandomizeRepresentation", func(t *at) { t.f[t.r.N(nF)].RerandomizeRepresentation(t.r.U64()) })

	// Divisions panic for 0.
	inv := func(name string, op func(z, x fptr)) {
		defOp('f', name, func(t *at) {
			x, xv := t.srcF()
			z := t.r.N(nF)
			if name == "InvEq" {
				x, xv = &t.f[z], t.fv[z]
			}
			if xv.Sign() == 0 {
				t.mustPanic(fe.ErrDivisionByZero, func() { op(&t.f[z], x) })
				return
			}
			v := ref.Inv(xv)
			op(&t.f[z], x)
			t.fv[z] = v
		})
	}
	inv("Inv", fptr.Inv)
	inv("InvEq", func(z, x fptr) { z.InvEq() })
	defOp('f', "Divide", func(t *at) {
		x, xv := t.srcF()
		y, yv := t.srcF()
		z := t.r.N(nF)
		eq := t.r.P(1, 3)
		if eq {
			x, xv = &t.f[z], t.fv[z]
		}
		f := func() {
			if eq {
				t.f[z].DivideEq(y)
			} else {
				t.f[z].Divide(x, y)
			}
		}
		if yv.Sign() == 0 {
			t.mustPanic(fe.ErrDivisionByZero, f)
			return
		}
		v := ref.Mul(xv, ref.Inv(yv))
		f()
		t.fv[z] = v
	})
	word := func(name string, signed func(z, x fptr, y int64), unsigned func(z, x fptr, y uint64), model func(x, y *big.Int) *big.Int) {
		f := func(t *at, isSigned bool) {
			x, xv := t.srcF()
			z := t.r.N(nF)
			y := t.small()
			yv := u64(y)
			if isSigned {
				yv = big.NewInt(int64(y))
			}
			do := func() {
				if isSigned {
					signed(&t.f[z], x, int64(y))
				} else {
					unsigned(&t.f[z], x, y)
				}
			}
			if name == "Divide" && y == 0 {
				t.mustPanic(fe.ErrDivisionByZero, do)
				return
			}
			v := model(xv, modP(yv))
			do()
			t.fv[z] = v
		}
		defOp('f', name+"Int64", func(t *at) { f(t, true) })
		defOp('f', name+"Uint64", func(t *at) { f(t, false) })
	}
	word("Add", fptr.AddInt64, fptr.AddUint64, ref.Add)
	word("Sub", fptr.SubInt64, fptr.SubUint64, ref.Sub)
	word("Mul", fptr.MulInt64, fptr.MulUint64, ref.Mul)
	word("Divide", fptr.DivideInt64, fptr.DivideUint64, func(x, y *big.Int) *big.Int { return ref.Mul(x, ref.Inv(y)) })
	defOp('f', "SetInt", func(t *at) {
		z := t.r.N(nF)
		w := t.small()
		switch t.r.N(4) {
		case 0:
			t.f[z].SetInt64(int64(w))
			t.fv[z] = modP(big.NewInt(int64(w)))
		case 1:
			t.f[z].SetUint64(w)
			t.fv[z] = u64(w)
		case 2:
			i := t.r.N(nU)
			src, v := &t.u[i], t.uv[i]
			if t.r.P(1, 3) {
				src, v = &t.s.u, t.s.uv
			}
			t.f[z].SetUint256(src)
			t.fv[z] = modP(v)
		case 3:
			v := new(big.Int).SetBytes(t.r.Bytes(t.r.N(60)))
			if t.r.P(1, 3) {
				v = smallOrBig(t.r)
				v.Add(v, new(big.Int).Mul(ref.P, big.NewInt(int64(t.r.N(4)))))
			}
			if t.r.P(1, 2) {
				v.Neg(v)
			}
			w := new(big.Int).Set(v)
			t.f[z].SetBigInt(v)
			t.fv[z] = modP(v)
			t.check(w.Cmp(v) == 0, "operand changed", "SetBigInt changed its argument")
		}
	})
	defOp('f', "ToInt", func(t *at) {
		x, xv := t.srcF()
		if t.r.P(1, 2) { // make it fit
			i := t.r.N(nF)
			t.fv[i] = modP(big.NewInt(int64(t.small())))
			t.f[i].SetBigInt(t.fv[i])
			t.f[i].RerandomizeRepresentation(t.r.U64())
			x, xv = &t.f[i], t.fv[i]
		}
		u, err := x.ToUint64()
		if xv.BitLen() <= 64 {
			t.check(err == nil && u == xv.Uint64(), "wrong result", "ToUint64 of %x: %v %v", xv, u, err)
		} else {
			t.check(err != nil && errors.Is(err, fe.ErrCannotRepresentFieldElement) && holdsFE(err, xv), "wrong error", "ToUint64 of %x: %v", xv, err)
		}
		i, err := x.ToInt64()
		neg := new(big.Int).Sub(xv, ref.P)
		switch {
		case xv.IsInt64():
			t.check(err == nil && i == xv.Int64(), "wrong result", "ToInt64 of %x: %v %v", xv, i, err)
		case neg.IsInt64():
			t.check(err == nil && i == neg.Int64(), "wrong result", "ToInt64 of %x: %v %v", xv, i, err)
		default:
			t.check(err != nil && errors.Is(err, fe.ErrCannotRepresentFieldElement) && holdsFE(err, xv), "wrong error", "ToInt64 of %x: %v", xv, err)
		}
		var w fe.Uint256
		x.ToUint256(&w)
		t.check(bigU(&w).Cmp(xv) == 0, "wrong result", "ToUint256 of %x: %x", xv, bigU(&w))
	})
	defOp('f', "Query", func(t *at) {
		x, xv := t.srcF()
		y, yv := t.srcF()
		if t.r.P(1, 3) { // related
			i := t.r.N(nF)
			t.fv[i] = xv
			if t.r.P(1, 2) {
				t.fv[i] = ref.Neg(xv)
			}
			t.f[i] = feOf(t.fv[i])
			t.f[i].RerandomizeRepresentation(t.r.U64())
			if x != &t.f[i] {
				y, yv = &t.f[i], t.fv[i]
			} else {
				xv = t.fv[i]
				if y == x {
					yv = xv
				}
			}
		}
		t.check(x.IsZero() == (xv.Sign() == 0), "wrong result", "IsZero of %x", xv)
		t.check(x.IsOne() == (xv.Cmp(ref.One) == 0), "wrong result", "IsOne of %x", xv)
		t.check(x.Sign() == ref.Sign(xv), "wrong result", "Sign of %x: %v", xv, x.Sign())
		eq, neg := xv.Cmp(yv) == 0, xv.Cmp(ref.Neg(yv)) == 0
		t.check(x.IsEqual(y) == eq, "wrong result", "IsEqual of %x and %x", xv, yv)
		a, e := x.CmpAbs(y)
		t.check(a == (eq || neg) && e == eq, "wrong result", "CmpAbs of %x and %x: %v %v", xv, yv, a, e)
	})
	defOp('f', "Jacobi", func(t *at) {
		x, xv := t.srcF()
		t.check(x.Jacobi() == ref.Jac(xv), "wrong result", "of %x: %v", xv, x.Jacobi())
	})
	defOp('f', "SquareRoot", func(t *at) {
		x, xv := t.srcF()
		z := t.r.N(nF)
		if t.r.P(1, 2) {
			i := t.r.N(nF)
			t.f[i].Square(x)
			t.fv[i] = ref.Mul(xv, xv)
			x, xv = &t.f[i], t.fv[i]
		}
		ok := t.f[z].SquareRoot(x)
		t.check(ok == (ref.Jac(xv) >= 0), "wrong result", "of %x: %v", xv, ok)
		if ok {
			v := t.f[z].ToBigInt()
			t.check(ref.Mul(v, v).Cmp(xv) == 0, "wrong field element", "%x is not a square root of %x", v, xv)
			t.fv[z] = v
		}
	})
	defOp('f', "Exp", func(t *at) {
		x, xv := t.srcF()
		z, i := t.r.N(nF), t.r.N(nU)
		if t.r.P(1, 3) {
			t.uv[i] = u64(t.small())
			t.u[i].SetBigInt(t.uv[i])
		}
		e, ev := &t.u[i], t.uv[i]
		if t.r.P(1, 4) {
			e, ev = &t.s.u, t.s.uv
		}
		v := new(big.Int).Exp(xv, ev, ref.P)
		t.f[z].Exp(x, e)
		t.fv[z] = v
		t.verify('u')
	})
	defOp('f', "Bytes", func(t *at) {
		x, xv := t.srcF()
		z := t.r.N(nF)
		buf := make([]byte, x.BytesLength()+2)
		buf[len(buf)-1], buf[len(buf)-2] = 0x5A, 0xA5
		x.ToBytes(buf[:len(buf)-2])
		c := bytes.Clone(buf)
		v := new(big.Int).Set(xv)
		t.f[z].SetBytes(buf[:len(buf)-2])
		t.fv[z] = v
		t.check(bytes.Equal(c, buf), "operand changed", "SetBytes changed its argument")
		t.check(buf[len(buf)-1] == 0x5A && buf[len(buf)-2] == 0xA5, "written out of bounds", "ToBytes wrote more than it should")
		for i := range buf {
			buf[i] = 0xFF
		}
	})
	defOp('f', "Print", func(t *at) {
		x, xv := t.srcF()
		t.check(x.String() == xv.String(), "wrong result", "String of %x: %v", xv, x.String())
		for _, v := range []string{"%d", "%x", "%v", "%s", "%#x", "%40d"} {
			if v == "%s" {
				continue // big.Int has its own idea
			}
			w := fmt.Sprintf(v, xv)
			g := fmt.Sprintf(v, *x)
			t.check(w == g, "wrong result", "%s of %x: %v", v, xv, g)
		}
	})
	defOp('f', "InitFieldElementFromString", func(t *at) {
		z := t.r.N(nF)
		v := smallOrBig(t.r)
		f := t.r.N(4)
		str := fmt.Sprintf([]string{"%d", "0x%x", "0b%b", "0o%o"}[f], v)
		if t.r.P(1, 3) {
			str = "-" + str
			v = ref.Neg(v)
		}
		if t.r.P(1, 6) {
			t.mustPanic(nil, func() {
				fe.InitFieldElementFromString[fe.FieldElement](strings.Replace(str, str[len(str)-1:], "q", -1))
			})
			return
		}
		t.f[z] = fe.InitFieldElementFromString[fe.FieldElement](str)
		t.fv[z] = v
	})
	defOp('f', "ManyOf", func(t *at) {
		n := t.r.Lots(0, 1, 2, 3, 5)
		z := t.r.N(nF)
		sum, prod := new(big.Int), big.NewInt(1)
		var ptrs []fptr
		var vals []fe.FieldElement
		for i := 0; i < n; i++ {
			x, xv := t.srcF()
			ptrs = append(ptrs, x)
			vals = append(vals, *x)
			sum, prod = ref.Add(sum, xv), ref.Mul(prod, xv)
		}
		old := append([]fe.FieldElement(nil), vals...)
		switch t.r.N(5) {
		case 0:
			t.f[z].MultiplyMany(ptrs...)
			t.fv[z] = prod
		case 1:
			t.f[z].SummationMany(ptrs...)
			t.fv[z] = sum
		case 2:
			t.f[z].MultiplySlice(vals)
			t.fv[z] = prod
		case 3:
			t.f[z].SummationSlice(vals)
			t.fv[z] = sum
		case 4: // the result is one of the factors
			a, b := new(big.Int).Set(t.fv[0]), 0
			for i := 1; i < nF; i++ {
				if t.r.P(1, 2) {
					a = ref.Mul(a, t.fv[i])
				} else {
					a = ref.Add(a, t.fv[i])
					b |= 1 << i
				}
			}
			for i := 1; i < nF; i++ {
				if b>>i&1 == 0 {
					t.f[0].MultiplySlice([]fe.FieldElement{t.f[0], t.f[i]})
				} else {
					t.f[0].SummationMany(&t.f[0], &t.f[i])
				}
			}
			t.fv[0] = a
		}
		for i := range vals {
			t.check(vals[i].IsEqual(&old[i]), "operand changed", "an element of the slice has changed")
		}
	})
	defOp('f', "SliceAlias", func(t *at) {
		z := t.r.N(nF)
		v := new(big.Int).Set(t.fv[0])
		mul := t.r.P(1, 2)
		for i := 1; i < nF; i++ {
			if mul {
				v = ref.Mul(v, t.fv[i])
			} else {
				v = ref.Add(v, t.fv[i])
			}
		}
		if mul {
			t.f[z].MultiplySlice(t.f[:])
		} else {
			t.f[z].SummationSlice(t.f[:])
		}
		t.fv[z] = v
	})
	defOp('f', "MultiInvertMany", func(t *at) {
		n := t.r.Lots(0, 1, 2, 3, 5, 6)
		vals := make([]fe.FieldElement, n)
		want := make([]*big.Int, n)
		var ptrs []fptr
		var zeros []int
		few := t.r.P(1, 2)
		many := t.r.P(1, 6)
		for i := range vals {
			x, xv := t.srcF()
			if many && t.r.P(1, 2) {
				x, xv = &fe.FieldElementZero, new(big.Int)
				few = false
			}
			if xv.Sign() == 0 && few && !t.r.P(1, 4) {
				xv = new(big.Int).SetUint64(t.r.U64()>>uint(t.r.N(64)) | 1)
				vals[i].SetBigInt(xv)
			} else {
				vals[i] = *x
			}
			if t.r.P(1, 3) {
				vals[i].RerandomizeRepresentation(t.r.U64())
			}
			want[i] = xv
			if xv.Sign() == 0 {
				zeros = append(zeros, i)
			}
			ptrs = append(ptrs, &vals[i])
		}
		var got []int
		var err fe.MultiInversionError
		kind := t.r.N(4)
		switch kind {
		case 0:
			err = fe.MultiInvertEq(ptrs...)
		case 1:
			err = fe.MultiInvertEqSlice(vals)
		case 2:
			got = fe.MultiInvertEqSkipZeros(ptrs...)
		case 3:
			got = fe.MultiInvertEqSliceSkipZeros(vals)
		}
		if kind < 2 {
			t.check((err != nil) == (len(zeros) > 0), "wrong error", "%v for zeros %v", err, zeros)
			if err != nil {
				d := err.GetData_struct()
				got = d.ZeroIndices
				t.check(errors.Is(err, fe.ErrDivisionByZero) && d.NumberOfZeroIndices == len(zeros) && err.Error() != "", "wrong error", "%v %v", err, d)
			}
		}
		t.check(fmt.Sprint(got) == fmt.Sprint(zeros), "wrong result", "zeros %v, should be %v", got, zeros)
		for i := range vals {
			v := want[i]
			if v.Sign() != 0 && (kind >= 2 || len(zeros) == 0) {
				v = ref.Inv(v)
			}
			t.check(val(vals[i]).Cmp(v) == 0, "wrong result", "element %d of %d is %v, should be %v", i, n, val(vals[i]), v)
		}
	})
	defOp('f', "MultiInvert", func(t *at) {
		for i := range t.f { // a zero, or a one
			if t.r.P(1, 8) {
				t.fv[i] = big.NewInt(int64(t.r.N(2)))
				t.f[i].SetBigInt(t.fv[i])
				t.f[i].RerandomizeRepresentation(t.r.U64())
			}
		}
		n := t.r.N(nF + 1)
		perm := []int{0, 1, 2, 3}
		kind := t.r.N(4)
		if kind%2 == 0 {
			for i := range perm {
				j := t.r.In(i, nF-1)
				perm[i], perm[j] = perm[j], perm[i]
			}
		}
		var ptrs []fptr
		var zeros []int
		for i := 0; i < n; i++ {
			ptrs = append(ptrs, &t.f[perm[i]])
			if t.fv[perm[i]].Sign() == 0 {
				zeros = append(zeros, i)
			}
		}
		var got []int
		skip := kind >= 2
		switch kind {
		case 0, 1:
			var err fe.MultiInversionError
			if kind == 0 {
				err = fe.MultiInvertEq(ptrs...)
			} else {
				err = fe.MultiInvertEqSlice(t.f[:n])
			}
			if err != nil {
				d := err.GetData_struct()
				got = d.ZeroIndices
				t.check(errors.Is(err, fe.ErrDivisionByZero) && d.NumberOfZeroIndices == len(got) && err.Error() != "", "wrong error", "%v %v", err, d)
				data, ok := errorsWithData.GetData_map(err)["ZeroIndices"].([]int)
				t.check(ok && fmt.Sprint(data) == fmt.Sprint(zeros), "wrong error", "%v", data)
			}
			t.check((err != nil) == (len(zeros) > 0), "wrong error", "%v for zeros %v", err, zeros)
		case 2:
			got = fe.MultiInvertEqSkipZeros(ptrs...)
		case 3:
			got = fe.MultiInvertEqSliceSkipZeros(t.f[:n])
		}
		t.check(fmt.Sprint(got) == fmt.Sprint(zeros) && (len(zeros) > 0 || got == nil), "wrong result", "zeros %v, should be %v", got, zeros)
		if skip || len(zeros) == 0 {
			for i := 0; i < n; i++ {
				if v := t.fv[perm[i]]; v.Sign() != 0 {
					t.fv[perm[i]] = ref.Inv(v)
				}
			}
		}
		for i := range got {
			got[i] = 77
		}
	})
	initUintOps()
	initExpOps()
	initPointOps()
}

// holdsFE checks that an error contains the field element.
func holdsFE(err error, v *big.Int) bool {
	d, ok := errorsWithData.GetParameter(err, "FieldElement")
	z, ok2 := d.(fe.FieldElement)
	return ok && ok2 && z.ToBigInt().Cmp(v) == 0
}

// srcU picks a number to read.
func (t *at) srcU() (*fe.Uint256, *big.Int) {
	if t.r.P(1, 5) {
		return &t.s.u, t.s.uv
	}
	i := t.r.N(nU)
	return &t.u[i], t.uv[i]
}

// class makes a register fulfil the precondition below a bound.
func (t *at) class(bound *big.Int) int {
	i := t.r.N(nU)
	if t.uv[i].Cmp(bound) >= 0 {
		v := new(big.Int).Mod(t.uv[i], bound)
		if t.r.P(1, 2) {
			v.Sub(bound, big.NewInt(int64(t.r.In(1, 3))))
		}
		t.uv[i] = v
		t.u[i].SetBigInt(v)
	}
	return i
}

// settle takes over the actual value of a register if it is congruent to v and below the bound.
func (t *at) settle(z int, v, bound *big.Int) {
	got := bigU(&t.u[z])
	t.check(modP(got).Cmp(modP(v)) == 0, "wrong number", "register %d is %x, should be congruent to %x", z, got, v)
	t.check(got.Cmp(bound) < 0, "not reduced", "register %d is %x, should be below %x", z, got, bound)
	t.uv[z] = got
}

type uptr = *fe.Uint256

func initUintOps() {
	bin := func(name string, op func(z, x, y uptr), model func(x, y *big.Int) *big.Int) {
		defOp('u', name, func(t *at) {
			x, xv := t.srcU()
			y, yv := t.srcU()
			if t.r.P(1, 4) {
				y, yv = x, xv
			}
			z := t.r.N(nU)
			v := model(xv, yv)
			op(&t.u[z], x, y)
			t.uv[z] = v
		})
	}
	add := func(x, y *big.Int) *big.Int { return new(big.Int).Add(x, y) }
	sub := func(x, y *big.Int) *big.Int { return new(big.Int).Sub(x, y) }
	mul := func(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }
	m := func(f func(x, y *big.Int) *big.Int) func(x, y *big.Int) *big.Int {
		return func(x, y *big.Int) *big.Int { return mod256(f(x, y)) }
	}
	bin("Uint256.Add", uptr.Add, m(add))
	bin("Uint256.Sub", uptr.Sub, m(sub))
	bin("Uint256.Mul", uptr.Mul, m(mul))
	bin("Uint256.Increment", func(z, x, y uptr) { z.Increment(x) }, func(x, y *big.Int) *big.Int { return mod256(add(x, ref.One)) })
	bin("Uint256.Decrement", func(z, x, y uptr) { z.Decrement(x) }, func(x, y *big.Int) *big.Int { return mod256(sub(x, ref.One)) })
	bin("Uint256.SetUint256", func(z, x, y uptr) { z.SetUint256(x) }, func(x, y *big.Int) *big.Int { return x })
	bin("Uint256.ToUint256", func(z, x, y uptr) { x.ToUint256(z) }, func(x, y *big.Int) *big.Int { return x })
	defOp('u', "Uint256.carry", func(t *at) {
		x, xv := t.srcU()
		y, yv := t.srcU()
		z := t.r.N(nU)
		if t.r.P(1, 2) {
			v := add(xv, yv)
			c := t.u[z].AddAndReturnCarry(x, y)
			t.check(c == new(big.Int).Rsh(v, 256).Uint64(), "wrong result", "carry %v", c)
			t.uv[z] = mod256(v)
		} else {
			v := sub(xv, yv)
			c := t.u[z].SubAndReturnBorrow(x, y)
			t.check(c == uint64(b2i(v.Sign() < 0)), "wrong result", "borrow %v", c)
			t.uv[z] = mod256(v)
		}
	})
	defOp('u', "Uint256.inPlace", func(t *at) {
		z := t.r.N(nU)
		v := t.uv[z]
		switch t.r.N(5) {
		case 0:
			t.u[z].IncrementEq()
			t.uv[z] = mod256(add(v, ref.One))
		case 1:
			t.u[z].DecrementEq()
			t.uv[z] = mod256(sub(v, ref.One))
		case 2:
			n := uint(t.r.Pick(0, 1, 63, 64, t.r.N(64), t.r.N(64)))
			t.u[z].ShiftRightEq(n)
			t.uv[z] = new(big.Int).Rsh(v, n)
		case 3:
			w := t.u[z].ShiftRightEq_64()
			t.uv[z] = new(big.Int).Rsh(v, 64)
			t.check(u64(w).Cmp(new(big.Int).And(v, u64(^uint64(0)))) == 0, "wrong result", "shifted out %x", w)
		case 4:
			w := t.u[z].ShiftLeftEq_64()
			t.uv[z] = mod256(new(big.Int).Lsh(v, 64))
			t.check(u64(w).Cmp(new(big.Int).Rsh(v, 192)) == 0, "wrong result", "shifted out %x", w)
		}
	})
	defOp('u', "Uint256.set", func(t *at) {
		z := t.r.N(nU)
		switch t.r.N(4) {
		case 0:
			t.u[z].SetZero()
			t.uv[z] = new(big.Int)
		case 1:
			t.u[z].SetOne()
			t.uv[z] = ref.One
		case 2:
			w := t.small()
			t.u[z].SetUint64(w)
			t.uv[z] = u64(w)
		case 3:
			v := wide(t.r)
			t.uv[z] = new(big.Int).Set(v)
			if t.r.P(1, 2) {
				t.u[z] = fe.InitUint256FromString("0x" + v.Text(16))
			} else {
				t.u[z] = fe.BigIntToUInt256(v)
			}
			t.check(t.uv[z].Cmp(v) == 0, "operand changed", "the argument has changed")
		}
	})
	defOp('u', "Uint256.query", func(t *at) {
		x, xv := t.srcU()
		y, yv := t.srcU()
		t.check(x.IsZero() == (xv.Sign() == 0) && x.IsOne() == (xv.Cmp(ref.One) == 0), "wrong result", "IsZero or IsOne of %x", xv)
		t.check(x.Cmp(y) == xv.Cmp(yv), "wrong result", "Cmp of %x and %x: %v", xv, yv, x.Cmp(y))
		t.check(x.IsLessThan(y) == (xv.Cmp(yv) < 0), "wrong result", "IsLessThan of %x and %x", xv, yv)
		t.check(x.BitLen() == xv.BitLen(), "wrong result", "BitLen of %x", xv)
		t.check(x.ToBigInt().Cmp(xv) == 0, "wrong result", "ToBigInt of %x", xv)
		t.check(x.IsReduced_a() && x.IsReduced_b() == (xv.Cmp(twoP) < 0) && x.IsReduced_c() == (xv.Cmp(maxC) < 0) && x.IsReduced_f() == (xv.Cmp(ref.P) < 0), "wrong result", "IsReduced of %x", xv)
		t.check(fe.IsEqualAsUint256(x, y) == (xv.Cmp(yv) == 0), "wrong result", "IsEqualAsUint256 of %x and %x", xv, yv)
		t.check(x.String() == xv.String() && fmt.Sprintf("%x", *x) == fmt.Sprintf("%x", xv), "wrong result", "text of %x", xv)
	})
	defOp('u', "Uint512", func(t *at) {
		x, xv := t.srcU()
		y, yv := t.srcU()
		z := t.r.N(nU)
		var w fe.Uint512
		w.SetUint64(t.small())
		var v *big.Int
		switch t.r.N(5) {
		case 0:
			w.LongMul(x, y)
			v = mul(xv, yv)
		case 1:
			w.LongSquare(x)
			v = mul(xv, xv)
		case 2:
			v = new(big.Int).Rsh(new(big.Int).SetBytes(t.r.Bytes(64)), uint(t.r.N(512)))
			if t.r.P(1, 3) {
				v = sub(two512, big.NewInt(int64(t.r.In(1, 3))))
			}
			if t.r.P(1, 2) {
				w.SetBigInt(v)
			} else {
				w = fe.BigIntToUint512(v)
			}
		case 3:
			w.SetUint256(x)
			v = xv
		case 4:
			s := t.small()
			w.SetUint64(s)
			v = u64(s)
		}
		t.check(bigU512(&w).Cmp(v) == 0 && w.ToBigInt().Cmp(v) == 0 && w.String() == v.String(), "wrong number", "Uint512 is %x, should be %x", bigU512(&w), v)
		if t.r.P(1, 2) {
			t.u[z].ReduceUint512ToUint256_a(w)
			t.settle(z, v, two256)
		} else if v.BitLen() <= 256 {
			w.ToUint256(&t.u[z])
			t.uv[z] = v
		} else {
			t.mustPanic(nil, func() { var u fe.Uint256; w.ToUint256(&u) })
		}
		t.check(bigU512(&w).Cmp(v) == 0, "operand changed", "the Uint512 has changed")
	})
	defOp('u', "LongMulUint64", func(t *at) {
		x, xv := t.srcU()
		y := t.small()
		var w [5]uint64
		fe.LongMulUint64(&w, x, y)
		v := new(big.Int)
		for i := 4; i >= 0; i-- {
			v.Lsh(v, 64)
			v.Or(v, u64(w[i]))
		}
		t.check(v.Cmp(mul(xv, u64(y))) == 0, "wrong number", "%x times %x is %x", xv, y, v)
	})
	// Operations modulo P: the precondition and the class of the result are in the name.
	red := func(name string, in, out *big.Int, op func(z, x, y uptr), model func(x, y *big.Int) *big.Int) {
		defOp('u', name, func(t *at) {
			i := t.class(in)
			j := i
			if t.r.P(3, 4) {
				j = t.class(in)
			}
			z := t.r.N(nU)
			v := model(t.uv[i], t.uv[j])
			op(&t.u[z], &t.u[i], &t.u[j])
			t.settle(z, v, out)
		})
	}
	redEq := func(name string, in, out *big.Int, op func(z, x uptr), model func(z, x *big.Int) *big.Int) {
		defOp('u', name, func(t *at) {
			z := t.class(in)
			j := z
			if t.r.P(3, 4) {
				j = t.class(in)
			}
			v := model(t.uv[z], t.uv[j])
			op(&t.u[z], &t.u[j])
			t.settle(z, v, out)
		})
	}
	red("AddAndReduce_b", twoP, twoP, uptr.AddAndReduce_b, add)
	red("AddAndReduce_c", maxC, maxC, uptr.AddAndReduce_c, add)
	red("SubAndReduce_b", twoP, twoP, uptr.SubAndReduce_b, sub)
	red("SubAndReduce_c", maxC, maxC, uptr.SubAndReduce_c, sub)
	red("MulAndReduce_a", two256, two256, uptr.MulAndReduce_a, mul)
	red("SquareAndReduce_a", two256, two256, func(z, x, y uptr) { z.SquareAndReduce_a(x) }, func(x, y *big.Int) *big.Int { return mul(x, x) })
	red("MulMontgomery_c", maxC, maxC, uptr.MulMontgomery_c, func(x, y *big.Int) *big.Int { return mul(mul(x, y), unMont) })
	red("SquareMontgomery_c", maxC, maxC, func(z, x, y uptr) { z.SquareMontgomery_c(x) }, func(x, y *big.Int) *big.Int { return mul(mul(x, x), unMont) })
	red("ConvertToMontgomeryRepresentation_c", maxC, maxC, func(z, x, y uptr) { z.ConvertToMontgomeryRepresentation_c(x) }, func(x, y *big.Int) *big.Int { return mul(x, mont) })
	red("FromMontgomeryRepresentation_fc", maxC, ref.P, func(z, x, y uptr) { z.FromMontgomeryRepresentation_fc(x) }, func(x, y *big.Int) *big.Int { return mul(x, unMont) })
	red("ToNonMontgomery_fc", maxC, ref.P, func(z, x, y uptr) { *z = x.ToNonMontgomery_fc() }, func(x, y *big.Int) *big.Int { return mul(x, unMont) })
	red("ComputeModularNegative_Weak_a", two256, two256, func(z, x, y uptr) { *z = x.ComputeModularNegative_Weak_a() }, func(x, y *big.Int) *big.Int { return new(big.Int).Neg(x) })
	redEq("AddEqAndReduce_a", two256, two256, uptr.AddEqAndReduce_a, add)
	redEq("SubEqAndReduce_a", two256, two256, uptr.SubEqAndReduce_a, sub)
	redEq("MulEqAndReduce_a", two256, two256, uptr.MulEqAndReduce_a, mul)
	redEq("SquareEqAndReduce_a", two256, two256, func(z, x uptr) { z.SquareEqAndReduce_a() }, func(z, x *big.Int) *big.Int { return mul(z, z) })
	redEq("DoubleEqAndReduce_a", two256, two256, func(z, x uptr) { z.DoubleEqAndReduce_a() }, func(z, x *big.Int) *big.Int { return add(z, z) })
	same := func(z, x *big.Int) *big.Int { return z }
	redEq("Reduce_fa", two256, ref.P, func(z, x uptr) { z.Reduce_fa() }, same)
	redEq("Reduce", two256, ref.P, func(z, x uptr) { z.Reduce() }, same)
	redEq("Reduce_ca", two256, maxC, func(z, x uptr) { z.Reduce_ca() }, same)
	redEq("Reduce_fb", twoP, ref.P, func(z, x uptr) { z.Reduce_fb() }, same)
	defOp('u', "ModularExponentiation", func(t *at) {
		e, ev := t.srcU()
		z := t.r.N(nU)
		if t.r.P(1, 2) {
			x, xv := t.srcU()
			v := new(big.Int).Exp(modP(xv), ev, ref.P)
			t.u[z].ModularExponentiation_fa(x, e)
			t.settle(z, v, ref.P)
			return
		}
		x, xv := t.srcU()
		v := mul(new(big.Int).Exp(ref.Mul(modP(xv), unMont), ev, ref.P), mont)
		t.u[z].ModularExponentiationMontgomery_fa(x, e)
		t.settle(z, v, ref.P)
	})
	defOp('u', "ModularInverse_a_NAIVEHAC", func(t *at) {
		x, xv := t.srcU()
		z := t.r.N(nU)
		v := modP(xv)
		ok := t.u[z].ModularInverse_a_NAIVEHAC(x)
		t.check(ok == (v.Sign() != 0), "wrong result", "of %x: %v", xv, ok)
		if ok {
			t.settle(z, ref.Inv(v), two256)
		} else {
			t.uv[z] = bigU(&t.u[z])
		}
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

type eptr = *ex.Exponent

func (t *at) srcE() (eptr, *big.Int) {
	if t.r.P(1, 5) {
		return &t.s.e, t.s.ev
	}
	i := t.r.N(nE)
	return &t.e[i], t.ev[i]
}

func initExpOps() {
	m := func(v *big.Int) *big.Int { return v.Mod(v, twoR) }
	bin := func(name string, op func(z, x, y eptr), model func(x, y *big.Int) *big.Int) {
		defOp('e', name, func(t *at) {
			x, xv := t.srcE()
			y, yv := t.srcE()
			if t.r.P(1, 4) {
				y, yv = x, xv
			}
			z := t.r.N(nE)
			v := model(xv, yv)
			op(&t.e[z], x, y)
			t.ev[z] = v
		})
	}
	bin("Exponent.Add", eptr.Add, func(x, y *big.Int) *big.Int { return m(new(big.Int).Add(x, y)) })
	bin("Exponent.Sub", eptr.Sub, func(x, y *big.Int) *big.Int { return m(new(big.Int).Sub(x, y)) })
	bin("Exponent.Mul", eptr.Mul, func(x, y *big.Int) *big.Int { return m(new(big.Int).Mul(x, y)) })
	bin("Exponent.Neg", func(z, x, y eptr) { z.Neg(x) }, func(x, y *big.Int) *big.Int { return m(new(big.Int).Neg(x)) })
	bin("Exponent.ModuloP253", func(z, x, y eptr) { *z = x.ModuloP253() }, func(x, y *big.Int) *big.Int { return new(big.Int).Mod(x, ref.R) })
	defOp('e', "Exponent.set", func(t *at) {
		z := t.r.N(nE)
		switch t.r.N(6) {
		case 0:
			t.e[z].SetZero()
			t.ev[z] = new(big.Int)
		case 1:
			t.e[z].SetOne()
			t.ev[z] = ref.One
		case 2:
			w := t.small()
			t.e[z].SetUInt(w)
			t.ev[z] = u64(w)
		case 3:
			w := int64(t.small())
			t.e[z].SetInt(w)
			t.ev[z] = m(big.NewInt(w))
		default:
			v := new(big.Int).SetBytes(t.r.Bytes(t.r.N(50)))
			if t.r.P(1, 2) {
				v = new(big.Int).Mul(ref.R, big.NewInt(int64(t.r.N(5))))
				v.Add(v, big.NewInt(int64(t.r.In(-2, 2))))
			}
			if t.r.P(1, 3) {
				v.Neg(v)
			}
			w := new(big.Int).Set(v)
			t.e[z].SetBigInt(v)
			t.check(v.Cmp(w) == 0, "operand changed", "SetBigInt changed its argument")
			t.ev[z] = m(w)
		}
	})
	defOp('e', "Exponent.query", func(t *at) {
		x, xv := t.srcE()
		s := new(big.Int).Mod(xv, ref.R)
		t.check(x.IsZero_Full() == (xv.Sign() == 0) && x.IsOne_Full() == (xv.Cmp(ref.One) == 0), "wrong result", "IsZero_Full or IsOne_Full of %x", xv)
		t.check(x.IsZero_Subgroup() == (s.Sign() == 0) && x.IsOne_Subgroup() == (s.Cmp(ref.One) == 0), "wrong result", "IsZero_Subgroup or IsOne_Subgroup of %x", xv)
		t.check(x.ToBigInt_Full().Cmp(xv) == 0, "wrong result", "ToBigInt_Full of %x", xv)
		t.check(x.ToBigInt_Subgroup().Cmp(s) == 0, "wrong result", "ToBigInt_Subgroup of %x: %x", xv, x.ToBigInt_Subgroup())
		t.check(x.String() == xv.String() && fmt.Sprintf("%x", *x) == fmt.Sprintf("%x", xv), "wrong result", "text of %x", xv)
	})
	defOp('e', "GLV_representation", func(t *at) {
		x, xv := t.srcE()
		g := ex.GLV_representation(x)
		u, v := g.U.ToBigInt(), g.V.ToBigInt()
		s := new(big.Int).Mul(v, lambda)
		s.Add(s, u).Sub(s, xv).Mod(s, ref.R)
		t.check(s.Sign() == 0, "wrong result", "of %x: %x and %x do not represent it", xv, u, v)
		t.check(u.CmpAbs(glvMax) <= 0 && v.CmpAbs(glvMax) <= 0, "wrong result", "of %x: %x or %x is too big", xv, u, v)
		t.check(g.U.Sign() == u.Sign() && g.V.Sign() == v.Sign(), "wrong result", "signs of %x and %x", u, v)
	})
}
