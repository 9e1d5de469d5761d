//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"math/big"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	ex "github.com/GottfriedHerold/Bandersnatch/bandersnatch/exponents"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/core"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/ref"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/rt"
)

// Scenario arith: threads compute with their own numbers and points and with shared constants; a big.Int model predicts everything.

// The group including the two points at infinity.
var (
	infS    *big.Int // T/X of the first point at infinity
	endoB   = hexInt("52c9f28b828426a561f00d3a63511a882ea712770d9af4d6ee0f014d172510b4")
	endoC   = hexInt("6cc624cf865457c3a97c6efd6c17d1078456abcfff36f4e9515c806cdf650b3d")
	lambda  = hexInt("13b4f3dc4a39a493edf849562b38c72bcfc49db970a5056ed13d21408783df05")
	glvMax  = decInt("62111775536698671376125354107412126641")
	twoR    = new(big.Int).Lsh(ref.R, 1)
	montInv = ref.Inv(new(big.Int).Mod(new(big.Int).Lsh(ref.One, 256), ref.P)) // of the factor in the Montgomery representation
	two256  = new(big.Int).Lsh(ref.One, 256)
	two512  = new(big.Int).Lsh(ref.One, 512)
	twoP    = new(big.Int).Lsh(ref.P, 1)
	maxC    = new(big.Int).Sub(two256, ref.P)
	mont    = new(big.Int).Mod(two256, ref.P) // Montgomery factor
	unMont  = ref.Inv(mont)
)

func hexInt(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }
func decInt(s string) *big.Int { v, _ := new(big.Int).SetString(s, 10); return v }

func fin(p ref.Pt) snap { return snap{p: p} }
func inf(e int) snap    { return snap{kind: 1, e: e} }

// plusInf adds a point at infinity to a finite point.
func plusInf(p ref.Pt, e int) snap {
	if p.X.Sign() == 0 {
		if p.Eq(ref.Neutral) {
			return inf(e)
		}
		return inf(1 - e)
	}
	s := infS
	if e == 1 {
		s = ref.Neg(s)
	}
	return fin(ref.Pt{X: ref.Inv(ref.Mul(ref.D, ref.Mul(s, p.X))), Y: ref.Mul(s, ref.Inv(p.Y))})
}

func (s snap) plus(t snap) snap {
	switch {
	case s.kind == 1 && t.kind == 1:
		if s.e == t.e {
			return fin(ref.Neutral)
		}
		return fin(ref.TwoTorsion)
	case s.kind == 1:
		return plusInf(t.p, s.e)
	case t.kind == 1:
		return plusInf(s.p, t.e)
	}
	if r, ok := s.p.Add(t.p); ok {
		return fin(r)
	}
	for e := 0; e < 2; e++ {
		if plusInf(s.p.Neg(), e).eq(t) {
			return inf(e)
		}
	}
	for e := 0; e < 2; e++ {
		if plusInf(t.p, e).eq(s) {
			d, ok := t.p.Add(t.p)
			if !ok {
				panic("harness: double at infinity")
			}
			return plusInf(d, e)
		}
	}
	panic("harness: incomplete addition")
}

func (s snap) neg() snap {
	if s.kind == 1 {
		return s
	}
	return fin(s.p.Neg())
}

func (s snap) endo() snap {
	if s.kind == 1 {
		return fin(ref.TwoTorsion)
	}
	x, y := s.p.X, s.p.Y
	if x.Sign() == 0 {
		return fin(ref.Neutral)
	}
	yy := ref.Mul(y, y)
	f, g, h := ref.Mul(endoC, ref.Sub(ref.One, yy)), ref.Mul(endoB, ref.Add(yy, endoB)), ref.Sub(yy, endoB)
	return fin(ref.Pt{X: ref.Mul(f, ref.Inv(ref.Mul(x, y))), Y: ref.Mul(g, ref.Inv(h))})
}

func (s snap) sub() bool { return s.kind == 0 && s.p.InSubgroup() }

func (s snap) String() string {
	switch {
	case s.kind == 3:
		return "malformed, with an X*Y other than T*Z"
	case s.kind == 2:
		return "invalid"
	case s.kind == 1:
		return fmt.Sprint("E", s.e+1)
	}
	return fmt.Sprintf("(%x,%x)", s.p.X, s.p.Y)
}

// Shared read-only values.
const nSharedFe = 4

type sharedPoint struct {
	p    cp.CurvePointPtrInterfaceRead
	v    snap
	name string
	typ  int
}

type arithShared struct {
	fe     [nSharedFe]*fe.FieldElement // made and normalised before the threads start
	fev    [nSharedFe]*big.Int
	u      fe.Uint256
	uv     *big.Int
	e      ex.Exponent
	ev     *big.Int
	consts []*fe.FieldElement
	constv []*big.Int
	pts    []sharedPoint
}

func (s *arithShared) init(seed uint64) {
	r := core.NewRng(seed)
	for i := range s.fe {
		s.fev[i] = smallOrBig(r)
		v := feOf(s.fev[i])
		v.RerandomizeRepresentation(r.U64())
		v.Normalize()
		s.fe[i] = &v
	}
	s.uv = new(big.Int).SetBytes(r.Bytes(32))
	s.u.SetBigInt(s.uv)
	s.ev = new(big.Int).Mod(new(big.Int).SetBytes(r.Bytes(40)), twoR)
	s.e.SetBigInt(s.ev)
	s.consts = []*fe.FieldElement{&fe.FieldElementZero, &fe.FieldElementOne, &fe.FieldElementMinusOne, &fe.FieldElementTwo, &cp.CurveParameterA_fe, &cp.CurveParameterD_fe}
	s.constv = []*big.Int{new(big.Int), ref.One, ref.Neg(ref.One), big.NewInt(2), ref.A, ref.D}
	n, a := fin(ref.Neutral), fin(ref.TwoTorsion)
	s.pts = []sharedPoint{
		{&cp.NeutralElement_axtw_subgroup, n, "NeutralElement_axtw_subgroup", tAxtwSub},
		{&cp.NeutralElement_xtw_subgroup, n, "NeutralElement_xtw_subgroup", tXtwSub},
		{&cp.NeutralElement_efgh_subgroup, n, "NeutralElement_efgh_subgroup", tEfghSub},
		{&cp.SubgroupGenerator_xtw_subgroup, generator, "SubgroupGenerator_xtw_subgroup", tXtwSub},
		{&cp.NeutralElement_axtw_full, n, "NeutralElement_axtw_full", tAxtwFull},
		{&cp.NeutralElement_xtw_full, n, "NeutralElement_xtw_full", tXtwFull},
		{&cp.NeutralElement_efgh_full, n, "NeutralElement_efgh_full", tEfghFull},
		{&cp.AffineOrderTwoPoint_axtw, a, "AffineOrderTwoPoint_axtw", tAxtwFull},
		{&cp.AffineOrderTwoPoint_xtw, a, "AffineOrderTwoPoint_xtw", tXtwFull},
		{&cp.AffineOrderTwoPoint_efgh, a, "AffineOrderTwoPoint_efgh", tEfghFull},
		{&cp.InfinitePoint1_xtw, inf(0), "InfinitePoint1_xtw", tXtwFull},
		{&cp.InfinitePoint2_xtw, inf(1), "InfinitePoint2_xtw", tXtwFull},
		{&cp.InfinitePoint1_efgh, inf(0), "InfinitePoint1_efgh", tEfghFull},
		{&cp.InfinitePoint2_efgh, inf(1), "InfinitePoint2_efgh", tEfghFull},
	}
}

var generator snap

func initArith() {
	initPool()
	infS = hexInt("52c9f28b828426a561f00d3a63511a882ea712770d9af4d6ee0f014d172510b6") // sqrt(d/a)
	if ref.Mul(ref.Mul(infS, infS), ref.A).Cmp(ref.D) != 0 {
		panic("harness: constant")
	}
	infS = ref.Inv(infS)
	gx := hexInt("29c132cc2c0b34c5743711777bbe42f32b79c022ad998465e1e71866a252ae18")
	gy := hexInt("2a6c669eda123e0f157d8b50badcd586358cad81eee464605e3167b6cc974166")
	generator = fin(ref.Pt{X: gx, Y: gy})
	if !generator.sub() {
		panic("harness: generator")
	}
	// the model is a group, and the endomorphism is the right one
	vals := []snap{inf(0), inf(1), fin(ref.Neutral), fin(ref.TwoTorsion), generator}
	for i := 0; i < nPool; i += 3 {
		vals = append(vals, fin(pool[i].Pt))
	}
	for i, p := range vals {
		if p.endo().endo().plus(p.plus(p)).kind != 0 || !p.endo().endo().plus(p.plus(p)).p.Eq(ref.Neutral) {
			panic("harness: endomorphism")
		}
		for j, q := range vals {
			if !p.plus(q).plus(q.neg()).eq(p) || !p.plus(q).eq(q.plus(p)) || !p.plus(q).endo().eq(p.endo().plus(q.endo())) {
				panic(fmt.Sprint("harness: group ", i, j))
			}
			if s := p.plus(q); s.kind == 0 && !ref.OnCurve(s.p.X, s.p.Y) {
				panic("harness: not on the curve")
			}
		}
	}
	if t, ok := generator.p.Times(lambda); !ok || !generator.endo().eq(fin(t)) {
		panic("harness: eigenvalue")
	}
}

func smallOrBig(r *core.Rng) *big.Int {
	switch r.N(8) {
	case 0:
		return big.NewInt(int64(r.N(4)))
	case 1:
		return new(big.Int).Sub(ref.P, big.NewInt(int64(1+r.N(4))))
	case 2:
		return new(big.Int).SetUint64(r.U64() >> uint(r.N(64)))
	case 3:
		return ref.Neg(new(big.Int).SetUint64(r.U64() >> uint(r.N(64))))
	case 4:
		return new(big.Int).Mod(new(big.Int).Lsh(ref.One, uint(r.N(255))), ref.P)
	}
	return new(big.Int).Mod(new(big.Int).SetBytes(r.Bytes(40)), ref.P)
}

// wide gives a number below 2^256, often near a boundary.
func wide(r *core.Rng) *big.Int {
	b := []*big.Int{new(big.Int), ref.P, twoP, maxC, two256, new(big.Int).Lsh(ref.One, 64), new(big.Int).Lsh(ref.One, 128), new(big.Int).Lsh(ref.One, 192)}
	switch r.N(4) {
	case 0:
		v := new(big.Int).Add(b[r.N(len(b))], big.NewInt(int64(r.In(-3, 3))))
		if v.Sign() >= 0 && v.Cmp(two256) < 0 {
			return v
		}
	case 1:
		return new(big.Int).Rsh(new(big.Int).SetBytes(r.Bytes(32)), uint(r.N(256)))
	case 2: // limbs that are 0 or all ones
		v := new(big.Int)
		for i := 0; i < 4; i++ {
			w := uint64(0)
			switch r.N(4) {
			case 0:
				w = ^uint64(0)
			case 1:
				w = r.U64()
			case 2:
				w = uint64(r.N(3))
			}
			v.Lsh(v, 64)
			v.Or(v, new(big.Int).SetUint64(w))
		}
		return v
	}
	return new(big.Int).SetBytes(r.Bytes(32))
}

const (
	nF = 4
	nU = 4
	nE = 3
)

// at is a thread with its registers and what they should contain.
type at struct {
	x  *core.X
	r  *core.Rng
	s  *arithShared
	op string
	f  [nF]fe.FieldElement
	fv [nF]*big.Int
	u  [nU]fe.Uint256
	uv [nU]*big.Int
	e  [nE]ex.Exponent
	ev [nE]*big.Int
	q  [nTypes]cp.CurvePointPtrInterface
	qv [nTypes]snap
}

func (t *at) init(seed uint64) {
	t.r = core.NewRng(seed)
	for i := range t.f {
		t.fv[i] = smallOrBig(t.r)
		t.f[i] = feOf(t.fv[i])
		t.f[i].RerandomizeRepresentation(t.r.U64())
	}
	for i := range t.u {
		t.uv[i] = wide(t.r)
		t.u[i].SetBigInt(t.uv[i])
	}
	for i := range t.e {
		t.ev[i] = new(big.Int).Mod(new(big.Int).SetBytes(t.r.Bytes(40)), twoR)
		t.e[i].SetBigInt(t.ev[i])
	}
	for i := range t.q {
		t.q[i] = newPoint(i)
		t.setPoint(i, t.r.N(nPool))
	}
}

func (t *at) setPoint(i, k int) {
	if t.q[i].CanOnlyRepresentSubgroup() && k >= nSub {
		k %= nSub
	}
	t.q[i] = newPoint(i)
	load(t.q[i], pool[k].Pt)
	vary(t.q[i], t.r.U64())
	t.qv[i] = fin(pool[k].Pt)
}

func (t *at) check(ok bool, class, format string, args ...any) {
	if !ok {
		t.x.Check(false, class, "%s: %s", t.op, fmt.Sprintf(format, args...))
	}
}

// srcF picks a field element to read.
func (t *at) srcF() (*fe.FieldElement, *big.Int) {
	if t.r.P(1, 4) {
		if t.r.P(1, 2) {
			i := t.r.N(nSharedFe)
			return t.s.fe[i], t.s.fev[i]
		}
		i := t.r.N(len(t.s.consts))
		return t.s.consts[i], t.s.constv[i]
	}
	i := t.r.N(nF)
	return &t.f[i], t.fv[i]
}

// verify compares all registers with the model.
func (t *at) verify(what int) {
	switch what {
	case 'f':
		for i := range t.f {
			if got := t.f[i].ToBigInt(); got.Cmp(t.fv[i]) != 0 {
				t.check(false, "wrong field element", "register %d is %x, should be %x", i, got, t.fv[i])
			}
		}
	case 'u':
		for i := range t.u {
			if got := bigU(&t.u[i]); got.Cmp(t.uv[i]) != 0 {
				t.check(false, "wrong number", "register %d is %x, should be %x", i, got, t.uv[i])
			}
		}
	case 'e':
		for i := range t.e {
			if got := t.e[i].ToBigInt_Full(); got.Cmp(t.ev[i]) != 0 {
				t.check(false, "wrong exponent", "register %d is %x, should be %x", i, got, t.ev[i])
			}
		}
	case 'p':
		for i := range t.q {
			if got := value(t.q[i].Clone()); !got.eq(t.qv[i]) {
				t.check(false, "wrong point", "register of type %s is %v, should be %v", typeNames[i], got, t.qv[i])
			}
		}
	}
}

// bigU does not use the library.
func bigU(u *fe.Uint256) *big.Int {
	v := new(big.Int)
	for i := 3; i >= 0; i-- {
		v.Lsh(v, 64)
		v.Or(v, new(big.Int).SetUint64(u[i]))
	}
	return v
}

func bigU512(u *fe.Uint512) *big.Int {
	v := new(big.Int)
	for i := 7; i >= 0; i-- {
		v.Lsh(v, 64)
		v.Or(v, new(big.Int).SetUint64(u[i]))
	}
	return v
}

type arithOp struct {
	name string
	kind int
	f    func(t *at)
}

var arithOps []arithOp
var arithIndex = map[string]int{}

func defOp(kind int, name string, f func(t *at)) {
	arithIndex[name] = len(arithOps)
	arithOps = append(arithOps, arithOp{name, kind, f})
}

// near replaces all registers by something that has much in common with what they were: all but one limb of one of the
// representations, or one of the coordinates.
func (t *at) near() {
	limb := func() *big.Int {
		d := int64(t.r.In(1, 3))
		if t.r.P(1, 2) {
			d = -d
		}
		return new(big.Int).Lsh(big.NewInt(d), uint(64*t.r.N(4)))
	}
	for i := range t.f {
		d := modP(limb())
		if t.r.P(1, 2) { // in the Montgomery representation
			d = ref.Mul(d, montInv)
		}
		t.fv[i] = ref.Add(t.fv[i], d)
		t.f[i] = feOf(t.fv[i])
	}
	for i := range t.u {
		k := t.r.N(4)
		t.u[i][k] ^= 1 << uint(t.r.N(64))
		t.uv[i] = bigU(&t.u[i])
	}
	for i := range t.e {
		t.ev[i] = new(big.Int).Mod(new(big.Int).Add(t.ev[i], limb()), twoR)
		t.e[i].SetBigInt(t.ev[i])
	}
	for i := range t.q {
		t.q[i].NegEq()
		t.qv[i] = t.qv[i].neg()
	}
}

func genArith(r *core.Rng, thorough bool) *core.Plan {
	p := &core.Plan{Cfg: map[string]int64{"shared": int64(r.N(1 << 40)), "pts": int64(r.N(2))}}
	// The threads use the same few functions, or all of them.
	var theme []int
	kinds := "fffffuueeppppppp"
	for i := r.Pick(2, 3, 5, 12); i > 0; i-- {
		k := int(kinds[r.N(len(kinds))])
		for {
			j := r.N(len(arithOps))
			if arithOps[j].kind == k {
				theme = append(theme, j)
				break
			}
		}
	}
	for n := r.Pick(1, 2, 2, 2, 3, 3, 4); n > 0; n-- {
		ops := []core.Op{{K: "init", A: []int64{int64(r.N(1 << 40))}}}
		for k := r.In(2, 14); k > 0; k-- {
			op := core.Op{K: arithOps[theme[r.N(len(theme))]].name, A: []int64{int64(r.N(1 << 40))}}
			ops = append(ops, op)
			if r.P(1, 5) { // the same again with operands that are almost the same
				ops = append(ops, core.Op{K: "Near", A: []int64{int64(r.N(1 << 40))}}, op)
			}
		}
		p.Threads = append(p.Threads, ops)
	}
	return p
}

func execArith(x *core.X) {
	s := new(arithShared)
	x.Seq(func() { s.init(uint64(x.Cfg["shared"])) })
	var fns []func()
	for i := range x.Threads {
		ops := x.Threads[i]
		fns = append(fns, func() {
			t := &at{x: x, s: s}
			inited := false
			for _, o := range ops {
				if o.K == "init" || !inited {
					t.init(uint64(o.Arg(0)))
					inited = true
					continue
				}
				j, ok := arithIndex[o.K]
				if o.K == "Near" {
					t.r = core.NewRng(uint64(o.Arg(0)))
					t.op = o.K
					t.near()
					x.Probe("operands with much in common")
					continue
				}
				if !ok {
					continue
				}
				t.r = core.NewRng(uint64(o.Arg(0)))
				t.op = o.K
				arithOps[j].f(t)
				t.verify(arithOps[j].kind)
				x.Probe("op " + o.K)
			}
			if !inited {
				return
			}
			t.op = "at the end"
			for _, k := range "fuep" {
				t.verify(int(k))
			}
		})
	}
	x.Go(fns...)
	x.Seq(func() {
		for i := range s.fe {
			x.Check(s.fe[i].ToBigInt().Cmp(s.fev[i]) == 0, "shared value changed", "a shared field element has changed")
		}
		for i := range s.consts {
			x.Check(s.consts[i].ToBigInt().Cmp(s.constv[i]) == 0, "shared value changed", "constant %d has changed: %v", i, s.consts[i].ToBigInt())
		}
		x.Check(bigU(&s.u).Cmp(s.uv) == 0, "shared value changed", "a shared Uint256 has changed")
		x.Check(s.e.ToBigInt_Full().Cmp(s.ev) == 0, "shared value changed", "a shared exponent has changed")
		for _, p := range s.pts {
			x.Check(value(p.p.Clone()).eq(p.v), "shared value changed", "%s has changed", p.name)
		}
	})
}

func init() {
	core.Register(&core.Scenario{Name: "arith", Props: []string{"P15"}, Gen: genArith, Exec: execArith, Init: initArith})
}

// mustPanic runs f, which must panic (with the given error if there is one); what is modified is not specified.
func (t *at) mustPanic(with error, f func()) {
	val, panicked := core.Try(f)
	t.check(panicked, "no panic", "did not panic")
	if with != nil {
		err, ok := val.(error)
		t.check(ok && errors.Is(err, with), "wrong panic", "panicked with %v", val)
	}
	rt.YieldNow()
}

var _ = common.TrustedInput
