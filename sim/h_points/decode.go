//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"math"
	"math/big"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/core"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/ref"
)

// arguments of decoding operations
const (
	aTyp   = iota // type of the destination points (container 3: of the first one, others vary)
	aCount        // number of points (ignored by "one")
	aSeed         // which points
	aHow          // kind of damage done to the encoded bytes
	aWhere        // where
	aTrust
	aCont  // kind of container
	aDelta // slice.old: size of the buffer minus the number of points; other: how many points are asked for minus how many there are
	aInit  // initial content of the destinations
	aFmt   // which of the formats
	nDecArgs
)

const maxCount = 400

const (
	contTyped = iota
	contPtr
	contGeneric
	contMixed
	nCont
)

// The kinds of damage.
const (
	dNone      = iota
	dRandom    // a body of random bytes (with the right prefix)
	dOutside   // a point outside of the subgroup
	dZero      // all zero
	dSpecial   // values where formulas degenerate
	dModulus   // a number that is not reduced
	dOffCurve  // one off
	dPrefix    // wrong prefix
	dFraming   // one byte of a header or footer
	dSize      // a wrong size of a slice
	dSign      // opposite sign(s)
	dSwap      // coordinates of two points mixed, or of P+A
	dRandomAll // everything random
	nDamage
)

func decNorm(o core.Op) core.Op {
	a := make([]int64, nDecArgs)
	for i := range a {
		a[i] = o.Arg(i)
		if a[i] < 0 && i != aDelta {
			a[i] = -a[i]
		}
	}
	a[aTyp] %= nTypes
	a[aCount] %= maxCount
	a[aHow] %= nDamage
	a[aCont] %= nCont
	a[aFmt] %= nFmt
	if a[aDelta] < -3 || a[aDelta] > 3 {
		a[aDelta] = 0
	}
	if o.K == "one" {
		a[aCount], a[aDelta] = 1, 0
	}
	return core.Op{K: o.K, A: a}
}

func isSlice(k string) bool { return len(k) > 5 && k[:5] == "slice" }

// content makes the bytes that an operation finds in the stream if nothing was lost before.
func content(f *format, o core.Op) (b []byte) {
	r := core.NewRng(uint64(o.A[aSeed]))
	n := int(o.A[aCount])
	sub := f.subOnly() || int(o.A[aTyp]) <= tEfghSub || o.A[aCont] == contMixed
	var bodies [][]byte
	for i := 0; i < n; i++ {
		k, j := r.N(nSub), nSub+r.N(nFull) // the same amount of randomness in any case: operations with the same seed have the same points
		if r.P(1, 2) && !sub {
			k = j
		}
		p := pool[k].Pt
		bb, fits := f.body(p)
		for try := 0; !fits && try < 40; try++ { // prefer points that the prefixes leave room for
			p = pool[(k+try)%nSub].Pt
			bb, fits = f.body(p)
		}
		if !fits {
			bb = make([]byte, f.bodyLen())
		}
		bodies = append(bodies, bb)
	}
	size := uint32(n)
	how, where := o.A[aHow], int(o.A[aWhere])
	if n > 0 {
		i := where % n
		bodies[i] = damage(f, bodies[i], how, r, where)
	}
	if how == dSize {
		switch r.N(9) {
		case 0:
			size++
		case 1:
			size--
		case 2:
			size = math.MaxInt32
		case 3:
			size = math.MaxInt32 + 1
		case 4:
			size = math.MaxUint32
		case 5:
			size = math.MaxInt32 / uint32(f.bodyLen())
		case 6:
			size = uint32(r.U64())
		case 7:
			size = 1000
		case 8:
			per := int64(len(f.hs[hPer]) + f.bodyLen() + len(f.hs[fPer]))
			size = uint32((math.MaxInt32-int64(len(f.hs[hSlice])+4+len(f.hs[fSlice])))/per) + uint32(r.N(2)) // the largest one that is allowed, and one more
		}
	}
	if isSlice(o.K) {
		b = append(b, f.hs[hSlice]...)
		b = binary.LittleEndian.AppendUint32(b, size)
		for _, x := range bodies {
			b = append(append(append(b, f.hs[hPer]...), x...), f.hs[fPer]...)
		}
		b = append(b, f.hs[fSlice]...)
	} else {
		for _, x := range bodies {
			b = append(append(append(b, f.hs[hSingle]...), x...), f.hs[fSingle]...)
		}
	}
	if how == dFraming && len(b) > 0 {
		b[where%len(b)] ^= 1 << r.N(8)
	}
	if how == dRandomAll {
		for i := range b {
			b[i] = byte(r.U64())
		}
	}
	return
}

func damage(f *format, b []byte, how int64, r *core.Rng, where int) []byte {
	put := func(vs ...*big.Int) []byte {
		var out []byte
		for i, v := range vs {
			pre := f.pre(i)
			if f.kind >= fXSignY {
				pre.bits = uint8(r.N(2))
			}
			x, ok := f.raw(elem{new(big.Int).Rsh(v, uint(max(0, v.BitLen()-256+int(pre.len)))), pre})
			if !ok {
				return b
			}
			out = append(out, x...)
		}
		return out
	}
	rnd := func() *big.Int {
		v := new(big.Int).SetBytes(r.Bytes(32))
		return v.Mod(v, ref.P)
	}
	vals := func() (vs []*big.Int) {
		for i := 0; i < f.elements(); i++ {
			v, _ := f.split(b[32*i:], f.pre(i).len)
			vs = append(vs, v)
		}
		return
	}
	pair := func(p ref.Pt) []byte {
		var vs []*big.Int
		for _, e := range f.elems(p) {
			vs = append(vs, e.v)
		}
		return put(vs...)
	}
	switch how {
	case dRandom:
		switch f.elements() {
		case 1:
			return put(rnd())
		}
		if r.P(1, 2) { // a random point on the curve
			for i := 0; i < 20; i++ {
				if x := rnd(); ref.XOnCurve(x) {
					if p, ok := ref.LiftX(x); ok {
						return pair(p)
					}
				}
			}
		}
		return put(rnd(), rnd())
	case dOutside:
		return pair(pool[nSub+r.N(nFull)].Pt)
	case dZero:
		if r.P(1, 2) {
			return make([]byte, len(b))
		}
		if f.elements() == 1 {
			return put(new(big.Int))
		}
		return put(new(big.Int), new(big.Int))
	case dSpecial:
		m1 := ref.Sub(ref.P, ref.One)
		cand := []*big.Int{new(big.Int), big.NewInt(1), m1, ref.InfY, ref.Neg(ref.InfY), ref.Half, new(big.Int).Add(ref.Half, ref.One), big.NewInt(2)}
		if f.elements() == 1 {
			return put(cand[r.N(len(cand))])
		}
		return put(cand[r.N(len(cand))], cand[r.N(len(cand))])
	case dModulus:
		vs := vals()
		i := r.N(len(vs))
		switch r.N(3) {
		case 0:
			vs[i] = new(big.Int).Set(ref.P)
		case 1:
			vs[i] = new(big.Int).Add(vs[i], ref.P)
		default:
			vs[i] = new(big.Int).Sub(new(big.Int).Lsh(ref.One, uint(256-int(f.pre(i).len))), ref.One)
		}
		return put(vs...)
	case dOffCurve:
		vs := vals()
		i := r.N(len(vs))
		vs[i] = ref.Add(vs[i], big.NewInt(int64(1+r.N(3))))
		return put(vs...)
	case dPrefix:
		b = append([]byte(nil), b...)
		i := 32 * r.N(f.elements())
		if !f.big {
			i += 31
		}
		b[i] ^= 1 << r.In(4, 7)
		return b
	case dSign:
		vs := vals()
		if r.P(1, 2) {
			vs[0] = ref.Neg(vs[0])
		}
		if r.P(1, 2) && len(vs) > 1 {
			vs[1] = ref.Neg(vs[1])
		}
		return put(vs...)
	case dSwap:
		vs := vals()
		p := pool[r.N(nPool)].Pt
		if len(vs) > 1 {
			if r.P(1, 2) {
				vs[0], vs[1] = vs[1], vs[0]
			} else {
				vs[r.N(2)] = f.elems(p)[r.N(2)].v
			}
		} else if f.kind == fYSignX {
			vs[0] = p.X
		} else {
			vs[0] = p.Y
		}
		return put(vs...)
	}
	return b
}

// targets are the destinations of a decoding operation.
type targets struct {
	ptrs  []cp.CurvePointPtrInterface
	init  []snap
	slice cp.CurvePointSlice
	old   ps.DeserializeSliceMaker // for slices of values
	fresh ps.DeserializeSliceMaker
	last  cp.CurvePointSlice // what fresh made
	asked []int32
	outOK func(out any, n int, ok bool) bool

	spare     []cp.CurvePointPtrInterface // what lies behind the slice of values, up to its capacity
	spareInit []snap
}

var errMaker = errors.New("no slice today")

// firstOf are the first n points.
type firstOf struct {
	cp.CurvePointSlice
	n int
}

func (s firstOf) Len() int { return s.n }

type constraint[T any] interface {
	*T
	cp.CurvePointPtrInterface
}

func mkTargets[T any, P constraint[T]](n int, cont int64, typ int, init func(i int, q cp.CurvePointPtrInterface) snap) (t *targets) {
	t = &targets{}
	backing := make([]T, n+(n+typ)%3*2)
	vals := backing[:n]
	for i := n; i < len(backing); i++ {
		q := cp.CurvePointPtrInterface(P(&backing[i]))
		t.spare = append(t.spare, q)
		t.spareInit = append(t.spareInit, init(i, q))
	}
	var gen cp.GenericPointSlice
	var ptrs []P
	for i := range vals {
		q := cp.CurvePointPtrInterface(P(&vals[i]))
		if cont == contMixed {
			q = newPoint((typ + i) % nTypes)
		}
		t.ptrs = append(t.ptrs, q)
		t.init = append(t.init, init(i, q))
		gen = append(gen, q)
		ptrs = append(ptrs, P(&vals[i]))
	}
	switch cont {
	case contTyped:
		t.slice = cp.AsCurvePointSlice[T, P](vals)
	case contPtr:
		t.slice = cp.AsCurvePointPtrSlice(ptrs)
	default:
		t.slice = gen
	}
	t.old = ps.UseExistingSlice[T, P](vals)
	t.fresh = func(length int32) (any, cp.CurvePointSlice, error) {
		t.asked = append(t.asked, length)
		if length > 1000 {
			return []T(nil), nil, errTooBig
		}
		out, s, err := ps.CreateNewSlice[T, P](length)
		t.last = s
		return out, s, err
	}
	t.outOK = func(out any, n int, ok bool) bool {
		v, is := out.([]T)
		return is && (!ok || len(v) == n)
	}
	return
}

func makeTargets(typ, n int, cont int64, init func(i int, q cp.CurvePointPtrInterface) snap) *targets {
	switch typ {
	case tAxtwSub:
		return mkTargets[cp.Point_axtw_subgroup](n, cont, typ, init)
	case tXtwSub:
		return mkTargets[cp.Point_xtw_subgroup](n, cont, typ, init)
	case tEfghSub:
		return mkTargets[cp.Point_efgh_subgroup](n, cont, typ, init)
	case tAxtwFull:
		return mkTargets[cp.Point_axtw_full](n, cont, typ, init)
	case tXtwFull:
		return mkTargets[cp.Point_xtw_full](n, cont, typ, init)
	}
	return mkTargets[cp.Point_efgh_full](n, cont, typ, init)
}

// initial fills a destination, sometimes with a point that must survive a failure.
func initial(seed uint64) func(i int, q cp.CurvePointPtrInterface) snap {
	return func(i int, q cp.CurvePointPtrInterface) snap {
		r := core.NewRng(seed + uint64(i)*77)
		if r.P(1, 2) {
			return snap{kind: 2}
		}
		k := r.N(nSub)
		load(q, pool[k].Pt)
		return snap{p: pool[k].Pt}
	}
}

func unchanged(q cp.CurvePointPtrInterface, s snap) bool {
	if s.kind == 2 {
		return q.IsNaP()
	}
	return holds(q, s.p, !q.CanOnlyRepresentSubgroup())
}

func matches(q cp.CurvePointPtrInterface, w want) bool {
	if q.IsNaP() || q.IsAtInfinity() {
		return false
	}
	x, y := q.XY_affine()
	return w(ref.Pt{X: val(x), Y: val(y)})
}

type decKept struct {
	err      error
	text     string
	done     int
	actually []byte
	data     be.ReadErrorData
	get      func() (be.ReadErrorData, int)
}

// decCtx is one stream with its serializer.
type decCtx struct {
	x    *core.X
	f    *format
	des  decoder
	ser  ps.CurvePointSerializerModifyable
	rd   *core.Reader
	keep []decKept
	deep bool // extra checks on the points that were read
}

func (c *decCtx) finish() {
	for _, k := range c.keep {
		d, n := k.get()
		c.x.Check(k.err.Error() == k.text && n == k.done && d.BytesRead == k.data.BytesRead && d.PartialRead == k.data.PartialRead && d.IoError == k.data.IoError && bytes.Equal(d.ActuallyRead, k.actually), "error changed", "an error changed after it had been returned: %s", k.text)
	}
}

func trustOf(b bool) common.IsInputTrusted {
	if b {
		return common.TrustedInput
	}
	return common.UntrustedInput
}

// run performs one decoding operation and judges it.
func (c *decCtx) run(o core.Op) {
	x, f, rd := c.x, c.f, c.rd
	typ := int(o.A[aTyp])
	cont := o.A[aCont]
	count := int(o.A[aCount])
	nDst := count + int(o.A[aDelta])
	if isSlice(o.K) && o.K != "slice.custom" {
		cont = contTyped
	}
	mood := o.A[aInit] % 7 // of a user's own maker of slices
	if o.K == "variadic" {
		cont = contPtr
	}
	nDst = max(nDst, 0)
	t := makeTargets(typ, nDst, cont, initial(uint64(o.A[aInit])))
	pos0 := rd.Pos
	src := rd.Data[pos0:rd.ErrOff]
	subFor := func(q cp.CurvePointPtrInterface) bool { return f.subOnly() || q.CanOnlyRepresentSubgroup() }

	// what the model says
	m := &parser{f: f, src: src}
	var ws []want
	var extra want // the point whose footer failed
	pointStart := 0
	total := int64(-1) // length of the object
	calls := -2        // argument of sliceMaker
	var reportDone int
	if isSlice(o.K) {
		size := m.sliceHead()
		if !m.failed {
			total = f.sliceLen(int(size))
			calls = int(size)
			switch {
			case total > math.MaxInt32:
				m.fail(m.pos, m.pos, false)
				m.any = true
				calls = -1
			case o.K == "slice.new" && size > 1000:
				m.fail(m.pos, m.pos, false, errTooBig)
			case o.K == "slice.old" && int(size) > nDst:
				m.fail(m.pos, m.pos, false, ps.ErrInsufficientBufferForDeserialization)
			case o.K == "slice.custom" && (int(size) > nDst || mood < 2):
				m.fail(m.pos, m.pos, false, errMaker)
			}
			sub := f.subOnly() || newPoint(typ).CanOnlyRepresentSubgroup()
			for i := int64(0); i < size && !m.failed; i++ {
				m.literal(f.hs[hPer])
				if o.K == "slice.custom" {
					sub = subFor(t.ptrs[i])
				}
				w := m.body(sub)
				if w != nil {
					ws = append(ws, w)
				}
				m.literal(f.hs[fPer])
			}
			m.literal(f.hs[fSlice])
		} else {
			calls = -1
		}
		reportDone = len(ws)
	} else {
		n := nDst
		for i := 0; i < n && !m.failed; i++ {
			pointStart = m.pos
			w := m.one(subFor(t.ptrs[i]))
			if m.failed {
				extra = w
				break
			}
			ws = append(ws, w)
		}
		reportDone = len(ws)
	}
	trust := o.A[aTrust]%2 == 1 && (!m.failed || (m.io && len(m.sent) == 0))
	consumed := func() int { return rd.Pos - pos0 }

	var n, written int
	var err error
	var data be.ReadErrorData
	done := -1
	var out any
	var get func() (be.ReadErrorData, int)
	batch := func(e ps.BatchDeserializationError) {
		if e != nil {
			err = e
			get = func() (be.ReadErrorData, int) { d := e.GetData_struct(); return d.ReadErrorData, d.PointsDeserialized }
		}
	}
	bounded := false
	in, accounted := rd.In()
	switch o.K {
	case "one":
		var e be.DeserializationError
		n, e = c.des.DeserializeCurvePoint(in, trustOf(trust), t.ptrs[0])
		if e != nil {
			err = e
			get = func() (be.ReadErrorData, int) { return e.GetData_struct(), 0 }
		}
	case "batch":
		var e ps.BatchDeserializationError
		n, e = c.des.DeserializeCurvePoints(in, trustOf(trust), t.slice)
		batch(e)
	case "bounded":
		bounded = true
		var e ps.BatchDeserializationError
		n, written, e = ps.DeserializeCurvePoints_Bounded(c.des, in, trustOf(trust), t.slice)
		batch(e)
	case "variadic":
		var e ps.BatchDeserializationError
		n, e = variadic(c.des, in, trustOf(trust), typ, t.ptrs)
		batch(e)
	case "slice.new":
		var e ps.BatchDeserializationError
		out, n, e = c.des.DeserializeSlice(in, trustOf(trust), t.fresh)
		batch(e)
	case "slice.old":
		var e ps.BatchDeserializationError
		out, n, e = c.des.DeserializeSlice(in, trustOf(trust), func(l int32) (any, cp.CurvePointSlice, error) {
			t.asked = append(t.asked, l)
			return t.old(l)
		})
		batch(e)
		if errors.Is(err, ps.ErrInsufficientBufferForDeserialization) {
			l, _ := ewd.GetParameter(err, "BufferSize")
			k, _ := ewd.GetParameter(err, "BufferCapacity")
			want, _ := ewd.GetParameter(err, "ReadSliceLen")
			x.Check(l == nDst && k == nDst+len(t.spare) && want == calls, "wrong error data", "%s: %v, %v, %v in %q", o.K, l, k, want, err)
		}
		t.ptrs, t.init = append(t.ptrs, t.spare...), append(t.init, t.spareInit...)
	case "slice.custom": // the user's own maker, which may fail and may have slices of any kind
		var e ps.BatchDeserializationError
		out, n, e = c.des.DeserializeSlice(in, trustOf(trust), func(l int32) (any, cp.CurvePointSlice, error) {
			t.asked = append(t.asked, l)
			switch {
			case l < 0 || mood == 0:
				x.Fault("slice cannot be made")
				return c, nil, errMaker
			case int(l) > nDst || mood == 1:
				x.Fault("slice cannot be made")
				return c, t.slice, errMaker
			}
			return c, firstOf{t.slice, int(l)}, nil
		})
		batch(e)
	default:
		return
	}
	accounted()
	if err != nil {
		data, done = get()
		c.keep = append(c.keep, decKept{err, err.Error(), done, append([]byte(nil), data.ActuallyRead...), data, get})
	}
	x.Obs("%v n=%d err=%v data=%+v done=%d written=%d", o, n, err, data, done, written)
	what := formatNames[f.kind] + " " + o.K

	x.Check(n == consumed(), "wrong count", "%s reports %d bytes read, but %d were consumed", what, n, consumed())
	if m.failed {
		x.Check(n >= m.min && n <= m.max, "wrong count", "%s failed after %d bytes, expected %d..%d", what, n, m.min, m.max)
	} else {
		x.Check(n == m.pos, "wrong count", "%s took %d bytes instead of %d", what, n, m.pos)
	}
	if bounded {
		x.Check(written == reportDone, "wrong count", "%s reports %d points, but %d were read", what, written, reportDone)
		quiet := m.failed && m.io && len(m.sent) == 0 && rd.Err == io.EOF && n == pointStart
		if quiet {
			x.Check(err == nil, "spurious error", "%s failed with %v, although the stream just ended between points", what, err)
			x.Probe("bounded: stream ended between points")
		}
		if quiet {
			c.points(what, t, nil, ws, nil)
			return
		}
	}
	// error or success
	if !m.failed {
		if err != nil {
			x.Check(false, "spurious error", "%s failed with %q on a good stream", what, err)
		}
	} else {
		x.Check(err != nil, "missing error", "%s succeeded although the data is cut or wrong", what)
		isIO := m.checkErr(x, what, err, rd.Err, n)
		x.Check(data.IoError == isIO, "wrong error data", "%s: IoError=%v in %q", what, data.IoError, err)
		x.Check(data.BytesRead >= 0 && data.BytesRead <= n, "wrong error data", "%s: %+v, but %d bytes were read", what, data, n)
		x.Check(len(data.ActuallyRead) <= n && bytes.HasSuffix(src[:n], data.ActuallyRead), "wrong error data", "%s: ActuallyRead=%x, but what was read is %x", what, data.ActuallyRead, src[:n])
		var partial bool
		strict := true
		if isSlice(o.K) {
			partial = n != 0 && int64(n) != total
			strict = int64(n) != total
		} else {
			partial = n != pointStart && n != pointStart+f.oneLen()
		}
		if strict {
			x.Check(data.PartialRead == partial, "wrong error data", "%s: PartialRead=%v after %d bytes (%q)", what, data.PartialRead, n, err)
		}
		if o.K != "one" {
			x.Check(done == reportDone, "wrong error data", "%s: %d points decoded according to the error, expected %d (%q)", what, done, reportDone, err)
		}
		if isIO {
			x.Probe("read: stream failed inside of " + o.K)
		} else {
			x.Probe("read: bad data in " + o.K)
		}
	}
	if isSlice(o.K) {
		x.Check(len(t.asked) == 1 && t.asked[0] == int32(calls), "wrong size", "%s asked for buffers of size %v, expected %d", what, t.asked, calls)
		if o.K == "slice.new" {
			x.Check(t.outOK(out, calls, !m.failed), "wrong output", "%s returned %T", what, out)
			made := t.last
			t.ptrs, t.init = nil, nil
			if made != nil {
				for i := 0; i < made.Len(); i++ {
					t.ptrs = append(t.ptrs, made.GetByIndex(i))
					t.init = append(t.init, snap{kind: 2})
				}
			}
			x.Check(m.failed || len(t.ptrs) == calls, "wrong output", "%s made %d points instead of %d", what, len(t.ptrs), calls)
		} else if o.K == "slice.custom" {
			x.Check(m.failed || out == any(c), "wrong output", "%s returned %v", what, out)
		} else {
			v, is := out.(int)
			x.Check(is && (m.failed || v == calls), "wrong output", "%s returned %v", what, out)
		}
	}
	c.points(what, t, src[:n], ws, extra)
}

// points checks what is in the destinations.
func (c *decCtx) points(what string, t *targets, src []byte, ws []want, extra want) {
	x := c.x
	x.Check(len(ws) <= len(t.ptrs), "wrong output", "%s: %d points were read, but only %d arrived", what, len(ws), len(t.ptrs))
	for i, q := range t.ptrs {
		if i < len(ws) {
			if !matches(q, ws[i]) {
				x.Check(false, "wrong point", "%s: point %d is %v, which is not what was encoded", what, i, show(q))
			}
			if c.deep {
				c.inspect(what, i, q)
			}
			continue
		}
		if i == len(ws) && extra != nil && matches(q, extra) {
			continue
		}
		if !unchanged(q, t.init[i]) {
			x.Check(false, "destination modified", "%s: destination %d was modified although decoding failed before, it is now %v", what, i, show(q))
		}
	}
}

// inspect performs checks on a point made from untrusted data by means of the code under test.
func (c *decCtx) inspect(what string, i int, q cp.CurvePointPtrInterface) {
	x := c.x
	if v, ok := q.(interface{ Validate() bool }); ok {
		x.Check(v.Validate(), "invalid point", "%s: point %d does not validate", what, i)
	}
	if c.f.subOnly() || q.CanOnlyRepresentSubgroup() {
		x.Check(q.IsInSubgroup(), "invalid point", "%s: point %d is not in the subgroup", what, i)
	}
	px, py := q.XY_affine()
	p := ref.Pt{X: val(px), Y: val(py)}
	want, fits := c.f.body(p)
	x.Check(fits, "wrong point", "%s: point %d cannot be encoded in the format that it was read from", what, i)
	var buf bytes.Buffer
	_, err := c.ser.SerializeCurvePoint(&buf, q)
	h := len(c.f.hs[hSingle])
	x.Check(err == nil && buf.Len() == c.f.oneLen() && bytes.Equal(buf.Bytes()[h:h+c.f.bodyLen()], want), "wrong point", "%s: writing point %d again gives %x, %v", what, i, buf.Bytes(), err)
}

func show(q cp.CurvePointPtrInterface) any {
	s := value(q)
	if s.kind != 0 {
		return []string{"", "infinite", "invalid"}[s.kind]
	}
	return s.p
}

func variadic(d decoder, r io.Reader, tr common.IsInputTrusted, typ int, ps_ []cp.CurvePointPtrInterface) (int, ps.BatchDeserializationError) {
	switch typ {
	case tAxtwSub:
		return vari[cp.Point_axtw_subgroup](d, r, tr, ps_)
	case tXtwSub:
		return vari[cp.Point_xtw_subgroup](d, r, tr, ps_)
	case tEfghSub:
		return vari[cp.Point_efgh_subgroup](d, r, tr, ps_)
	case tAxtwFull:
		return vari[cp.Point_axtw_full](d, r, tr, ps_)
	case tXtwFull:
		return vari[cp.Point_xtw_full](d, r, tr, ps_)
	}
	return vari[cp.Point_efgh_full](d, r, tr, ps_)
}

func vari[T any, P constraint[T]](d decoder, r io.Reader, tr common.IsInputTrusted, l []cp.CurvePointPtrInterface) (int, ps.BatchDeserializationError) {
	var a []P
	for _, q := range l {
		a = append(a, q.(P))
	}
	return ps.DeserializeCurvePoints_Variadic(d, r, tr, a...)
}

var decKinds = []string{"batch", "bounded", "variadic", "slice.new", "slice.old", "slice.custom"}

func genDecode(kinds []string, hostile bool) func(r *core.Rng, thorough bool) *core.Plan {
	return func(r *core.Rng, thorough bool) *core.Plan {
		p := &core.Plan{Cfg: map[string]int64{}}
		genFormat(r, p.Cfg)
		fs := formatsOf(p.Cfg)
		f := fs[0]
		n := r.Pick(1, 1, 2, 3)
		for t := 0; t < n; t++ {
			var ops []core.Op
			bytes := 0
			for k := r.In(1, 4); k > 0; k-- {
				o := core.Op{K: kinds[r.N(len(kinds))], A: make([]int64, nDecArgs)}
				o.A[aTyp] = int64(r.N(nTypes))
				o.A[aCount] = int64(r.Many(0, 1, 1, 2, 2, 3, 4))
				o.A[aSeed] = int64(r.N(1 << 30))
				if hostile {
					if r.P(4, 5) {
						o.A[aHow] = int64(r.In(1, nDamage-1))
					}
				} else if r.P(1, 6) {
					o.A[aHow] = int64(r.Pick(dRandom, dZero, dPrefix, dFraming, dSize, dOutside, dModulus))
				}
				o.A[aWhere] = int64(r.N(1000))
				o.A[aTrust] = core.B(!hostile && r.P(1, 3))
				o.A[aCont] = int64(r.N(nCont))
				o.A[aDelta] = int64(r.Pick(0, 0, 0, 0, 1, -1, 2))
				o.A[aInit] = int64(r.N(1 << 30))
				o.A[aFmt] = int64(r.Pick(0, 0, 0, 1, 2, 3))
				if l := len(ops); l > 0 && r.P(1, 3) { // the same points again
					last := ops[l-1]
					for _, i := range []int{aCount, aSeed, aHow, aWhere} {
						o.A[i] = last.A[i]
					}
					if r.P(1, 2) && kinds[0] == "one" {
						o.K = last.K
					}
					if hostile && r.P(1, 2) { // points outside of the subgroup, first where they are allowed
						o.A[aHow], last.A[aHow] = dOutside, dOutside
						last.A[aTyp], last.A[aCont] = int64(r.In(tAxtwFull, tEfghFull)), int64(r.N(contMixed))
					}
				}
				ops = append(ops, o)
				bytes += len(content(&fs[o.A[aFmt]], decNorm(o)))
			}
			p.Threads = append(p.Threads, ops)
			if len(ops) > 1 && r.P(1, 8) { // nothing else goes wrong
				continue
			}
			if !hostile && r.P(5, 6) {
				unit := f.oneLen()
				p.Faults = append(p.Faults, core.At(t, r.ReadFaults(bytes, unit, true))...)
			} else if hostile && r.P(1, 3) {
				p.Faults = append(p.Faults, core.At(t, []core.Op{{K: "flip", A: []int64{int64(r.N(bytes + 1)), int64(1 << r.N(8))}}})...)
			}
		}
		return p
	}
}

// formatsOf are the formats of a run: the one that was generated, and others that differ from it in kind.
func formatsOf(c map[string]int64) (fs [nFmt]format) {
	fs[0] = formatOf(c)
	for i := 1; i < nFmt; i++ {
		d := map[string]int64{"big": c["big"] + int64(i), "fmt": int64(fs[0].kind + i), "sub": c["sub"] + int64(i)}
		if i == 3 {
			d["fmt"] = int64(fs[0].kind)
		}
		fs[i] = formatOf(d)
	}
	return
}

const nFmt = 4

func execDecode(x *core.X) { decode(x, false) }
func execDeep(x *core.X)   { decode(x, true) }

func decode(x *core.X, deep bool) {
	fs := formatsOf(x.Cfg)
	var sers []ps.CurvePointSerializerModifyable
	var dess []decoder
	for i := range fs {
		sers = append(sers, nil)
		dess = append(dess, nil)
		for _, th := range x.Threads {
			for _, o := range th {
				if o = decNorm(o); int(o.A[aFmt]) == i && sers[i] == nil {
					sers[i] = fs[i].build()
					dess[i] = sers[i]
					if x.Cfg["asdes"]&1 == 1 {
						dess[i] = sers[i].AsDeserializer()
					}
				}
			}
		}
	}
	var fns []func()
	for t := range x.Threads {
		t := t
		fns = append(fns, func() {
			var stream []byte
			var ops []core.Op
			for _, o := range x.Threads[t] {
				o = decNorm(o)
				ops = append(ops, o)
				stream = append(stream, content(&fs[o.A[aFmt]], o)...)
			}
			c := &decCtx{x: x, deep: deep}
			c.rd = core.NewReader(x, stream, core.Script{Faults: x.FaultsFor(t), Chunk: int(uint64(x.Cfg["chunk"]) % 100), Vary: uint64(x.Cfg["vary"]), Shape: uint64(x.Cfg["shape"])})
			for _, o := range ops {
				c.f, c.des, c.ser = &fs[o.A[aFmt]], dess[o.A[aFmt]], sers[o.A[aFmt]]
				c.run(o)
			}
			c.finish()
		})
	}
	x.Go(fns...)
}

func init() {
	core.Register(&core.Scenario{Name: "point-decode", Props: []string{"P08"}, Gen: genDecode([]string{"one"}, false), Exec: execDecode, Init: initPool})
	core.Register(&core.Scenario{Name: "points-decode", Props: []string{"P10"}, Gen: genDecode(decKinds, false), Exec: execDecode, Init: initPool})
	core.Register(&core.Scenario{Name: "points-hostile", Props: []string{"P12"}, Gen: genDecode(append([]string{"one", "one"}, decKinds...), true), Exec: execDeep, Init: initPool})
}
