//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/core"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/ref"
)

// arguments of encoding operations
const (
	eTyp   = iota // type of the points (mixed containers: of the first one)
	eCount        // number of points (1 for "one")
	eSeed         // which points, and their representations
	eCont         // kind of container
	eSpec         // index of a special point plus 1
	eKind         // which special point
	eAgain        // 0: new points, else: what happened to the points of the previous operation, which are written again
	nEncArgs
)

func encNorm(o core.Op) core.Op {
	a := make([]int64, nEncArgs)
	for i := range a {
		if a[i] = o.Arg(i); a[i] < 0 {
			a[i] = -(a[i] + 1)
		}
	}
	a[eTyp] %= nTypes
	a[eCount] %= maxCount
	a[eCont] %= nCont
	a[eKind] %= 5
	a[eAgain] %= 6
	if o.K == "one" {
		a[eCount] = 1
	}
	return core.Op{K: o.K, A: a}
}

// src is a point to be encoded and what is expected of it.
type srcPt struct {
	q    cp.CurvePointPtrInterface
	was  snap
	body []byte  // its encoding (or what precedes the part that does not fit)
	no   []error // why it cannot be encoded
}

func (f *format) plan(s snap) (b []byte, no []error) {
	switch {
	case s.kind == 2:
		return nil, []error{be.ErrCannotSerializeNaP}
	case s.kind == 1:
		return nil, []error{be.ErrCannotSerializePointAtInfinity}
	case f.subOnly() && !ref.Member(s.p.Y):
		return nil, []error{be.ErrWillNotSerializePointOutsideSubgroup}
	}
	b, fits := f.body(s.p)
	if !fits {
		return b, []error{fe.ErrPrefixDoesNotFit}
	}
	return b, nil
}

// fill makes one point.
func fill(f *format, o core.Op, i int, q cp.CurvePointPtrInterface, set func(cp.CurvePointPtrInterface)) snap {
	r := core.NewRng(uint64(o.A[eSeed]) + uint64(i)*1000003)
	special_ := int(o.A[eSpec])-1 == i
	kind := o.A[eKind]
	if special_ && kind < 3 {
		var t int
		for t = 0; t < nTypes; t++ {
			if sameType(newPoint(t), q) {
				break
			}
		}
		sp, want := special(t, -1-kind)
		set(sp)
		return want
	}
	k := r.N(nSub)
	if !q.CanOnlyRepresentSubgroup() {
		if special_ {
			k = nSub + r.N(nFull)
		} else if !f.subOnly() && r.P(1, 2) {
			k = nSub + r.N(nFull)
		}
	}
	if !(special_ && kind == 4) {
		for try := 0; try < 40; try++ { // prefer points that the prefixes leave room for
			if _, fits := f.body(pool[k].Pt); fits {
				break
			}
			k = (k + 1) % nSub
		}
	}
	load(q, pool[k].Pt)
	vary(q, r.U64()%1000)
	return snap{p: pool[k].Pt}
}

func sameType(a, b cp.CurvePointPtrInterface) bool {
	switch a.(type) {
	case *cp.Point_axtw_subgroup:
		_, ok := b.(*cp.Point_axtw_subgroup)
		return ok
	case *cp.Point_xtw_subgroup:
		_, ok := b.(*cp.Point_xtw_subgroup)
		return ok
	case *cp.Point_efgh_subgroup:
		_, ok := b.(*cp.Point_efgh_subgroup)
		return ok
	case *cp.Point_axtw_full:
		_, ok := b.(*cp.Point_axtw_full)
		return ok
	case *cp.Point_xtw_full:
		_, ok := b.(*cp.Point_xtw_full)
		return ok
	case *cp.Point_efgh_full:
		_, ok := b.(*cp.Point_efgh_full)
		return ok
	}
	return false
}

func mkSources[T any, P constraint[T]](f *format, o core.Op) (srcs []srcPt, sl cp.CurvePointSlice) {
	n := int(o.A[eCount])
	vals := make([]T, n)
	var gen cp.GenericPointSlice
	var ptrs []P
	for i := range vals {
		q := cp.CurvePointPtrInterface(P(&vals[i]))
		if o.A[eCont] == contMixed {
			q = newPoint((int(o.A[eTyp]) + i) % nTypes)
		}
		was := fill(f, o, i, q, func(sp cp.CurvePointPtrInterface) {
			if p, ok := sp.(P); ok && o.A[eCont] != contMixed {
				vals[i] = *p
			} else {
				q = sp
			}
		})
		s := srcPt{q: q, was: was}
		s.body, s.no = f.plan(was)
		srcs = append(srcs, s)
		gen = append(gen, q)
		ptrs = append(ptrs, P(&vals[i]))
	}
	switch o.A[eCont] {
	case contTyped:
		return srcs, cp.AsCurvePointSlice[T, P](vals)
	case contPtr:
		return srcs, cp.AsCurvePointPtrSlice(ptrs)
	}
	return srcs, gen
}

func makeSources(f *format, o core.Op) ([]srcPt, cp.CurvePointSlice) {
	switch int(o.A[eTyp]) {
	case tAxtwSub:
		return mkSources[cp.Point_axtw_subgroup](f, o)
	case tXtwSub:
		return mkSources[cp.Point_xtw_subgroup](f, o)
	case tEfghSub:
		return mkSources[cp.Point_efgh_subgroup](f, o)
	case tAxtwFull:
		return mkSources[cp.Point_axtw_full](f, o)
	case tXtwFull:
		return mkSources[cp.Point_xtw_full](f, o)
	}
	return mkSources[cp.Point_efgh_full](f, o)
}

// hugeSlice pretends to hold very many points. Nobody may ask for one.
type hugeSlice struct {
	x *core.X
	n int
}

func (h hugeSlice) Len() int { return h.n }
func (h hugeSlice) GetByIndex(n int) cp.CurvePointPtrInterface {
	h.x.Violate("size overflow ignored", "a point of a slice was accessed whose size does not fit")
	return nil
}

type encKept struct {
	err  error
	text string
	data be.WriteErrorData
	done int
	get  func() (be.WriteErrorData, int)
}

type encCtx struct {
	x    *core.X
	f    *format
	ser  ps.CurvePointSerializerModifyable
	w    *core.Writer
	keep []encKept
	srcs []srcPt // of the last operation
	sl   cp.CurvePointSlice
}

// again changes the points of the last operation in place.
func (c *encCtx) again(how int64, seed int64) {
	r := core.NewRng(uint64(seed))
	for i := range c.srcs {
		s := &c.srcs[i]
		k := r.N(nSub)
		if !s.q.CanOnlyRepresentSubgroup() && r.P(1, 3) {
			k = nSub + r.N(nFull)
		}
		switch {
		case how == 1: // as it was
		case how == 2 && s.was.kind == 0:
			s.q.NegEq()
			s.was.p = s.was.p.Neg()
		case how == 3 && s.was.kind == 0 && k < nSub:
			q := newPoint(r.N(tEfghSub + 1))
			load(q, pool[k].Pt)
			sum, finite := s.was.p.Add(pool[k].Pt)
			if !finite {
				break
			}
			s.q.AddEq(q)
			s.was.p = sum
		case how == 4:
			load(s.q, pool[k].Pt)
			s.was = snap{p: pool[k].Pt}
		default:
			vary(s.q, r.U64()%1000)
		}
		s.body, s.no = c.f.plan(s.was)
	}
	c.x.Probe("write: the same points again")
}

func (c *encCtx) finish() {
	for _, k := range c.keep {
		d, n := k.get()
		c.x.Check(k.err.Error() == k.text && d == k.data && n == k.done, "error changed", "an error changed after it had been returned: %s", k.text)
	}
}

// mark is a position in the output with the number of points that are complete there.
type mark struct{ end, points int }

func (c *encCtx) run(o core.Op) {
	x, f, w := c.x, c.f, c.w
	if o.K == "huge" {
		c.huge(o)
		return
	}
	if o.K == "long" {
		c.long(o)
		return
	}
	var srcs []srcPt
	var sl cp.CurvePointSlice
	if how := o.A[eAgain]; how > 0 && len(c.srcs) > 0 && (o.K != "one" || len(c.srcs) == 1) {
		c.again(how, o.A[eSeed])
		srcs, sl = c.srcs, c.sl
	} else {
		srcs, sl = makeSources(f, o)
		c.srcs, c.sl = srcs, sl
	}
	slice := o.K == "slice"
	sw, can := c.ser.(sliceWriter)
	if slice && !can {
		return
	}

	// What the model says: the full output, up to the first point that cannot be written, and how many points are complete after each part.
	var want []byte
	var refuse []error
	var bad int
	points := 0
	marks := []mark{{0, 0}}
	put := func(b []byte, complete int) {
		want = append(want, b...)
		points += complete
		marks = append(marks, mark{len(want), points})
	}
	starts := map[int]bool{0: true} // where points start and end
	if slice {
		put(f.hs[hSlice], 0)
		put(binary.LittleEndian.AppendUint32(nil, uint32(len(srcs))), 0)
	}
	total := 0
	refused := 0 // where the refused point starts
	for i, s := range srcs {
		refused = len(want)
		if slice {
			put(f.hs[hPer], 0)
		} else {
			put(f.hs[hSingle], 0)
		}
		if s.no != nil {
			put(s.body, 0)
			refuse, bad = s.no, i
			break
		}
		if slice {
			put(s.body, 1)
			put(f.hs[fPer], 0)
		} else {
			put(s.body, 0)
			put(f.hs[fSingle], 1)
			starts[len(want)] = true
		}
	}
	if refuse == nil {
		if slice {
			put(f.hs[fSlice], 0)
		}
		total = len(want)
	} else if slice {
		total = int(f.sliceLen(len(srcs)))
	} else {
		total = len(srcs) * f.oneLen()
	}

	got0, failed0 := len(w.Got), w.Failed
	var n, done int
	var err error
	var data be.WriteErrorData
	var get func() (be.WriteErrorData, int)
	batch := func(m int, e ps.BatchSerializationError) {
		n = m
		if e != nil {
			err = e
			get = func() (be.WriteErrorData, int) { d := e.GetData_struct(); return d.WriteErrorData, d.PointsSerialized }
		}
	}
	dst, accounted := w.Out()
	switch o.K {
	case "one":
		m, e := c.ser.SerializeCurvePoint(dst, srcs[0].q)
		n = m
		if e != nil {
			err = e
			get = func() (be.WriteErrorData, int) { return e.GetData_struct(), -1 }
		}
	case "batch":
		batch(c.ser.SerializeCurvePoints(dst, sl))
	case "slice":
		batch(sw.SerializeSlice(dst, sl))
	default:
		return
	}
	accounted()
	if err != nil {
		data, done = get()
		c.keep = append(c.keep, encKept{err, err.Error(), data, done, get})
	}
	out := w.Got[got0:]
	x.Obs("%v n=%d err=%v data=%+v done=%d out=%x", o, n, err, data, done, out)
	what := formatNames[f.kind] + " " + o.K

	x.Check(n == len(out), "wrong count", "%s reports %d bytes written, but the stream took %d", what, n, len(out))
	x.Check(len(out) <= len(want) && bytes.Equal(out, want[:len(out)]), "wrong output", "%s wrote %x instead of (a part of) %x", what, out, want)
	for i, s := range srcs {
		if !value(s.q).eq(s.was) && !(s.q.CanOnlyRepresentSubgroup() && s.was.kind == 0 && holds(s.q, s.was.p, false)) {
			x.Check(false, "point changed", "%s changed point %d from %v to %v", what, i, s.was, show(s.q))
		}
	}
	io_ := w.Failed > failed0
	if !io_ && refuse == nil {
		if err != nil {
			x.Check(false, "spurious error", "%s failed with %q although the stream took everything", what, err)
		}
		x.Check(len(out) == len(want), "wrong output", "%s wrote %d instead of %d bytes", what, len(out), len(want))
		return
	}
	x.Check(err != nil, "missing error", "%s succeeded after %d of %d bytes", what, len(out), len(want))
	// how many points were complete: before the part in which the stream stopped, and counting that part if it was accepted
	var before, upto int
	for _, m := range marks {
		if m.end < len(out) {
			before = m.points
		}
		if m.end <= len(out) {
			upto = m.points
		}
	}
	if io_ {
		x.Check(core.Keeps(err, w.Err), "lost error", "%s returned %q, which does not wrap the error of the stream", what, err)
		x.Check(core.NotEOF(err, w.Err), "wrong error", "%s presents an I/O error as end of file", what)
		x.Check(data.IoError, "wrong error data", "%s: IoError is not set in %q", what, err)
		if w.Failed-failed0 > 1 {
			x.Check(false, "write after failure", "%s went on writing after the stream had failed", what)
		}
		if done >= 0 {
			ok := done == upto
			if w.LastFailedComplete() { // everything was accepted, but with an error
				ok = done == before || (slice && done == upto)
			}
			x.Check(ok, "wrong error data", "%s: the error says that %d points were written, but %d were complete (%d without the last write; %q)", what, done, upto, before, err)
		}
		x.Probe("write: stream failed inside of " + o.K)
	} else {
		found := false
		for _, e := range refuse {
			found = found || errors.Is(err, e)
		}
		x.Check(found, "wrong error", "%s refused a point with %q instead of %v", what, err, refuse)
		x.Check(!data.IoError, "wrong error data", "%s: IoError is set in %q", what, err)
		// whether its header is written is left open
		x.Check(len(out) == len(want) || len(out) == refused, "wrong output", "%s wrote %d bytes before the point that it refused, expected %d", what, len(out), len(want))
		if done >= 0 {
			x.Check(done == bad, "wrong error data", "%s: the error says that %d points were written, expected %d (%q)", what, done, bad, err)
		}
		x.Probe("write: point refused by " + o.K)
	}
	x.Check(data.BytesWritten >= 0 && data.BytesWritten <= n, "wrong error data", "%s: %+v, but %d bytes were written", what, data, n)
	switch {
	case slice:
		if n != total { // whether the slice that was written completely counts as partial is left open
			x.Check(data.PartialWrite == (n > 0), "wrong error data", "%s: PartialWrite=%v after %d of %d bytes (%q)", what, data.PartialWrite, n, total, err)
		}
	case o.K == "one":
		x.Check(data.PartialWrite == (n > 0 && n < total), "wrong error data", "%s: PartialWrite=%v after %d of %d bytes (%q)", what, data.PartialWrite, n, total, err)
	default:
		x.Check(data.PartialWrite == !starts[n], "wrong error data", "%s: PartialWrite=%v after %d bytes (%q)", what, data.PartialWrite, n, err)
	}
}

// huge asks for more than can be written.
func (c *encCtx) huge(o core.Op) {
	x, f, w := c.x, c.f, c.w
	per := len(f.hs[hPer]) + f.bodyLen() + len(f.hs[fPer])
	n := (math.MaxInt32-len(f.hs[hSlice])-4-len(f.hs[fSlice]))/per + 1 // the smallest number that is too big
	if o.A[eKind] > 0 {
		n = min(n<<o.A[eKind], math.MaxInt32)
	}
	sw, can := c.ser.(sliceWriter)
	if !can {
		return
	}
	got0 := len(w.Got)
	m, e := sw.SerializeSlice(w, hugeSlice{x, n})
	x.Check(e != nil && errors.Is(e, be.ErrSizeDoesNotFitInt32), "missing error", "a slice of %d points does not fit, but SerializeSlice returned %v", n, e)
	d := e.GetData_struct()
	x.Check(m == 0 && len(w.Got) == got0 && d.PointsSerialized == 0 && !d.PartialWrite && !d.IoError, "wrong error data", "slice is too big, but %d bytes are reported, %d written, data %+v", m, len(w.Got)-got0, d)
	x.Probe("write: slice too big")
	x.Obs("huge %d", n)
}

// longSlice pretends to hold the same point very often.
type longSlice struct {
	p cp.CurvePointPtrInterface
	n int
}

func (l longSlice) Len() int                                   { return l.n }
func (l longSlice) GetByIndex(n int) cp.CurvePointPtrInterface { return l.p.Clone() }

// long writes a lot to a stream that soon fails.
func (c *encCtx) long(o core.Op) {
	x, f := c.x, c.f
	r := core.NewRng(uint64(o.A[eSeed]))
	one := o
	one.A = append([]int64(nil), o.A...)
	one.A[eCount], one.A[eSpec], one.A[eCont] = 1, 0, 0
	srcs, _ := makeSources(f, one)
	s := srcs[0]
	if s.no != nil {
		return
	}
	head, before, after := []byte(nil), f.hs[hSingle], f.hs[fSingle]
	sw, can := c.ser.(sliceWriter)
	slice := can && r.P(2, 3)
	if slice {
		before, after = f.hs[hPer], f.hs[fPer]
	}
	per := len(before) + len(s.body) + len(after)
	n := r.Pick(255, 256, 257, 1000, 65535, 65536, 65537, 1<<24-1, 1<<24, 1<<24+1, 1<<31)
	if slice {
		n = min(n, (math.MaxInt32-len(f.hs[hSlice])-4-len(f.hs[fSlice]))/per)
		head = binary.LittleEndian.AppendUint32(append(head, f.hs[hSlice]...), uint32(n))
	} else {
		n = min(n, math.MaxInt32/per)
	}
	k := r.N(6)
	limit := r.Pick(len(head), r.N(len(head)+1), len(head)+k*per, len(head)+k*per+r.N(per), len(head)+k*per+len(before)+len(s.body))
	w := core.NewWriter(x, core.Script{Faults: []core.Op{{K: "err", A: []int64{int64(limit), 0, o.A[eKind]}}}})
	var m, done int
	var err error
	var data be.WriteErrorData
	if slice {
		v, e := sw.SliceOutputLength(int32(n))
		x.Check(e == nil && int64(v) == int64(f.sliceLen(n)), "wrong length", "a slice of %d points is announced to take %d bytes (%v)", n, v, e)
		m, err, data, done = longResult(sw.SerializeSlice(w, longSlice{s.q, n}))
	} else {
		m, err, data, done = longResult(c.ser.SerializeCurvePoints(w, longSlice{s.q, n}))
	}
	want := head
	points := 0
	for i := 0; len(want) < limit+per; i++ {
		end := len(want) + per
		if slice {
			end -= len(after)
		}
		if end <= limit {
			points++
		}
		want = append(append(append(want, before...), s.body...), after...)
	}
	what := fmt.Sprintf("%s, %d points", formatNames[f.kind], n)
	x.Check(err != nil, "missing error", "%s succeeded on a stream that fails", what)
	x.Check(m == len(w.Got) && m == limit, "wrong count", "%s: %d bytes reported, %d accepted", what, m, len(w.Got))
	x.Check(bytes.Equal(w.Got, want[:limit]), "wrong output", "%s: wrote %x instead of %x", what, w.Got, want[:limit])
	x.Check(core.Keeps(err, w.Err) && data.IoError, "lost error", "%s returned %q, %+v", what, err, data)
	x.Check(done == points, "wrong error data", "%s: %d points reported, %d written", what, done, points)
	x.Probe("write: long batch")
	x.Obs("long %d %d %v", n, m, err)
}

func longResult(m int, e ps.BatchSerializationError) (int, error, be.WriteErrorData, int) {
	if e == nil {
		return m, nil, be.WriteErrorData{}, 0
	}
	d := e.GetData_struct()
	return m, e, d.WriteErrorData, d.PointsSerialized
}

func genEncode(kinds []string) func(r *core.Rng, thorough bool) *core.Plan {
	return func(r *core.Rng, thorough bool) *core.Plan {
		p := &core.Plan{Cfg: map[string]int64{}}
		genFormat(r, p.Cfg)
		f := formatOf(p.Cfg)
		n := r.Pick(1, 1, 2, 3)
		for t := 0; t < n; t++ {
			var ops []core.Op
			size, unit := 0, f.oneLen()
			for k := r.In(1, 4); k > 0; k-- {
				o := core.Op{K: kinds[r.N(len(kinds))], A: make([]int64, nEncArgs)}
				if (o.K == "huge" || o.K == "long") && !r.P(1, 5) {
					o.K = "slice"
				}
				o.A[eTyp] = int64(r.N(nTypes))
				o.A[eCount] = int64(r.Many(0, 1, 1, 2, 2, 3, 4))
				o.A[eSeed] = int64(r.N(1 << 30))
				o.A[eCont] = int64(r.N(nCont))
				if r.P(1, 4) {
					o.A[eSpec] = int64(r.In(1, 4))
					o.A[eKind] = int64(r.N(5))
					if o.K == "one" {
						o.A[eSpec] = 1
					}
				}
				if len(ops) > 0 && r.P(1, 4) {
					o.A[eAgain] = int64(r.In(1, 5))
					if l := ops[len(ops)-1]; l.K != "huge" && l.K != "long" {
						o.A[eCount] = l.A[eCount]
					}
				}
				ops = append(ops, o)
				switch o.K {
				case "one":
					size += f.oneLen()
				case "batch":
					size += f.oneLen() * int(o.A[eCount])
				case "slice":
					size += int(f.sliceLen(int(o.A[eCount])))
				}
			}
			p.Threads = append(p.Threads, ops)
			if r.P(4, 5) {
				p.Faults = append(p.Faults, core.At(t, r.WriteFaults(size, unit))...)
			}
		}
		return p
	}
}

func execEncode(x *core.X) {
	f := formatOf(x.Cfg)
	ser := f.build()
	var fns []func()
	for t := range x.Threads {
		t := t
		fns = append(fns, func() {
			c := &encCtx{x: x, f: &f, ser: ser, w: core.NewWriter(x, core.Script{Faults: x.FaultsFor(t), Shape: uint64(x.Cfg["shape"])})}
			for _, o := range x.Threads[t] {
				c.run(encNorm(o))
			}
			c.finish()
		})
	}
	x.Go(fns...)
}

func init() {
	core.Register(&core.Scenario{Name: "point-encode", Props: []string{"P09"}, Gen: genEncode([]string{"one"}), Exec: execEncode, Init: initPool})
	core.Register(&core.Scenario{Name: "points-encode", Props: []string{"P11"}, Gen: genEncode([]string{"batch", "batch", "slice", "slice", "huge", "long"}), Exec: execEncode, Init: initPool})
}
