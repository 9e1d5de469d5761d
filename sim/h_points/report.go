//go:build go1.22

package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	ewd "github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/core"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/rt"
)

// What is reported about a decoding or encoding: each one is done twice, from streams that hold the same bytes and fail at the same place in the same way,
// but give or take them differently. Errors are handed over to other threads.
//
// Decoding operations have the arguments of decode.go, encoding operations those of encode.go; those of the stream follow at these positions.
const (
	rCut  = nDecArgs + iota // 0: no failure, 1: end of the stream, 2: I/O error
	rOff                    // where (modulo the length plus one; writers: number of bytes)
	rErr                    // which I/O error
	rSeed                   // how the second stream delivers
	nRepArgs
)

type told struct {
	n, pos, written int
	err             error
	text            string
	data            map[string]string
	out             []string // destinations, or the bytes written
}

// sharedErr is an error that every thread may look at.
type sharedErr struct {
	err   error
	text  string
	data  map[string]string
	cause error
}

type reportCtx struct {
	x    *core.X
	f    *format
	ser  ps.CurvePointSerializerModifyable
	des  ps.CurvePointDeserializerModifyable
	box  *errBox
	keep []sharedErr
}

type errBox struct {
	mu   rt.Mutex
	errs []sharedErr
}

// dataOf makes data comparable.
func dataOf(err error) map[string]string {
	m := map[string]string{}
	for k, v := range ewd.GetData_map(err) {
		m[k] = fmt.Sprintf("%T %v", v, v)
	}
	return m
}

func sameData(a, b map[string]string) bool { return reflect.DeepEqual(a, b) }

func sorted(m map[string]string) (l []string) {
	for k, v := range m {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return
}

// complete checks that an error has everything that it claims to have.
func (c *reportCtx) complete(what string, err error) {
	x := c.x
	any_, ok := err.(ewd.ErrorWithData_any)
	x.Check(ok, "no data", "%s: the error has no data: %v", what, err)
	if !ok {
		return
	}
	for _, e := range []error{any_.ValidateSyntax(), any_.ValidateError_Base(), any_.ValidateError_Final()} {
		x.Check(e == nil, "incomplete error", "%s: %v does not validate: %v", what, err, e)
	}
	text := err.Error()
	x.Check(!strings.Contains(text, "%!") && text != "", "incomplete error", "%s: %q", what, text)
	m := ewd.GetData_map(err)
	for k, v := range m {
		w, there := ewd.GetParameter(err, k)
		x.Check(there && ewd.HasParameter(err, k) && any_.HasParameter(k) && reflect.DeepEqual(v, w), "data differ", "%s: %s is %v in the map and %v by name", what, k, v, w)
	}
	// the struct that the error's type promises
	get := reflect.ValueOf(err).MethodByName("GetData_struct")
	x.Check(get.IsValid(), "no data", "%s: the error promises no struct: %T", what, err)
	if !get.IsValid() {
		return
	}
	s := get.Call(nil)[0]
	for _, f := range reflect.VisibleFields(s.Type()) {
		if f.Anonymous || !f.IsExported() {
			continue
		}
		v, there := m[f.Name]
		x.Check(there && reflect.DeepEqual(v, s.FieldByIndex(f.Index).Interface()), "data differ", "%s: %s is %v in the map and %v in the struct of %v", what, f.Name, v, s.FieldByIndex(f.Index), err)
	}
	x.Check(errors.Is(err, err), "identity", "%s: the error is not itself: %v", what, err)
}

// check looks at an error that was returned some time ago, perhaps to another thread.
func (c *reportCtx) check(s sharedErr, again bool) {
	x := c.x
	x.Check(s.err.Error() == s.text, "error changed", "an error was %q and is now %q", s.text, s.err)
	d := dataOf(s.err)
	x.Check(sameData(d, s.data), "error changed", "the data of %q were %v and are now %v", s.text, sorted(s.data), sorted(d))
	if s.cause != nil {
		x.Check(core.Keeps(s.err, s.cause), "cause lost", "%q does not wrap %q", s.text, s.cause)
	}
	if again {
		c.complete("again", s.err)
		e := ewd.AddDataToError_any_params(s.err, ewd.ReplacePreviousData, "Where", 7)
		v, _ := ewd.GetParameter(e, "Where")
		x.Check(v == 7 && e.Error() == s.text && errors.Is(e, s.err) && e.ValidateError_Final() == nil, "derived error", "%q was derived from %q", e, s.text)
		g := fmt.Errorf("at work: %w", s.err)
		x.Check(sameData(dataOf(g), s.data), "derived error", "the data of %q are %v", g, sorted(dataOf(g)))
	}
}

func (c *reportCtx) add(s sharedErr) {
	c.keep = append(c.keep, s)
	c.box.mu.Lock()
	if len(c.box.errs) < 64 {
		c.box.errs = append(c.box.errs, s)
	}
	c.box.mu.Unlock()
}

func (c *reportCtx) look(at int64) {
	c.box.mu.Lock()
	var s sharedErr
	if n := len(c.box.errs); n > 0 {
		s = c.box.errs[uint64(at)%uint64(n)]
		c.x.Probe("error looked at by another thread")
	}
	c.box.mu.Unlock()
	if s.err != nil {
		c.check(s, true)
	}
}

func (c *reportCtx) compare(what string, a, b *told, cause error) {
	x := c.x
	x.Obs("%s: n=%d err=%q data=%v", what, a.n, a.text, sorted(a.data))
	for _, t := range []*told{a, b} {
		if t.err == nil {
			continue
		}
		c.complete(what, t.err)
		t.text, t.data = t.err.Error(), dataOf(t.err)
		cause := cause
		if cause != nil && !core.Keeps(t.err, cause) { // it may have failed for another reason before
			cause = nil
		}
		if io_, ok := cause.(*core.IOErr); ok {
			x.Check(strings.Contains(t.text, io_.Error()), "cause lost", "%s: %q does not tell of %q", what, t.text, cause)
		}
		if t == a {
			c.add(sharedErr{t.err, t.text, t.data, cause})
		} else {
			c.keep = append(c.keep, sharedErr{t.err, t.text, t.data, cause})
		}
	}
	x.Check((a.err == nil) == (b.err == nil), "depends on delivery", "%s gave %v, and %v for another delivery", what, a.err, b.err)
	if a.err != nil && b.err != nil {
		x.Check(a.text == b.text, "depends on delivery", "%s failed with %q, and with %q for another delivery", what, a.text, b.text)
		x.Check(sameData(a.data, b.data), "depends on delivery", "%s: data %v, and %v for another delivery", what, sorted(a.data), sorted(b.data))
	}
	x.Check(a.n == b.n && a.written == b.written && a.pos == b.pos, "depends on delivery", "%s: %d, %d bytes and %d points, and %d, %d, %d for another delivery", what, a.n, a.pos, a.written, b.n, b.pos, b.written)
	x.Check(reflect.DeepEqual(a.out, b.out), "depends on delivery", "%s: result %v, and %v for another delivery", what, a.out, b.out)
}

func (c *reportCtx) reader(data []byte, o core.Op, other bool) *core.Reader {
	var s core.Script
	if len(o.A) >= nRepArgs {
		r := core.NewRng(uint64(o.A[rSeed]))
		style := int64(0)
		if other {
			style = int64(r.N(2))
			s.Chunk = r.Pick(0, 1, 2, 7, 31, 32, 33)
			s.Vary = uint64(r.N(2)) * r.U64()
			s.Shape = uint64(r.N(2)) * r.U64()
		}
		switch off := o.A[rOff] % int64(len(data)+1); o.A[rCut] {
		case 1:
			s.Faults = append(s.Faults, core.Op{K: "eof", A: []int64{off, style}})
		case 2:
			s.Faults = append(s.Faults, core.Op{K: "err", A: []int64{off, style, o.A[rErr] % 4}})
		}
		if other && r.P(1, 4) {
			s.Faults = append(s.Faults, core.Op{K: "stall", A: []int64{int64(r.N(len(data) + 1)), int64(r.In(1, 1000)), int64(r.In(1, 3))}})
		}
	}
	return core.NewReader(c.x, data, s)
}

func (c *reportCtx) writer(o core.Op, other bool) *core.Writer {
	var s core.Script
	if o.A[rCut] != 0 {
		s.Faults = append(s.Faults, core.Op{K: "err", A: []int64{o.A[rOff] % 700, o.A[rCut] - 1, o.A[rErr] % 6}})
	}
	if other {
		s.Faults = append(s.Faults, core.Op{K: "stall", A: []int64{0, 5}})
		s.Shape = uint64(o.A[rSeed])>>3 + 1
	}
	return core.NewWriter(c.x, s)
}

func describe(q cp.CurvePointPtrInterface) string {
	s := value(q)
	if s.kind == 0 {
		return s.p.X.Text(16) + "," + s.p.Y.Text(16)
	}
	return fmt.Sprint("kind ", s.kind, s.e)
}

func (c *reportCtx) decodeOnce(o core.Op, des decoder, b []byte, other bool) (t told, cause error) {
	rd := c.reader(b, o, other)
	typ, cont, n := int(o.A[aTyp]), o.A[aCont], max(int(o.A[aCount]+o.A[aDelta]), 0)
	if isSlice(o.K) {
		cont = contTyped
	}
	if o.K == "variadic" {
		cont = contPtr
	}
	tg := makeTargets(typ, n, cont, initial(uint64(o.A[aInit])))
	// input may only be trusted if it is good
	trust := trustOf(o.A[aTrust]%2 == 1 && o.A[aHow] == dNone)
	var e ps.BatchDeserializationError
	var out any
	in, accounted := rd.In()
	switch o.K {
	case "one":
		k, e := des.DeserializeCurvePoint(in, trust, tg.ptrs[0])
		if t.n = k; e != nil {
			t.err = e
		}
	case "batch":
		t.n, e = des.DeserializeCurvePoints(in, trust, tg.slice)
	case "bounded":
		t.n, t.written, e = ps.DeserializeCurvePoints_Bounded(des, in, trust, tg.slice)
	case "variadic":
		t.n, e = variadic(des, in, trust, typ, tg.ptrs)
	case "slice.new":
		out, t.n, e = des.DeserializeSlice(in, trust, tg.fresh)
	case "slice.old":
		out, t.n, e = des.DeserializeSlice(in, trust, tg.old)
	}
	if e != nil {
		t.err = e
	}
	accounted()
	t.pos = rd.Pos
	for _, q := range tg.ptrs {
		t.out = append(t.out, describe(q))
	}
	if tg.last != nil && t.err == nil {
		for i := 0; i < tg.last.Len(); i++ {
			t.out = append(t.out, describe(tg.last.GetByIndex(i)))
		}
	}
	t.out = append(t.out, fmt.Sprintf("%T", out))
	// what was used for decoding belongs to the caller
	for i := range rd.Data {
		rd.Data[i] ^= 0xff
	}
	cause = rd.ErrSeen
	return
}

func (c *reportCtx) decode(o core.Op) {
	b := content(c.f, decNorm(core.Op{K: o.K, A: o.A[:nDecArgs]}))
	x, y := decoder(c.ser.AsDeserializer()), decoder(c.ser)
	if o.A[rSeed]%2 == 1 {
		x, y = c.des.Clone(), c.des
	}
	o1, cause := c.decodeOnce(o, x, b, false)
	o2, _ := c.decodeOnce(o, y, b, true)
	c.compare(formatNames[c.f.kind]+" "+o.K, &o1, &o2, cause)
}

func (c *reportCtx) encodeOnce(o core.Op, other bool) (t told, cause error) {
	w := c.writer(o, other)
	oo := encNorm(core.Op{K: o.K[4:], A: o.A[:nEncArgs]})
	srcs, sl := makeSources(c.f, oo)
	var ser = c.ser
	if other {
		ser = ser.Clone()
	}
	var e ps.BatchSerializationError
	dst, accounted := w.Out()
	switch oo.K {
	case "one":
		k, e := ser.SerializeCurvePoint(dst, srcs[0].q)
		if t.n = k; e != nil {
			t.err = e
		}
	case "batch":
		t.n, e = ser.SerializeCurvePoints(dst, sl)
	case "slice":
		if sw, ok := ser.(sliceWriter); ok {
			t.n, e = sw.SerializeSlice(dst, sl)
		}
	}
	accounted()
	if e != nil {
		t.err = e
	}
	t.pos = len(w.Got)
	t.out = []string{fmt.Sprintf("%x", w.Got)}
	if w.Failed > 0 {
		cause = w.Err
	}
	for _, s := range srcs { // the points belong to the caller
		load(s.q, pool[0].Pt)
	}
	for i := range w.Got {
		w.Got[i] = 0xee
	}
	return
}

func (c *reportCtx) encode(o core.Op) {
	a, cause := c.encodeOnce(o, false)
	b, _ := c.encodeOnce(o, true)
	c.compare(formatNames[c.f.kind]+" "+o.K, &a, &b, cause)
}

// number decodes or encodes a number.
func (c *reportCtx) numberOnce(o core.Op, other bool) (t told, cause error) {
	r := core.NewRng(uint64(o.A[aSeed]))
	var en common.FieldElementEndianness
	en.SetEndianness(order(r.P(1, 2)))
	plen := uint8(r.In(0, 8))
	bh := common.MakeBitHeader(common.PrefixBits(r.N(1<<plen)), plen)
	b := r.Bytes(32)
	which := o.A[aHow] % 8
	if r.P(1, 2) {
		copy(b, make([]byte, 2))
		copy(b[30:], make([]byte, 2))
	}
	var zu fe.Uint256
	var zf fe.FieldElement
	for i := range zu {
		zu[i] = binary.LittleEndian.Uint64(b[8*i:])
	}
	zf.SetUint256(&zu)
	switch o.K {
	case "num.dec":
		rd := c.reader(b, o, other)
		in, accounted := rd.In()
		switch which {
		case 0:
			t.n, t.err = wrapD(zu.Deserialize(in, en))
		case 1:
			n, p, err := zu.DeserializeAndGetPrefix(in, plen, en)
			t.n, t.err = wrapD(n, err)
			t.written = int(p)
		case 2:
			t.n, t.err = wrapD(zu.DeserializeWithExpectedPrefix(in, bh, en))
		case 3:
			t.n, t.err = wrapD(zf.Deserialize(in, en))
		case 4:
			n, p, err := zf.DeserializeAndGetPrefix(in, plen, en)
			t.n, t.err = wrapD(n, err)
			t.written = int(p)
		case 5:
			t.n, t.err = wrapD(zf.DeserializeWithExpectedPrefix(in, bh, en))
		case 6:
			t.n, t.err = wrapD(fe.DeserializeFieldElement(&zf, in, en))
		case 7:
			t.n, t.err = wrapD(fe.DeserializeFieldElementWithExpectedPrefix(&zf, in, bh, en))
		}
		accounted()
		t.pos, cause = rd.Pos, rd.ErrSeen
		for i := range rd.Data {
			rd.Data[i] ^= 0xff
		}
	case "num.enc":
		w := c.writer(o, other)
		dst, accounted := w.Out()
		switch which % 4 {
		case 0:
			t.n, t.err = wrapD(zu.Serialize(dst, en))
		case 1:
			t.n, t.err = wrapD(zu.SerializeWithPrefix(dst, bh, en))
		case 2:
			t.n, t.err = wrapD(zf.Serialize(dst, en))
		case 3:
			t.n, t.err = wrapD(zf.SerializeWithPrefix(dst, bh, en))
		}
		accounted()
		t.pos = len(w.Got)
		t.out = append(t.out, fmt.Sprintf("%x", w.Got))
		if w.Failed > 0 {
			cause = w.Err
		}
	}
	t.out = append(t.out, fmt.Sprint(zu), val(zf).Text(16))
	return
}

// wrapD makes a plain error of an error of any type, nil if there is none.
func wrapD[E error](n int, e E) (int, error) {
	if any(e) == nil {
		return n, nil
	}
	return n, e
}

func (c *reportCtx) run(o core.Op) {
	a := make([]int64, nRepArgs)
	for i := range a {
		if a[i] = o.Arg(i); a[i] < 0 && i != aDelta {
			a[i] = -(a[i] + 1)
		}
	}
	a[rCut] %= 3
	o = core.Op{K: o.K, A: a}
	switch o.K {
	case "look":
		c.look(o.A[aSeed])
	case "num.dec", "num.enc":
		x, cause := c.numberOnce(o, false)
		y, _ := c.numberOnce(o, true)
		c.compare(fmt.Sprint(o.K, " ", o.A[aHow]%8), &x, &y, cause)
	case "length":
		if s, ok := decoder(c.ser).(interface {
			SliceOutputLength(n int32) (int32, error)
		}); ok {
			n := int32(o.A[aSeed])
			l, err := s.SliceOutputLength(n)
			m, err2 := c.des.(interface {
				SliceOutputLength(n int32) (int32, error)
			}).SliceOutputLength(n)
			c.x.Check((err == nil) == (err2 == nil) && (err != nil || l == m), "depends on object", "SliceOutputLength(%d) is %d, %v and %d, %v", n, l, err, m, err2)
			for _, e := range []error{err, err2} {
				if v, ok := e.(ewd.ErrorWithData_any); ok {
					c.x.Check(v.ValidateError_Final() == nil && !strings.Contains(e.Error(), "%!"), "incomplete error", "SliceOutputLength(%d): %v", n, e)
				}
			}
		}
	case "enc.one", "enc.batch", "enc.slice":
		c.encode(o)
	case "one", "batch", "bounded", "variadic", "slice.new", "slice.old":
		o.A = append(decNorm(core.Op{K: o.K, A: a[:nDecArgs]}).A, a[nDecArgs:]...)
		c.decode(o)
	}
}

func genReport(r *core.Rng, thorough bool) *core.Plan {
	p := &core.Plan{Cfg: map[string]int64{}}
	genFormat(r, p.Cfg)
	f := formatOf(p.Cfg)
	kinds := []string{"one", "one", "batch", "bounded", "variadic", "slice.new", "slice.new", "slice.old", "enc.one", "enc.batch", "enc.slice", "num.dec", "num.enc", "length", "look", "look"}
	for n := r.Pick(1, 2, 2, 3); n > 0; n-- {
		var ops []core.Op
		for k := r.In(1, 5); k > 0; k-- {
			o := core.Op{K: kinds[r.N(len(kinds))], A: make([]int64, nRepArgs)}
			size := 32
			switch {
			case o.K == "look":
				o.A[aSeed] = int64(r.N(64))
			case o.K == "length":
				o.A[aSeed] = int64(r.U64() >> uint(33+r.N(31)))
			case strings.HasPrefix(o.K, "num"):
				o.A[aSeed] = int64(r.N(1 << 30))
				o.A[aHow] = int64(r.N(8))
			case strings.HasPrefix(o.K, "enc"):
				o.A[eTyp] = int64(r.N(nTypes))
				o.A[eCount] = int64(r.Pick(0, 1, 1, 2, 2, 3))
				o.A[eSeed] = int64(r.N(1 << 30))
				o.A[eCont] = int64(r.N(nCont))
				if r.P(1, 3) {
					o.A[eSpec] = int64(r.In(1, 3))
					o.A[eKind] = int64(r.N(5))
				}
				size = f.oneLen() * 3
			default:
				o.A[aTyp] = int64(r.N(nTypes))
				o.A[aCount] = int64(r.Pick(0, 1, 1, 2, 2, 3))
				o.A[aSeed] = int64(r.N(1 << 30))
				if r.P(1, 3) {
					o.A[aHow] = int64(r.N(nDamage))
				}
				o.A[aWhere] = int64(r.N(1000))
				o.A[aTrust] = int64(r.N(2))
				o.A[aCont] = int64(r.N(nCont))
				o.A[aDelta] = int64(r.Pick(0, 0, 0, 1, -1))
				o.A[aInit] = int64(r.N(1 << 30))
				size = len(content(&f, decNorm(core.Op{K: o.K, A: o.A[:nDecArgs]})))
			}
			if r.P(2, 3) {
				o.A[rCut] = int64(r.In(1, 2))
				o.A[rOff] = int64(r.N(size + 1))
				if u := f.oneLen(); r.P(1, 3) && size > u {
					o.A[rOff] = int64(r.N(size/u+1) * u)
				}
				o.A[rErr] = int64(r.Pick(0, 0, 0, 1, 2, 3, 4, 5))
			}
			o.A[rSeed] = int64(r.N(1 << 30))
			ops = append(ops, o)
		}
		p.Threads = append(p.Threads, ops)
	}
	return p
}

func execReport(x *core.X) {
	f := formatOf(x.Cfg)
	ser := f.build()
	des := ser.AsDeserializer()
	box := &errBox{}
	var fns []func()
	for t := range x.Threads {
		t := t
		fns = append(fns, func() {
			c := &reportCtx{x: x, f: &f, ser: ser, des: des, box: box}
			for _, o := range x.Threads[t] {
				c.run(o)
			}
			for _, s := range c.keep {
				c.check(s, false)
			}
		})
	}
	x.Go(fns...)
	x.Seq(func() {
		c := &reportCtx{x: x, box: box}
		for i := range box.errs {
			c.look(int64(i))
		}
	})
}

func init() {
	core.Register(&core.Scenario{Name: "report", Props: []string{"P19"}, Gen: genReport, Exec: execReport, Init: initPool})
}
