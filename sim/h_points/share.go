//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"math"
	"strings"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/core"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/rt"
)

// Serializers that are shared, derived, queried and used by several threads.

// obj is a serializer or a deserializer together with what it must be.
type obj struct {
	ser ps.CurvePointSerializerModifyable
	des ps.CurvePointDeserializerModifyable
	f   *format // never modified
}

func (o obj) dec() decoder {
	if o.ser != nil {
		return o.ser
	}
	return o.des
}

func (f *format) params() (l []string) {
	l = []string{"Endianness", "SubgroupOnly"}
	for i, n := range []string{"BitHeader", "BitHeader2"} {
		if f.hasBitHeader(i) {
			l = append(l, n)
		}
	}
	return append(l, headerNames...)
}

func (f *format) hasParam(name string) bool {
	for _, n := range f.params() {
		if strings.EqualFold(n, name) {
			return true
		}
	}
	return false
}

// spell changes the case of letters.
func spell(name string, r *core.Rng) string {
	switch r.N(4) {
	case 0:
		return strings.ToLower(name)
	case 1:
		return strings.ToUpper(name)
	case 2:
		b := []byte(name)
		for i := range b {
			if r.P(1, 2) && b[i] >= 'a' && b[i] <= 'z' {
				b[i] -= 32
			}
		}
		return string(b)
	}
	return name
}

// otherOrder implements binary.ByteOrder, but is not one that is accepted.
type otherOrder struct{ binary.ByteOrder }

type shareCtx struct {
	x      *core.X
	objs   []obj
	after  []func() // modifications of what was passed in, postponed
	box    *mailbox
	shared int
}

const maxObjs = 20

// mailbox hands objects from one thread to others.
type mailbox struct {
	mu   rt.Mutex
	objs []obj
}

func (c *shareCtx) add(o obj) {
	if len(c.objs) < maxObjs {
		c.objs = append(c.objs, o)
	} else {
		c.objs[maxObjs/2+len(c.objs)%(maxObjs/2)] = o
	}
}

func headerIndex(name string) int {
	for i, n := range headerNames {
		if n == name {
			return i
		}
	}
	return -1
}

// derive makes a new object with a changed parameter.
func (c *shareCtx) derive(o obj, name string, r *core.Rng) {
	x := c.x
	g := o.f.clone()
	var val any
	withE := false
	switch name {
	case "Endianness":
		g.big = r.P(1, 2)
		switch r.N(3) {
		case 0:
			val = order(g.big)
		case 1:
			if val = common.LittleEndian; g.big {
				val = common.BigEndian
			}
		default:
			withE = true
		}
	case "SubgroupOnly":
		g.sub = r.P(1, 2) || g.kind < fXY
		val = g.sub
		g.sub = g.sub && g.kind >= fXY
	case "BitHeader", "BitHeader2":
		i := int(core.B(name == "BitHeader2"))
		l := uint8(r.Pick(0, 1, 1, 2, 2, 3, 8))
		g.bh[i] = prefix{uint8(r.N(256)) & uint8(1<<l-1), l}
		val = g.bh[i].header()
	default:
		i := headerIndex(name)
		b := r.Bytes(r.Many(0, 1, 2, 5, 9, 40))
		g.hs[i] = append([]byte{}, b...)
		switch r.N(6) {
		case 0:
			val = string(b)
		case 1:
			if len(b) == 0 {
				val = nil
			} else {
				val = b
			}
		default:
			big := append(append(make([]byte, 0, len(b)+20), b...), 1, 2, 3)
			b = big[:len(b)] // with spare capacity
			val = b
		}
		spoil := func() {
			b = b[:cap(b)]
			for i := range b {
				b[i] ^= 0xA5
			}
		}
		if r.P(1, 2) {
			defer spoil()
		} else {
			c.after = append(c.after, spoil)
		}
	}
	name = spell(name, r)
	generic := r.P(1, 5)
	n := obj{f: &g}
	v, panicked := core.Try(func() {
		switch {
		case o.ser != nil && withE:
			n.ser = o.ser.WithEndianness(order(g.big))
		case withE:
			n.des = o.des.WithEndianness(order(g.big))
		case o.ser != nil && generic:
			n.ser = ps.WithParameter(o.ser, name, val)
		case generic:
			n.des = ps.WithParameter(o.des, name, val)
		case o.ser != nil:
			n.ser = o.ser.WithParameter(name, val)
		default:
			n.des = o.des.WithParameter(name, val)
		}
	})
	if panicked {
		x.Check(false, "valid parameter refused", "setting %s of %s panicked: %v", name, formatNames[g.kind], v)
	}
	c.add(n)
}

// refuse tries to set something invalid.
func (c *shareCtx) refuse(o obj, r *core.Rng) {
	x := c.x
	names := o.f.params()
	name := names[r.N(len(names))]
	var val any
	switch name {
	case "Endianness":
		val = []any{nil, 5, "LittleEndian", otherOrder{binary.LittleEndian}, true}[r.N(5)]
	case "SubgroupOnly":
		val = []any{nil, "true", 1, []byte{1}, false}[r.N(5)]
		if val == false && o.f.kind >= fXY {
			val = 0
		}
	case "BitHeader", "BitHeader2":
		val = []any{nil, 5, []byte{1}, common.PrefixBits(1), "x"}[r.N(5)]
	default:
		val = []any{5, true, []int{1}, [1]byte{2}, common.LittleEndian}[r.N(5)]
	}
	unknown := r.P(1, 4)
	if unknown {
		name = []string{"", "Foo", "Endianness ", "BitHeader3", "SliceHeader", "BitHeader2", "BitHeader"}[r.N(7)]
		val = []any{5, []byte{1}, true, prefix{0, 0}.header(), common.LittleEndian}[r.N(5)]
		if o.f.hasParam(name) {
			name = "Bar"
		}
	}
	name = spell(name, r)
	how := r.N(3)
	_, panicked := core.Try(func() {
		switch {
		case unknown && how == 0:
			o.dec().GetParameter(name)
		case how == 1 && o.ser != nil:
			ps.WithParameter(o.ser, name, val)
		case o.ser != nil:
			o.ser.WithParameter(name, val)
		default:
			o.des.WithParameter(name, val)
		}
	})
	x.Check(panicked, "invalid parameter accepted", "%s: setting %q to %v (%T) was not refused", formatNames[o.f.kind], name, val, val)
	if r.P(1, 4) {
		l := uint8(r.N(12))
		bits := uint8(r.N(256))
		ok := l <= 8 && uint(bits)>>l == 0
		_, panicked = core.Try(func() { common.MakeBitHeader(common.PrefixBits(bits), l) })
		x.Check(panicked != ok, "bit header", "MakeBitHeader(%x, %d): panics: %v", bits, l, panicked)
	}
	x.Fault("invalid parameter")
	c.getters(o, r)
}

// get queries a parameter and destroys what was handed out.
func (c *shareCtx) get(o obj, name string, r *core.Rng) {
	x, f := c.x, o.f
	v := o.dec().GetParameter(spell(name, r))
	ok := false
	switch name {
	case "Endianness":
		e, is := v.(common.FieldElementEndianness)
		ok = is && e.StartsWithMSB() == f.big && o.dec().GetFieldElementEndianness().StartsWithMSB() == f.big
	case "SubgroupOnly":
		s, is := v.(bool)
		ok = is && s == f.subOnly() && o.dec().IsSubgroupOnly() == s
	case "BitHeader", "BitHeader2":
		h, is := v.(common.BitHeader)
		want := f.bh[core.B(name == "BitHeader2")]
		ok = is && h.PrefixLen() == want.len && uint8(h.PrefixBits()) == want.bits
		if is && r.P(1, 2) {
			h.SetBitHeader(common.PrefixBits(1), 7)
		}
	default:
		b, is := v.([]byte)
		ok = is && bytes.Equal(b, f.hs[headerIndex(name)])
		b = b[:cap(b)]
		for i := range b {
			b[i] ^= 0x5A
		}
	}
	if !ok {
		x.Check(false, "parameter changed", "%s of a %s serializer is %v, expected that of %+v", name, formatNames[f.kind], v, *f)
	}
}

// getters queries everything.
func (c *shareCtx) getters(o obj, r *core.Rng) {
	for _, n := range o.f.params() {
		c.get(o, n, r)
	}
}

// facts queries what follows from the parameters.
func (c *shareCtx) facts(o obj, r *core.Rng) {
	x, f, d := c.x, o.f, o.dec()
	l := d.RecognizedParameters()
	want := f.params()
	ok := len(l) == len(want)
	for _, n := range l {
		found := false
		for _, m := range want {
			found = found || n == m
		}
		ok = ok && found
	}
	if !ok {
		x.Check(false, "parameter list changed", "%s recognizes %q, expected %q", formatNames[f.kind], l, want)
	}
	l = l[:cap(l)]
	for i := range l { // what was handed out belongs to the caller
		l[i] = "spoiled"
	}
	for _, n := range []string{"Endianness", "subgrouponly", "BitHeader", "BITHEADER2", "PerPointFooter", "Foo", "", "spoiled"} {
		x.Check(d.HasParameter(n) == f.hasParam(n), "parameter list changed", "%s: HasParameter(%q) is %v", formatNames[f.kind], n, d.HasParameter(n))
	}
	x.Check(int(d.OutputLength()) == f.oneLen(), "wrong length", "%s: OutputLength is %d instead of %d", formatNames[f.kind], d.OutputLength(), f.oneLen())
	for _, n := range []int32{0, 1, 3, 1000, math.MaxInt32 / 64, math.MaxInt32 / 32, math.MaxInt32, int32(r.U64() >> 33)} {
		m, err := d.SliceOutputLength(n)
		want := f.sliceLen(int(n))
		if want > math.MaxInt32 {
			x.Check(err != nil, "wrong length", "%s: SliceOutputLength(%d) is %d instead of an error", formatNames[f.kind], n, m)
		} else {
			x.Check(err == nil && int64(m) == want, "wrong length", "%s: SliceOutputLength(%d) is %d, %v instead of %d", formatNames[f.kind], n, m, err, want)
		}
	}
	d.Validate()
}

// use encodes and decodes.
func (c *shareCtx) use(o obj, r *core.Rng) {
	x, f := c.x, o.f
	typ := r.N(nTypes)
	n := r.Pick(0, 1, 2, 2, 3)
	how := r.N(3)
	if how == 0 {
		n = 1
	}
	var idx []int
	var sl cp.GenericPointSlice
	var want []byte
	refused, start := false, 0
	per, end := f.hs[hSingle], f.hs[fSingle]
	if how == 2 {
		per, end = f.hs[hPer], f.hs[fPer]
		want = append(want, f.hs[hSlice]...)
		want = binary.LittleEndian.AppendUint32(want, uint32(n))
	}
	for i := 0; i < n; i++ {
		k := r.N(nSub)
		if typ > tEfghSub && r.P(1, 3) {
			k = r.N(nPool)
		}
		q := newPoint(typ)
		load(q, pool[k].Pt)
		vary(q, r.U64()%100)
		idx = append(idx, k)
		sl = append(sl, q)
		if refused {
			continue
		}
		start = len(want)
		want = append(want, per...)
		if f.subOnly() && !pool[k].sub {
			refused = true
			continue
		}
		b, fits := f.body(pool[k].Pt)
		want = append(want, b...)
		if !fits {
			refused = true
			continue
		}
		want = append(want, end...)
	}
	if how == 2 && !refused {
		want = append(want, f.hs[fSlice]...)
	}
	if o.ser != nil {
		var w bytes.Buffer
		var m int
		var err error
		switch how {
		case 0:
			k, e := o.ser.SerializeCurvePoint(&w, sl[0])
			if m = k; e != nil {
				err = e
			}
		case 1:
			k, e := o.ser.SerializeCurvePoints(&w, sl)
			if m = k; e != nil {
				err = e
			}
		default:
			sw, can := o.ser.(sliceWriter)
			if !can {
				return
			}
			k, e := sw.SerializeSlice(&w, sl)
			if m = k; e != nil {
				err = e
			}
		}
		if refused && w.Len() == start { // whether the header of a refused point is written is left open
			want = want[:start]
		}
		if !bytes.Equal(w.Bytes(), want) || m != len(want) || (err != nil) != refused {
			x.Check(false, "wrong output", "%+v wrote %x (%d), %v instead of %x (refused: %v)", *f, w.Bytes(), m, err, want, refused)
		}
	}
	if o.ser != nil && r.P(1, 4) {
		w := &shortWriter{left: r.N(len(want) + 1)}
		var err error
		switch sw, can := o.ser.(sliceWriter); {
		case how == 0:
			if _, e := o.ser.SerializeCurvePoint(w, sl[0]); e != nil {
				err = e
			}
		case how == 1:
			if _, e := o.ser.SerializeCurvePoints(w, sl); e != nil {
				err = e
			}
		case can:
			if _, e := sw.SerializeSlice(w, sl); e != nil {
				err = e
			}
		}
		if !bytes.HasPrefix(want, w.got) || (err != nil) != (w.failed || refused) {
			x.Check(false, "wrong output", "%+v wrote %x, %v instead of a part of %x (failed: %v)", *f, w.got, err, want, w.failed)
		}
		c.spoil(err)
	}
	if refused {
		return
	}
	if r.P(1, 4) && len(want) > 0 {
		c.damaged(o, how, n, want, r)
	}
	rd := bytes.NewReader(want)
	trust := common.UntrustedInput
	if r.P(1, 2) {
		trust = common.TrustedInput
	}
	dtyp := r.N(nTypes)
	for _, k := range idx {
		if !pool[k].sub {
			dtyp = tAxtwFull + r.N(3)
		}
	}
	var m int
	var err error
	var got []cp.CurvePointPtrInterface
	switch how {
	case 0:
		q := newPoint(dtyp)
		got = append(got, q)
		k, e := o.dec().DeserializeCurvePoint(rd, trust, q)
		if m = k; e != nil {
			err = e
		}
	case 1:
		var g cp.GenericPointSlice
		for range idx {
			q := newPoint(dtyp)
			got, g = append(got, q), append(g, q)
		}
		k, e := o.dec().DeserializeCurvePoints(rd, trust, g)
		if m = k; e != nil {
			err = e
		}
	default:
		buf := make([]cp.Point_axtw_full, n)
		for i := range buf {
			got = append(got, &buf[i])
		}
		_, k, e := o.dec().DeserializeSlice(rd, trust, ps.UseExistingSlice[cp.Point_axtw_full, *cp.Point_axtw_full](buf))
		if m = k; e != nil {
			err = e
		}
	}
	if err != nil || m != len(want) || rd.Len() != 0 {
		x.Check(false, "spurious error", "%+v decoded %x: %d, %v", *f, want, m, err)
	}
	for i, q := range got {
		// formats with the sign of a coordinate tell points outside of the subgroup apart only if these are allowed
		p := pool[idx[i]]
		exact := !q.CanOnlyRepresentSubgroup()
		if f.kind == fXSignY && !p.sub {
			exact = true
		}
		if !holds(q, p.Pt, exact) {
			x.Check(false, "wrong point", "%+v decoded %x into %v instead of %v", *f, want, show(q), p.Pt)
		}
	}
}

// shortWriter is a full disk.
type shortWriter struct {
	got    []byte
	left   int
	failed bool
}

var errFull = errors.New("disk full")

func (w *shortWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.got, w.left, w.failed = append(w.got, p[:n]...), 0, true
		return n, errFull
	}
	w.got, w.left = append(w.got, p...), w.left-len(p)
	return len(p), nil
}

// spoil overwrites what an error gives access to: it belongs to the caller.
func (c *shareCtx) spoil(err error) {
	if err == nil {
		return
	}
	for _, v := range errorsWithData.GetData_map(err) {
		if b, ok := v.([]byte); ok && len(b) > 0 {
			for i := range b {
				b[i] ^= 0x5a
			}
			c.x.Probe("data of an error overwritten")
		}
	}
}

// damaged decodes a damaged stream.
func (c *shareCtx) damaged(o obj, how, n int, want []byte, r *core.Rng) {
	bad := append([]byte(nil), want...)
	i := r.N(len(bad))
	cut := r.P(1, 2)
	if cut {
		bad = bad[:i]
	} else {
		if r.P(1, 2) {
			i = r.N(min(len(bad), 4))
		}
		bad[i] ^= 1 << r.N(8)
	}
	rd := bytes.NewReader(bad)
	var err error
	var g cp.GenericPointSlice
	for i := 0; i < n; i++ {
		g = append(g, newPoint(tAxtwFull))
	}
	switch how {
	case 0:
		if _, e := o.dec().DeserializeCurvePoint(rd, common.UntrustedInput, g[0]); e != nil {
			err = e
		}
	case 1:
		if _, e := o.dec().DeserializeCurvePoints(rd, common.UntrustedInput, g); e != nil {
			err = e
		}
	default:
		maker := func(l int32) (any, cp.CurvePointSlice, error) {
			if l < 0 || int(l) > n {
				return nil, nil, errFull
			}
			return nil, g[:l], nil
		}
		if _, _, e := o.dec().DeserializeSlice(rd, common.UntrustedInput, maker); e != nil {
			err = e
		}
	}
	if cut && err == nil {
		c.x.Check(false, "missing error", "%+v decoded %x, cut from %x", *o.f, bad, want)
	}
	c.spoil(err)
}

func (c *shareCtx) run(op core.Op) {
	at, seed := uint64(op.Arg(0)), uint64(op.Arg(1))
	r := core.NewRng(seed)
	o := c.objs[at%uint64(len(c.objs))]
	names := o.f.params()
	name := names[r.N(len(names))]
	switch op.K {
	case "set":
		c.derive(o, name, r)
	case "get":
		c.get(o, name, r)
	case "bad":
		c.refuse(o, r)
	case "clone":
		if o.ser != nil {
			c.add(obj{ser: o.ser.Clone(), f: o.f})
		} else {
			c.add(obj{des: o.des.Clone(), f: o.f})
		}
	case "asdes":
		if o.ser != nil {
			c.add(obj{des: o.ser.AsDeserializer(), f: o.f})
		}
	case "facts":
		c.facts(o, r)
	case "use":
		c.use(o, r)
	case "post":
		c.box.mu.Lock()
		if len(c.box.objs) < 64 {
			c.box.objs = append(c.box.objs, o)
		}
		c.box.mu.Unlock()
	case "take":
		c.box.mu.Lock()
		if n := len(c.box.objs); n > 0 {
			o = c.box.objs[r.N(n)]
			c.x.Probe("object handed over")
		}
		c.box.mu.Unlock()
		c.add(o)
	}
}

func (c *shareCtx) finish(r *core.Rng, deep bool) {
	for _, f := range c.after {
		f()
	}
	c.after = nil
	for _, o := range c.objs {
		c.getters(o, r)
		if deep {
			c.facts(o, r)
			c.use(o, r)
		}
	}
}

func genShare(r *core.Rng, thorough bool) *core.Plan {
	p := &core.Plan{Cfg: map[string]int64{"kinds": int64(r.N(1 << nFormats)), "chain": int64(r.N(5)), "seed": int64(r.N(1 << 30)), "deep": core.B(r.P(1, 3))}}
	for n := r.Pick(1, 2, 2, 3, 4); n > 0; n-- {
		var ops []core.Op
		for k := r.In(2, 7); k > 0; k-- {
			ops = append(ops, core.Op{K: r.PickS("set", "set", "set", "get", "bad", "clone", "asdes", "facts", "use", "use", "use", "post", "take"), A: []int64{int64(r.N(1 << 16)), int64(r.N(1 << 30))}})
		}
		p.Threads = append(p.Threads, ops)
	}
	return p
}

func execShare(x *core.X) {
	c0 := &shareCtx{x: x, box: &mailbox{}}
	x.Seq(func() {
		for k := 0; k < nFormats; k++ {
			if x.Cfg["kinds"]>>k&1 == 1 || k == int(uint64(x.Cfg["seed"])%2) {
				f := formatOf(map[string]int64{"fmt": int64(k)})
				if f.kind == k { // present
					c0.add(obj{ser: base(k), f: &f})
				}
			}
		}
		r := core.NewRng(uint64(x.Cfg["seed"]))
		for i := int64(0); i < x.Cfg["chain"] && i < 16; i++ {
			o := c0.objs[r.N(len(c0.objs))]
			names := o.f.params()
			c0.derive(o, names[r.N(len(names))], r)
			if r.P(1, 4) {
				c0.run(core.Op{K: "asdes", A: []int64{int64(len(c0.objs) - 1)}})
			}
		}
	})
	var fns []func()
	ctxs := make([]*shareCtx, len(x.Threads))
	for t := range x.Threads {
		t := t
		c := &shareCtx{x: x, box: c0.box, objs: append(make([]obj, 0, maxObjs), c0.objs...)}
		ctxs[t] = c
		fns = append(fns, func() {
			for _, o := range x.Threads[t] {
				c.run(o)
			}
			c.finish(core.NewRng(uint64(t)), x.Cfg["deep"] == 1)
		})
	}
	x.Go(fns...)
	x.Seq(func() { c0.finish(core.NewRng(77), true) })
}

func init() {
	core.Register(&core.Scenario{Name: "share", Props: []string{"P14"}, Gen: genShare, Exec: execShare, Init: initPool})
}
