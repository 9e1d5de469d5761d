//go:build go1.22

package main

import (
	"encoding/binary"
	"errors"
	"io"
	"math"
	"math/big"

	be "github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/bridge"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/core"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/ref"
)

// The kinds of formats.
const (
	fShort = iota
	fLong
	fXY
	fXSignY
	fYSignX
	nFormats
)

var formatNames = []string{"Short", "Long", "XY", "XAndSignY", "YAndSignX"}

// The places of headers and footers.
const (
	hSingle = iota
	fSingle
	hSlice
	fSlice
	hPer
	fPer
	nHeaders
)

var headerNames = []string{"SinglePointHeader", "SinglePointFooter", "GlobalSliceHeader", "GlobalSliceFooter", "PerPointHeader", "PerPointFooter"}

type prefix struct {
	bits uint8
	len  uint8
}

func (p prefix) header() common.BitHeader {
	return common.MakeBitHeader(common.PrefixBits(p.bits), p.len)
}

// format is the reference model of a serializer.
type format struct {
	kind int
	big  bool // byte order
	sub  bool // SubgroupOnly
	bh   [2]prefix
	hs   [nHeaders][]byte
}

func (f format) clone() format {
	for i := range f.hs {
		f.hs[i] = append([]byte{}, f.hs[i]...)
	}
	return f
}

// elements is the number of field elements of a body.
func (f *format) elements() int {
	if f.kind == fLong || f.kind == fXY {
		return 2
	}
	return 1
}

func (f *format) bodyLen() int { return 32 * f.elements() }
func (f *format) oneLen() int  { return len(f.hs[hSingle]) + f.bodyLen() + len(f.hs[fSingle]) }

func (f *format) sliceLen(n int) int64 {
	return int64(len(f.hs[hSlice])+4+len(f.hs[fSlice])) + int64(n)*int64(len(f.hs[hPer])+f.bodyLen()+len(f.hs[fPer]))
}

// hasBitHeader tells which of the parameters BitHeader, BitHeader2 exist.
func (f *format) hasBitHeader(i int) bool {
	return f.kind == fLong || f.kind == fXY || (f.kind == fShort && i == 0)
}

// subOnly tells whether points outside of the subgroup are excluded.
func (f *format) subOnly() bool { return f.sub || f.kind == fShort || f.kind == fLong }

type elem struct {
	v *big.Int
	p prefix
}

// elems are the numbers and prefixes that make up the body.
func (f *format) elems(p ref.Pt) []elem {
	x, y := p.X, p.Y
	switch f.kind {
	case fShort, fLong:
		if ref.Sign(y) < 0 {
			x, y = ref.Neg(x), ref.Neg(y)
		}
		if f.kind == fShort {
			return []elem{{x, f.bh[0]}}
		}
		return []elem{{y, f.bh[0]}, {x, f.bh[1]}}
	case fXY:
		return []elem{{x, f.bh[0]}, {y, f.bh[1]}}
	case fXSignY:
		return []elem{{x, prefix{uint8(core.B(ref.Sign(y) < 0)), 1}}}
	}
	return []elem{{y, prefix{uint8(core.B(ref.Sign(x) < 0)), 1}}}
}

func (f *format) raw(e elem) (b []byte, fits bool) {
	if e.v.BitLen() > 256-int(e.p.len) {
		return nil, false
	}
	b = e.v.FillBytes(make([]byte, 32))
	if e.p.len > 0 {
		b[0] |= e.p.bits << (8 - e.p.len)
	}
	if !f.big {
		reverse(b)
	}
	return b, true
}

func reverse(b []byte) {
	for i := 0; i < len(b)/2; i++ {
		b[i], b[len(b)-1-i] = b[len(b)-1-i], b[i]
	}
}

// body encodes a point. If a prefix does not fit, fits is false and b is what comes before.
func (f *format) body(p ref.Pt) (b []byte, fits bool) {
	for _, e := range f.elems(p) {
		x, ok := f.raw(e)
		if !ok {
			return b, false
		}
		b = append(b, x...)
	}
	return b, true
}

func (f *format) pre(i int) prefix {
	if f.kind == fXSignY || f.kind == fYSignX {
		return prefix{0, 1}
	}
	return f.bh[i]
}

// split takes a field element apart.
func (f *format) split(b []byte, plen uint8) (v *big.Int, bits uint8) {
	b = append([]byte(nil), b[:32]...)
	if !f.big {
		reverse(b)
	}
	if plen > 0 {
		bits = b[0] >> (8 - plen)
		b[0] &= 0xff >> plen
	}
	return new(big.Int).SetBytes(b), bits
}

var semantic = []error{be.ErrXNotInSubgroup, be.ErrXNotOnCurve, be.ErrYNotOnCurve, be.ErrNotInSubgroup, be.ErrNotOnCurve, be.ErrWrongSignY,
	be.ErrUnexpectedNegativeZero, be.ErrInvalidZeroSignX, be.ErrInvalidSign, be.ErrCannotDeserializeNaP, be.ErrCannotDeserializeXYAllZero}

// want describes the point that a body encodes.
type want func(p ref.Pt) bool

// interpret decides what the numbers of a body mean: the point that they encode, or that they encode none.
func (f *format) interpret(vs []*big.Int, bits uint8, subOnly bool) (w want, ok bool) {
	sign := 1
	if bits != 0 {
		sign = -1
	}
	switch f.kind {
	case fShort:
		v := vs[0]
		if !ref.Class1(v) || !ref.XOnCurve(v) {
			return nil, false
		}
		return func(p ref.Pt) bool {
			x := p.X
			if ref.Sign(p.Y) < 0 {
				x = ref.Neg(x)
			}
			return ref.OnCurve(p.X, p.Y) && ref.Member(p.Y) && x.Cmp(v) == 0
		}, true
	case fLong:
		y, x := vs[0], vs[1]
		if ref.Sign(y) <= 0 || !ref.OnCurve(x, y) || !ref.Class1(x) {
			return nil, false
		}
		q := ref.Pt{X: x, Y: y}
		if !ref.Member(y) {
			q = q.PlusA()
		}
		return q.Eq, ref.Member(q.Y)
	case fXY:
		x, y := vs[0], vs[1]
		if !ref.OnCurve(x, y) || (subOnly && !ref.Member(y)) {
			return nil, false
		}
		return (ref.Pt{X: x, Y: y}).Eq, true
	case fXSignY:
		x := vs[0]
		if !ref.XOnCurve(x) || (subOnly && !ref.Class1(x)) {
			return nil, false
		}
		if subOnly {
			p, found := poolByX(x)
			if !found {
				p, _ = ref.LiftX(x)
			}
			if ref.Sign(p.Y) != sign {
				p = ref.Pt{X: p.X, Y: ref.Neg(p.Y)}
			}
			return p.Eq, ref.Member(p.Y)
		}
		return func(p ref.Pt) bool { return ref.OnCurve(p.X, p.Y) && p.X.Cmp(x) == 0 && ref.Sign(p.Y) == sign }, true
	}
	y := vs[0]
	if !ref.YOnCurve(y) || (subOnly && !ref.Member(y)) {
		return nil, false
	}
	if one := ref.Mul(y, y); one.Cmp(ref.One) == 0 {
		return (ref.Pt{X: new(big.Int), Y: y}).Eq, sign > 0
	}
	return func(p ref.Pt) bool { return ref.OnCurve(p.X, p.Y) && p.Y.Cmp(y) == 0 && ref.Sign(p.X) == sign }, true
}

func poolByX(x *big.Int) (ref.Pt, bool) {
	for _, e := range pool {
		if e.X.Cmp(x) == 0 {
			return e.Pt, true
		}
	}
	return ref.Pt{}, false
}

// parser follows the bytes of a stream.
type parser struct {
	f        *format
	src      []byte // what the stream will deliver
	pos      int
	failed   bool
	io       bool    // the stream may be what failed
	min, max int     // bounds for the number of bytes consumed
	sent     []error // errors that may be reported instead of an I/O error
	any      bool    // any error that is not an I/O error will do
}

func (p *parser) fail(min, max int, io bool, sent ...error) {
	p.failed, p.min, p.max, p.io, p.sent = true, min, max, io, sent
}

func (p *parser) literal(h []byte) {
	if p.failed || len(h) == 0 {
		return
	}
	if len(p.src)-p.pos < len(h) {
		p.fail(len(p.src), len(p.src), true)
		return
	}
	got := p.src[p.pos : p.pos+len(h)]
	p.pos += len(h)
	if string(got) != string(h) {
		p.fail(p.pos, p.pos, false, be.ErrDidNotReadExpectedString)
	}
}

// body parses the body of a point.
func (p *parser) body(subOnly bool) (w want) {
	if p.failed {
		return
	}
	var vs []*big.Int
	var bits uint8
	for i := 0; i < p.f.elements(); i++ {
		avail := min(32, len(p.src)-p.pos)
		pre := p.f.pre(i)
		expect := p.f.hasBitHeader(i) && pre.len > 0
		if expect && avail > 0 && (p.f.big || avail == 32) {
			b := p.src[p.pos]
			if !p.f.big {
				b = p.src[p.pos+31]
			}
			if b>>(8-pre.len) != pre.bits {
				p.fail(p.pos+1, p.pos+avail, avail < 32, fe.ErrPrefixMismatch)
				return
			}
		}
		if avail < 32 {
			p.fail(len(p.src), len(p.src), true)
			return
		}
		v, b := p.f.split(p.src[p.pos:], pre.len)
		if !p.f.hasBitHeader(i) {
			bits = b
		}
		p.pos += 32
		if v.Cmp(ref.P) >= 0 {
			p.fail(p.pos, p.pos, false, fe.ErrNonNormalizedDeserialization)
			return
		}
		vs = append(vs, v)
	}
	w, ok := p.f.interpret(vs, bits, subOnly)
	if !ok {
		p.fail(p.pos, p.pos, false, semantic...)
		return nil
	}
	return
}

// one parses a single point. got is set if the body was fine, even if the footer was not.
func (p *parser) one(subOnly bool) (got want) {
	p.literal(p.f.hs[hSingle])
	got = p.body(subOnly)
	p.literal(p.f.hs[fSingle])
	return
}

var errTooBig = errors.New("harness: declared slice is too big")

// sliceHead parses the start of a slice. declared is -1 if unknown.
func (p *parser) sliceHead() (declared int64) {
	p.literal(p.f.hs[hSlice])
	if p.failed {
		return -1
	}
	if len(p.src)-p.pos < 4 {
		p.fail(len(p.src), len(p.src), true)
		return -1
	}
	n := int64(binary.LittleEndian.Uint32(p.src[p.pos:]))
	p.pos += 4
	if n > math.MaxInt32 {
		p.fail(p.pos, p.pos, false, be.ErrSizeDoesNotFitInt32)
		return -1
	}
	return n
}

// checkCodes verifies that an error is one of those that the model allows, and returns whether it is an I/O error.
func (p *parser) checkErr(x *core.X, what string, err error, stream error, n int) (isIO bool) {
	if !p.any {
		for _, s := range p.sent {
			if errors.Is(err, s) {
				x.Check(!errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) && !errors.Is(err, core.ErrInjected), "wrong error", "%s: %q is reported as I/O error as well", what, err)
				return false
			}
		}
	} else {
		x.Check(!errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) && !errors.Is(err, core.ErrInjected), "wrong error", "%s: %q is reported as I/O error", what, err)
		return false
	}
	x.Check(p.io, "wrong error", "%s failed with %q, which is not the reason", what, err)
	if stream != io.EOF {
		x.Check(core.Keeps(err, stream), "lost error", "%s returned %q, which does not wrap the error of the stream", what, err)
		x.Check(core.NotEOF(err, stream), "wrong error", "%s presents an I/O error as end of file", what)
		return true
	}
	if n == 0 {
		x.Check(errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF), "wrong error", "%s: end of file at the start gave %q", what, err)
	} else {
		x.Check(errors.Is(err, io.ErrUnexpectedEOF) && !errors.Is(err, io.EOF), "wrong error", "%s: end of file within the data gave %q", what, err)
	}
	return true
}

// Generation and construction of formats.

func genFormat(r *core.Rng, c map[string]int64) {
	k := r.Pick(fShort, fShort, fShort, fLong, fLong, fXY, fXSignY, fYSignX)
	c["fmt"] = int64(k)
	c["big"] = int64(r.N(2))
	c["sub"] = int64(r.Pick(0, 0, 1))
	for i := 0; i < nHeaders; i++ {
		if r.P(1, 2) {
			c["h"+string(rune('0'+i))] = int64(r.Many(1, 2, 5, 9, 40))
		}
	}
	c["hs"] = int64(r.N(1 << 30))
	c["asdes"] = int64(r.N(2))
	if r.P(1, 4) {
		c["bl0"] = int64(1 + r.Pick(0, 1, 1, 2, 2, 3, 8))
		c["bv0"] = int64(r.N(256))
	}
	if r.P(1, 4) {
		c["bl1"] = int64(1 + r.Pick(0, 1, 1, 2, 2, 3, 8))
		c["bv1"] = int64(r.N(256))
	}
	c["chunk"] = int64(r.Pick(0, 0, 1, 2, 7, 16, 31, 33, 64))
	c["vary"] = int64(r.Pick(0, 1)) * int64(r.N(1<<30))
	c["shape"] = int64(r.Pick(0, 1)) * int64(r.N(1<<30))
}

// formatOf builds the model from a plan.
func formatOf(c map[string]int64) (f format) {
	f.kind = int(uint64(c["fmt"]) % nFormats)
	if bridge.Get(formatNames[f.kind]) == nil {
		f.kind %= 2
	}
	f.big = c["big"]&1 == 1
	f.sub = c["sub"]&1 == 1 && f.kind >= fXY
	switch f.kind {
	case fShort:
		f.bh[0] = prefix{1, 1}
	case fLong:
		f.bh[0], f.bh[1] = prefix{0, 2}, prefix{1, 1}
	}
	for i := 0; i < 2; i++ {
		k := string(rune('0' + i))
		if l := c["bl"+k]; l > 0 && f.hasBitHeader(i) {
			n := uint8((l - 1) % 9)
			f.bh[i] = prefix{uint8(c["bv"+k]) & uint8(1<<n-1), n}
		}
	}
	r := core.NewRng(uint64(c["hs"]))
	for i := range f.hs {
		n := c["h"+string(rune('0'+i))]
		if n < 0 {
			n = -n
		}
		f.hs[i] = r.Bytes(int(n % 512))
	}
	return
}

// base returns a serializer of the package without changed parameters.
func base(kind int) ps.CurvePointSerializerModifyable {
	switch kind {
	case fShort:
		return ps.BanderwagonShort
	case fLong:
		return ps.BanderwagonLong
	}
	return bridge.Get(formatNames[kind]).(ps.CurvePointSerializerModifyable)
}

func order(big bool) binary.ByteOrder {
	if big {
		return binary.BigEndian
	}
	return binary.LittleEndian
}

// build makes a serializer that has the format.
func (f *format) build() ps.CurvePointSerializerModifyable {
	s := base(f.kind)
	if f.big {
		s = s.WithEndianness(binary.BigEndian)
	}
	for i, n := range []string{"BitHeader", "BitHeader2"} {
		if f.hasBitHeader(i) {
			s = s.WithParameter(n, f.bh[i].header())
		}
	}
	if f.sub {
		s = s.WithParameter("SubgroupOnly", true)
	}
	for i, h := range f.hs {
		if len(h) > 0 {
			s = s.WithParameter(headerNames[i], append([]byte(nil), h...))
		}
	}
	return s
}

// both CurvePointSerializer and CurvePointDeserializer have what is needed for decoding.
type decoder = ps.CurvePointDeserializer

type sliceWriter interface {
	SerializeSlice(w io.Writer, p cp.CurvePointSlice) (int, ps.BatchSerializationError)
	SliceOutputLength(n int32) (int32, error)
}
