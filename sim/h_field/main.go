//go:build go1.22

// Simulation of the binary encoding of field elements and 256-bit integers over faulty streams.
package main

import (
	"bytes"
	"errors"
	"io"
	"math/big"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/core"
)

func main() { core.Main("field") }

var modulus, _ = new(big.Int).SetString("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16)

func value(class int64, seed uint64) *big.Int {
	r := core.NewRng(seed)
	v := new(big.Int).SetBytes(r.Bytes(32))
	one := big.NewInt(1)
	switch class {
	case 0:
		return v.Mod(v, modulus)
	case 1:
		return big.NewInt(int64(r.N(300)))
	case 2:
		return v.Sub(modulus, big.NewInt(int64(r.In(1, 3))))
	case 3:
		return v.Add(modulus, big.NewInt(int64(r.N(3))))
	case 4:
		return v.Rsh(v, 1)
	case 5:
		return v
	case 6:
		return v.Sub(new(big.Int).Lsh(one, 256), one)
	case 7:
		return new(big.Int)
	case 8: // a few leading zero bits
		return v.Rsh(v, uint(r.N(12)))
	}
	return v.Mod(v, modulus)
}

// raw is the reference encoding.
func raw(v *big.Int, bigEndian bool, prefix uint8, prefixLen uint8) []byte {
	b := v.FillBytes(make([]byte, 32))
	if prefixLen > 0 {
		b[0] = b[0]&(0xff>>prefixLen) | prefix<<(8-prefixLen)
	}
	if !bigEndian {
		rev(b)
	}
	return b
}

func rev(b []byte) {
	for i := 0; i < len(b)/2; i++ {
		b[i], b[len(b)-1-i] = b[len(b)-1-i], b[i]
	}
}

// parse is the reference decoding.
func parse(b []byte, bigEndian bool, prefixLen uint8) (v *big.Int, prefix uint8) {
	b = append([]byte(nil), b...)
	if !bigEndian {
		rev(b)
	}
	if prefixLen > 0 {
		prefix = b[0] >> (8 - prefixLen)
		b[0] &= 0xff >> prefixLen
	}
	return new(big.Int).SetBytes(b), prefix
}

func words(v *big.Int) (z fe.Uint256) {
	b := v.FillBytes(make([]byte, 32))
	for i := 0; i < 4; i++ {
		for j := 0; j < 8; j++ {
			z[3-i] = z[3-i]<<8 | uint64(b[8*i+j])
		}
	}
	return
}

func feOf(v *big.Int) (z fe.FieldElement) {
	z.SetBigInt(v)
	return
}

func feValue(z fe.FieldElement) *big.Int { return z.ToBigInt() }

func endian(be bool) fe.FieldElementEndianness {
	if be {
		return fe.BigEndian
	}
	return fe.LittleEndian
}

var decodeKinds = []string{
	"u.get", "u.prefix", "u.expect", "u.get.buffer", "u.prefix.buffer", "u.get.bytes", "u.prefix.bytes",
	"f.get", "f.prefix", "f.expect", "F.get", "F.prefix", "F.expect",
}

var encodeKinds = []string{
	"u.put", "u.prefix", "u.put.buffer", "u.prefix.buffer", "u.put.bytes", "u.prefix.bytes",
	"f.put", "f.prefix", "F.put", "F.prefix",
}

// arguments of operations
const (
	aSeed = iota
	aClass
	aBig
	aPLen
	aPBits
	aWrong // decode: expect another prefix than the one in the stream
	aLen   // bytes variants: length of the slice
	nArgs
)

func genOps(r *core.Rng, kinds []string, n int) (ops []core.Op) {
	sub := kinds
	if r.P(1, 2) { // swarm: a subset of the operations
		sub = nil
		for k := r.In(1, 4); k > 0; k-- {
			sub = append(sub, kinds[r.N(len(kinds))])
		}
	}
	for ; n > 0; n-- {
		o := core.Op{K: sub[r.N(len(sub))], A: make([]int64, nArgs)}
		o.A[aSeed] = int64(r.N(1 << 30))
		o.A[aClass] = int64(r.N(9))
		o.A[aBig] = int64(r.N(2))
		o.A[aPLen] = int64(r.Pick(0, 1, 1, 2, 2, 3, 4, 7, 8, 8, 9))
		o.A[aPBits] = int64(r.N(256))
		o.A[aWrong] = core.B(r.P(1, 5))
		o.A[aLen] = int64(r.Pick(32, 32, 33, 40, 64, 0, 1, 31, r.N(32)))
		ops = append(ops, o)
	}
	return
}

func gen(kinds []string, write bool) func(r *core.Rng, thorough bool) *core.Plan {
	return func(r *core.Rng, thorough bool) *core.Plan {
		p := &core.Plan{Cfg: map[string]int64{}}
		n := r.Pick(1, 1, 2, 3)
		for t := 0; t < n; t++ {
			ops := genOps(r, kinds, r.In(1, 6))
			p.Threads = append(p.Threads, ops)
			if r.P(5, 6) {
				if write {
					p.Faults = append(p.Faults, core.At(t, r.WriteFaults(32*len(ops), 32))...)
				} else {
					p.Faults = append(p.Faults, core.At(t, r.ReadFaults(32*len(ops), 32, true))...)
				}
			}
		}
		p.Cfg["chunk"] = int64(r.Pick(0, 0, 1, 2, 7, 16, 31, 33))
		p.Cfg["vary"] = int64(r.Pick(0, 1)) * int64(r.N(1<<30))
		p.Cfg["shape"] = int64(r.Pick(0, 1)) * int64(r.N(1<<30))
		return p
	}
}

func norm(o core.Op) core.Op {
	a := make([]int64, nArgs)
	for i := range a {
		a[i] = o.Arg(i)
		if a[i] < 0 {
			a[i] = -a[i]
		}
	}
	a[aBig] &= 1
	a[aPLen] %= 10
	if l := a[aPLen]; l <= 8 {
		a[aPBits] &= 1<<l - 1
	}
	a[aLen] %= 100
	return core.Op{K: o.K, A: a}
}

func hasPrefix(kind string) bool {
	return len(kind) > 2 && (kind[2:] == "prefix" || kind[2:] == "expect" || kind[2:] == "prefix.buffer" || kind[2:] == "prefix.bytes")
}

type kept struct {
	err      error
	data     bandersnatchErrors.ReadErrorData
	text     string
	actually []byte
}

func execDecode(x *core.X) {
	var fns []func()
	for t := range x.Threads {
		t := t
		fns = append(fns, func() {
			var stream []byte
			ops := make([]core.Op, len(x.Threads[t]))
			for i, o := range x.Threads[t] {
				o = norm(o)
				ops[i] = o
				pl := o.A[aPLen]
				if !hasPrefix(o.K) || pl > 8 {
					pl = 0
				}
				stream = append(stream, raw(value(o.A[aClass], uint64(o.A[aSeed])), o.A[aBig] == 1, uint8(o.A[aPBits]), uint8(pl))...)
			}
			rd := core.NewReader(x, stream, core.Script{Faults: x.FaultsFor(t), Chunk: int(x.Cfg["chunk"]), Vary: uint64(x.Cfg["vary"]), Shape: uint64(x.Cfg["shape"])})
			var keep []kept
			for _, o := range ops {
				if k := decodeOne(x, o, rd); k != nil {
					keep = append(keep, *k)
				}
			}
			// errors stay what they were
			for _, k := range keep {
				d := k.err.(bandersnatchErrors.DeserializationError).GetData_struct()
				x.Check(k.err.Error() == k.text, "error changed", "error text changed after it had been returned")
				x.Check(bytes.Equal(d.ActuallyRead, k.actually) && d.BytesRead == k.data.BytesRead && d.PartialRead == k.data.PartialRead, "error changed", "error data changed after the error had been returned")
			}
		})
	}
	x.Go(fns...)
}

func flip(b []byte) {
	for i := range b {
		b[i] ^= 0xa5
	}
}

func decodeOne(x *core.X, o core.Op, rd *core.Reader) *kept {
	be := o.A[aBig] == 1
	en := endian(be)
	plen := uint8(o.A[aPLen])
	pbits := common.PrefixBits(o.A[aPBits])
	expect := hasPrefix(o.K) && o.K[2:] == "expect"
	if expect {
		if plen > 8 {
			plen = 8
		}
		if o.A[aWrong] == 1 && plen > 0 {
			pbits ^= 1
		}
	}
	isU := o.K[0] == 'u'
	var zu, zu0 fe.Uint256
	zu0 = words(value(5, uint64(o.A[aSeed]+1)))
	zu = zu0
	zf0 := feOf(value(0, uint64(o.A[aSeed]+2)))
	zf := zf0
	pos0 := rd.Pos
	calls0 := rd.Calls
	var n int
	var prefix common.PrefixBits
	var err bandersnatchErrors.DeserializationError
	consumed := func() int { return rd.Pos - pos0 }
	avail := rd.Deliverable()
	wantErr := rd.Err
	var src []byte // what is in the stream
	src = rd.Data[pos0:rd.ErrOff]
	checkRest := func() {}
	in, accounted := rd.In()
	scribble := func() {}
	switch o.K {
	case "u.get":
		n, err = zu.Deserialize(in, en)
	case "u.prefix":
		n, prefix, err = zu.DeserializeAndGetPrefix(in, plen, en)
	case "u.expect":
		n, err = zu.DeserializeWithExpectedPrefix(in, common.MakeBitHeader(pbits, plen), en)
	case "f.get":
		n, err = zf.Deserialize(in, en)
	case "f.prefix":
		n, prefix, err = zf.DeserializeAndGetPrefix(in, plen, en)
	case "f.expect":
		n, err = zf.DeserializeWithExpectedPrefix(in, common.MakeBitHeader(pbits, plen), en)
	case "F.get":
		n, err = fe.DeserializeFieldElement(&zf, in, en)
	case "F.prefix":
		n, prefix, err = fe.DeserializeFieldElementAndGetPrefix(&zf, in, plen, en)
	case "F.expect":
		n, err = fe.DeserializeFieldElementWithExpectedPrefix(&zf, in, common.MakeBitHeader(pbits, plen), en)
	case "u.get.buffer", "u.prefix.buffer", "u.get.bytes", "u.prefix.bytes":
		// in-memory variants: their input holds what the stream would still deliver
		src = append([]byte(nil), src...)
		wantErr = io.EOF
		if o.K == "u.get.bytes" || o.K == "u.prefix.bytes" {
			src = src[:min(len(src), int(o.A[aLen]))]
			in := append(make([]byte, 0, 80), src...)
			if len(src)%2 == 0 || plen%3 == 1 {
				in = in[:len(in):len(in)] // nothing behind the end
			}
			if o.K == "u.get.bytes" {
				n, err = zu.Deserialize_Bytes(in, en)
			} else {
				n, prefix, err = zu.DeserializeAndGetPrefix_Bytes(in, plen, en)
			}
			x.Check(bytes.Equal(in, src), "input modified", "%s changed its input", o.K)
			scribble = func() { flip(in) }
			consumed = func() int { return n }
		} else {
			mem := append([]byte(nil), src...)
			buf := bytes.NewBuffer(mem)
			scribble = func() { flip(mem) }
			if o.K == "u.get.buffer" {
				n, err = zu.Deserialize_Buffer(buf, en)
			} else {
				n, prefix, err = zu.DeserializeAndGetPrefix_Buffer(buf, plen, en)
			}
			c := len(src) - buf.Len()
			consumed = func() int { return c }
			checkRest = func() {
				x.Check(bytes.Equal(buf.Bytes(), src[c:]), "wrong rest", "%s left something else in the buffer than the bytes that follow", o.K)
			}
		}
		avail = len(src)
		rd.Pos += min(32, len(src))
	default:
		return nil
	}
	accounted()
	x.Obs("%v n=%d prefix=%d err=%v z=%x %x", o, n, prefix, err, zu, zf)
	if !expect && !hasPrefix(o.K) {
		plen = 0
	}
	untouched := func(what string) {
		x.Check(zu == zu0 && feValue(zf).Cmp(feValue(zf0)) == 0, "receiver modified", "%s modified its receiver although it failed with %s", o.K, what)
	}
	x.Check(n == consumed(), "wrong count", "%s reports %d bytes read, but %d were consumed", o.K, n, consumed())
	checkRest()
	var ret *kept
	if err != nil {
		d := err.GetData_struct()
		ret = &kept{err, d, err.Error(), append([]byte(nil), d.ActuallyRead...)}
	}
	scribble() // the memory belongs to the caller
	if hasPrefix(o.K) && !expect && plen > 8 {
		x.Check(err != nil && errors.Is(err, fe.ErrPrefixLengthInvalid), "wrong error", "%s: invalid prefix length gave %v", o.K, err)
		x.Check(n == 0 && rd.Calls == calls0, "wrong count", "%s read although its arguments are invalid", o.K)
		x.Check(!ret.data.PartialRead && ret.data.BytesRead == 0 && ret.data.ActuallyRead == nil, "wrong error data", "%s: %+v for invalid arguments", o.K, ret.data)
		untouched("invalid arguments")
		return ret
	}
	mismatch := false
	if expect && avail > 0 {
		// what the first byte says (big endian: readers may stop there)
		if be {
			mismatch = plen > 0 && src[0]>>(8-plen) != byte(pbits)
		} else if avail >= 32 {
			mismatch = plen > 0 && src[31]>>(8-plen) != byte(pbits)
		}
	}
	if err != nil && errors.Is(err, fe.ErrPrefixMismatch) {
		x.Check(mismatch, "wrong error", "%s reports a prefix mismatch, but the prefix is there", o.K)
		x.Check(n >= 1 && n <= 32, "wrong count", "%s read %d bytes", o.K, n)
		x.Check(ret.data.BytesRead == n && bytes.Equal(ret.data.ActuallyRead, src[:n]) && ret.data.PartialRead == (n != 32) && !ret.data.IoError, "wrong error data", "%s: n=%d but %+v", o.K, n, ret.data)
		untouched("a prefix mismatch")
		x.Probe("prefix mismatch")
		return ret
	}
	if avail < 32 {
		// the stream ends or fails within this object
		x.Check(err != nil, "missing error", "%s succeeded with %d of 32 bytes", o.K, avail)
		x.Check(n == avail, "wrong count", "%s read %d bytes of %d before the stream failed", o.K, n, avail)
		checkIOErr(x, o.K, err, wantErr, n)
		x.Check(ret.data.BytesRead == n && bytes.Equal(ret.data.ActuallyRead, src[:n]) && ret.data.PartialRead == (n != 0) && ret.data.IoError, "wrong error data", "%s: n=%d but %+v", o.K, n, ret.data)
		untouched("an I/O error")
		x.Probe("I/O error inside of an object")
		return ret
	}
	x.Check(!mismatch, "missing error", "%s accepted a wrong prefix", o.K)
	x.Check(n == 32, "wrong count", "%s read %d bytes", o.K, n)
	want, wantPrefix := parse(src[:32], be, plen)
	if hasPrefix(o.K) && !expect {
		x.Check(byte(prefix) == wantPrefix, "wrong prefix", "%s read prefix %#x instead of %#x", o.K, prefix, wantPrefix)
	}
	if isU {
		x.Check(err == nil, "spurious error", "%s failed on a good stream: %v", o.K, err)
		x.Check(zu == words(want), "wrong value", "%s read %x instead of %x", o.K, zu, words(want))
		return ret
	}
	if want.Cmp(modulus) >= 0 {
		x.Check(err != nil && errors.Is(err, fe.ErrNonNormalizedDeserialization), "wrong error", "%s: non-reduced number gave %v", o.K, err)
		x.Check(ret.data.BytesRead == 32 && bytes.Equal(ret.data.ActuallyRead, src[:32]) && !ret.data.PartialRead && !ret.data.IoError, "wrong error data", "%s: n=%d but %+v", o.K, n, ret.data)
		want.Mod(want, modulus)
		x.Probe("non-normalised number")
	} else {
		x.Check(err == nil, "spurious error", "%s failed on a good stream: %v", o.K, err)
	}
	x.Check(feValue(zf).Cmp(want) == 0, "wrong value", "%s read %v instead of %v", o.K, feValue(zf), want)
	return ret
}

// checkIOErr verifies that an I/O error keeps its identity.
func checkIOErr(x *core.X, what string, err error, want error, n int) {
	if want != io.EOF {
		x.Check(core.Keeps(err, want), "lost error", "%s returned %q, which does not wrap the error of the stream", what, err)
		x.Check(core.NotEOF(err, want), "wrong error", "%s presents an I/O error as end of file", what)
		return
	}
	if n == 0 {
		x.Check(errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF), "wrong error", "%s: end of file at the start gave %q", what, err)
	} else {
		x.Check(errors.Is(err, io.ErrUnexpectedEOF) && !errors.Is(err, io.EOF), "wrong error", "%s: end of file within the object gave %q", what, err)
	}
}

func execEncode(x *core.X) {
	var fns []func()
	for t := range x.Threads {
		t := t
		fns = append(fns, func() {
			w := core.NewWriter(x, core.Script{Faults: x.FaultsFor(t), Shape: uint64(x.Cfg["shape"])})
			for _, o := range x.Threads[t] {
				encodeOne(x, norm(o), w)
			}
		})
	}
	x.Go(fns...)
}

func encodeOne(x *core.X, o core.Op, w *core.Writer) {
	be := o.A[aBig] == 1
	en := endian(be)
	plen := uint8(min(o.A[aPLen], 8))
	pbits := common.PrefixBits(o.A[aPBits] & (1<<plen - 1))
	if !hasPrefix(o.K) {
		plen, pbits = 0, 0
	}
	bh := common.MakeBitHeader(pbits, plen)
	v := value(o.A[aClass], uint64(o.A[aSeed]))
	zu := words(v)
	zu0 := zu
	zf := feOf(v)
	if o.A[aLen]%2 == 0 {
		zf.RerandomizeRepresentation(uint64(o.A[aSeed]))
	}
	if o.K[0] != 'u' {
		v = new(big.Int).Mod(v, modulus)
	}
	fits := new(big.Int).Rsh(v, uint(256-int(plen))).Sign() == 0
	want := raw(v, be, uint8(pbits), plen)
	got0 := len(w.Got)
	calls0 := w.Calls
	accept, fail := w.WouldFail(32)
	var n int
	var err bandersnatchErrors.SerializationError
	out, accounted := w.Out()
	stream := true
	switch o.K {
	case "u.put":
		n, err = zu.Serialize(out, en)
	case "u.prefix":
		n, err = zu.SerializeWithPrefix(out, bh, en)
	case "f.put":
		n, err = zf.Serialize(out, en)
	case "f.prefix":
		n, err = zf.SerializeWithPrefix(out, bh, en)
	case "F.put":
		n, err = fe.SerializeFieldElement(&zf, out, en)
	case "F.prefix":
		n, err = fe.SerializeFieldElementWithPrefix(&zf, out, bh, en)
	case "u.put.buffer", "u.prefix.buffer":
		stream = false
		buf := bytes.NewBuffer([]byte("before"))
		if o.K == "u.put.buffer" {
			n, err = zu.Serialize_Buffer(buf, en)
		} else {
			n, err = zu.SerializeWithPrefix_Buffer(buf, bh, en)
		}
		x.Check(bytes.HasPrefix(buf.Bytes(), []byte("before")), "output damaged", "%s changed what was in the buffer before", o.K)
		if fits {
			x.Check(err == nil && n == 32 && bytes.Equal(buf.Bytes()[6:], want), "wrong output", "%s: n=%d err=%v output %x instead of %x", o.K, n, err, buf.Bytes()[6:], want)
		} else {
			x.Check(buf.Len() == 6, "wrong output", "%s wrote something although the prefix does not fit", o.K)
		}
	case "u.put.bytes", "u.prefix.bytes":
		stream = false
		beyond := make([]byte, o.A[aLen]+40)
		for i := range beyond {
			beyond[i] = 0xA5
		}
		out := beyond[:o.A[aLen]]
		if o.A[aSeed]&3 != 0 {
			out = out[:len(out):len(out)]
		}
		call := func() {
			if o.K == "u.put.bytes" {
				n, err = zu.Serialize_Bytes(out, en)
			} else {
				n, err = zu.SerializeWithPrefix_Bytes(out, bh, en)
			}
		}
		call()
		w0 := 0
		if fits && len(out) >= 32 {
			w0 = 32
			x.Check(err == nil && n == 32 && bytes.Equal(out[:32], want), "wrong output", "%s: n=%d err=%v output %x instead of %x", o.K, n, err, out[:32], want)
		} else {
			x.Check(err != nil && n == 0, "missing error", "%s: n=%d err=%v for a slice of length %d", o.K, n, err, len(out))
			if fits {
				d := err.GetData_struct()
				x.Check(!d.PartialWrite && d.BytesWritten == 0, "wrong error data", "%s: %+v", o.K, d)
				if len(out) == 0 {
					x.Check(errors.Is(err, io.EOF) && errors.Is(err, fe.ErrEmptyByteSlice), "wrong error", "%s: empty slice gave %v", o.K, err)
				} else {
					x.Check(errors.Is(err, io.ErrUnexpectedEOF) && errors.Is(err, fe.ErrTooSmallByteSlice), "wrong error", "%s: short slice gave %v", o.K, err)
				}
			}
		}
		for _, c := range beyond[w0:] {
			x.Check(c == 0xA5, "output damaged", "%s wrote outside of its 32 bytes", o.K)
		}
	default:
		return
	}
	accounted()
	x.Obs("%v n=%d err=%v out=%x", o, n, err, w.Got[got0:])
	x.Check(zu == zu0 && feValue(zf).Cmp(new(big.Int).Mod(value(o.A[aClass], uint64(o.A[aSeed])), modulus)) == 0, "operand modified", "%s changed the number it writes", o.K)
	if !fits {
		x.Check(err != nil && errors.Is(err, fe.ErrPrefixDoesNotFit), "wrong error", "%s: prefix that does not fit gave %v", o.K, err)
		d := err.GetData_struct()
		x.Check(n == 0 && len(w.Got) == got0 && w.Calls == calls0, "wrong output", "%s wrote something although the prefix does not fit", o.K)
		x.Check(!d.PartialWrite && d.BytesWritten == 0 && !d.IoError, "wrong error data", "%s: %+v", o.K, d)
		x.Probe("prefix does not fit")
		return
	}
	if !stream {
		return
	}
	x.Check(n == len(w.Got)-got0, "wrong count", "%s reports %d bytes written, but %d were accepted", o.K, n, len(w.Got)-got0)
	x.Check(bytes.Equal(w.Got[got0:], want[:min(len(w.Got)-got0, 32)]), "wrong output", "%s wrote %x instead of (a prefix of) %x", o.K, w.Got[got0:], want)
	if fail {
		x.Check(err != nil, "missing error", "%s hides an I/O error (%d of 32 bytes written)", o.K, accept)
		x.Check(core.Keeps(err, w.Err), "lost error", "%s returned %q, which does not wrap the error of the stream", o.K, err)
		d := err.GetData_struct()
		x.Check(d.BytesWritten == n && d.PartialWrite == (n != 0 && n != 32) && d.IoError, "wrong error data", "%s: n=%d but %+v", o.K, n, d)
		x.Probe("write failed")
		return
	}
	x.Check(err == nil && n == 32, "spurious error", "%s: n=%d err=%v without any fault", o.K, n, err)
}

func init() {
	core.Register(&core.Scenario{Name: "field-decode", Props: []string{"P06"}, Gen: gen(decodeKinds, false), Exec: execDecode})
	core.Register(&core.Scenario{Name: "field-encode", Props: []string{"P07"}, Gen: gen(encodeKinds, true), Exec: execEncode})
}
