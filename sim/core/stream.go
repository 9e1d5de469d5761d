//go:build go1.22

package core

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"

	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/rt"
)

// Simulated streams. Everything that a real reader or writer may legally do is decided by a script.

// ErrInjected is the base of all injected I/O errors.
var ErrInjected = errors.New("injected I/O error")

// IOErr is an injected error. It is comparable and has an identity.
type IOErr struct {
	Code int64
	Tag  string
}

func (e *IOErr) Error() string { return fmt.Sprintf("injected I/O error %s #%d", e.Tag, e.Code) }

// Unwrap makes errors.Is(err, ErrInjected) true.
func (e *IOErr) Unwrap() error { return ErrInjected }

// eofErr is what a writer gives whose other end was closed "at the end of file", wrapped by a layer between.
type eofErr struct{ n int }

func (e *eofErr) Error() string { return "peer closed: " + io.EOF.Error() }
func (e *eofErr) Unwrap() error { return io.EOF }

var (
	readErrs  = []error{io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress}
	writeErrs = []error{io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe, &eofErr{1}}
)

// streamErr gives the error of a fault: mostly an injected one, but also those that real streams give.
func streamErr(kind, i int64, tag string, std []error) error {
	if kind < 1 || kind > int64(len(std)) {
		return &IOErr{i, tag}
	}
	return std[kind-1]
}

// Keeps tells whether err has the identity of the error of the stream. End of file may be turned into unexpected end of file.
func Keeps(err, stream error) bool {
	return errors.Is(err, stream) || errors.Is(stream, io.EOF) && errors.Is(err, io.ErrUnexpectedEOF)
}

// NotEOF tells that err does not look like an end of file, unless the error of the stream does.
func NotEOF(err, stream error) bool {
	if errors.Is(stream, io.EOF) {
		return true
	}
	return !errors.Is(err, io.EOF) && (stream == io.ErrUnexpectedEOF || !errors.Is(err, io.ErrUnexpectedEOF))
}

// Script controls a simulated stream.
//
// Reader faults: "eof" [off, style]: the stream ends at off; "err" [off, style, kind]: an error occurs once off bytes were delivered;
// style 1: together with the last bytes, 0: by a separate call; "flip" [off, mask]: a stored byte is damaged;
// "stall" [off, ns, n]: n calls that return nothing, taking ns of simulated time each.
// Writer faults: "err" [off, style, kind]: only off bytes are accepted (disk full, broken pipe), the call that exceeds them fails;
// style 1: the call that reaches exactly off bytes fails as well, although everything was accepted; "stall" [off, ns].
type Script struct {
	Faults []Op
	Chunk  int // maximal number of bytes per call, 0: unlimited
	Vary   uint64
	Shape  uint64 // 0: In gives the simulated stream itself, else something of a type that depends on this and the position
}

// Reader is a simulated byte source.
type Reader struct {
	X        *X
	Data     []byte
	Pos      int
	Calls    int
	MaxReq   int
	ErrSeen  error // the error that was returned last
	ErrOff   int   // where the error (or the end of the stream) is
	Err      error // the injected error, io.EOF for an ordinary end
	style    int64
	chunk    int
	stalls   []Op
	stalled  int
	vary     uint64
	fired    bool
	kind     string
	Failures int // calls that returned an error
	shape    uint64
}

// NewReader makes a reader from a script.
func NewReader(x *X, data []byte, s Script) *Reader {
	r := &Reader{X: x, Data: append([]byte(nil), data...), Err: io.EOF, ErrOff: len(data), chunk: s.Chunk, vary: s.Vary, shape: s.Shape}
	for i, f := range s.Faults {
		off := clamp(f.Arg(0), len(data))
		switch f.K {
		case "eof":
			if off < r.ErrOff {
				r.ErrOff, r.Err, r.style, r.kind = off, io.EOF, f.Arg(1), "read: truncated stream"
			}
		case "err":
			if off <= r.ErrOff {
				r.ErrOff, r.Err, r.style, r.kind = off, streamErr(f.Arg(2), int64(i), "read", readErrs), f.Arg(1), "read: I/O error"
			}
		case "flip":
			if off < len(r.Data) && byte(f.Arg(1)) != 0 {
				r.Data[off] ^= byte(f.Arg(1))
				x.Fault("read: flipped byte")
			}
		case "stall":
			r.stalls = append(r.stalls, f)
		}
	}
	return r
}

func clamp(v int64, n int) int {
	if v < 0 {
		v = -v
	}
	if v > int64(n) {
		v = v % int64(n+1)
	}
	return int(v)
}

func (r *Reader) Read(p []byte) (int, error) {
	rt.YieldNow()
	r.Calls++
	if len(p) > r.MaxReq {
		r.MaxReq = len(p)
	}
	if len(p) == 0 {
		return 0, nil
	}
	for i := range r.stalls {
		s := &r.stalls[i]
		if s.K != "" && r.Pos >= int(s.Arg(0)) {
			rt.Sleep(max(s.Arg(1), 1) % 1_000_000_000)
			r.X.Fault("read: stall")
			r.stalled++
			if int64(r.stalled) >= s.Arg(2)%8 {
				s.K = ""
				r.stalled = 0
			}
			return 0, nil
		}
	}
	n := min(len(p), r.ErrOff-r.Pos)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	if r.vary != 0 && n > 1 {
		r.vary = mix(r.vary)
		if r.vary%3 != 0 {
			n = 1 + int(r.vary>>8)%n
		}
	}
	copy(p, r.Data[r.Pos:r.Pos+n])
	if n < len(p) { // "may use all of p as scratch space during the call"
		p[n] ^= 0x55
	}
	r.Pos += n
	if r.Pos == r.ErrOff && (n == 0 || r.style == 1) {
		if !r.fired && r.kind != "" {
			r.fired = true
			r.X.Fault(r.kind)
		}
		r.ErrSeen = r.Err
		r.Failures++
		return n, r.Err
	}
	if n == 0 {
		panic("harness: simulated reader stuck")
	}
	if n < len(p) {
		r.X.Probe("short read")
	}
	return n, nil
}

// In gives what to read from: the simulated stream itself, or another kind of reader that delivers the same. done must be called before
// the accounting of the stream is looked at. What the reader's memory contains is overwritten then.
func (r *Reader) In() (in io.Reader, done func()) {
	kind := uint64(0)
	if r.shape != 0 {
		kind = mix(r.shape+uint64(r.Pos)) % 8
	}
	rest := r.ErrOff - r.Pos
	whole := r.Err == io.EOF && len(r.stalls) == 0
	mem := func(left func() int, buf []byte) func() {
		calls := r.Calls
		return func() {
			k := rest - left()
			r.Pos += k
			if r.Calls = calls; k > 0 {
				r.Calls++
			}
			for i := range buf {
				buf[i] ^= 0xa5
			}
		}
	}
	switch {
	case kind == 1 && whole:
		buf := append([]byte(nil), r.Data[r.Pos:r.ErrOff]...)
		b := bytes.NewBuffer(buf)
		r.X.Probe("stream is a bytes.Buffer")
		return b, mem(b.Len, buf)
	case kind == 2 && whole:
		buf := append([]byte(nil), r.Data[r.Pos:r.ErrOff]...)
		b := bytes.NewReader(buf)
		r.X.Probe("stream is a bytes.Reader")
		return b, mem(b.Len, buf)
	case kind == 3:
		b := bufio.NewReaderSize(r, 16+int(r.shape%64))
		r.X.Probe("stream is a bufio.Reader")
		return b, func() { r.Pos -= b.Buffered() }
	case kind == 4:
		l := int64(math.MaxInt64)
		if r.Err == io.EOF {
			l = int64(rest)
		}
		r.X.Probe("stream is an io.LimitedReader")
		return io.LimitReader(r, l), func() {}
	case kind == 5 || kind == 6:
		r.X.Probe("stream with more methods")
		return &richReader{r}, func() {}
	}
	return r, func() {}
}

// richReader is a stream that offers more than needed.
type richReader struct{ r *Reader }

func (r *richReader) Read(p []byte) (int, error) { return r.r.Read(p) }

// Len is the number of bytes that the stream has got by now.
func (r *richReader) Len() int { return r.r.ErrOff - r.r.Pos }

// ReadByte is part of [io.ByteReader].
func (r *richReader) ReadByte() (byte, error) {
	var b [1]byte
	for {
		if n, err := r.r.Read(b[:]); n == 1 {
			return b[0], nil
		} else if err != nil {
			return 0, err
		}
	}
}

// WriteTo is part of [io.WriterTo].
func (r *richReader) WriteTo(w io.Writer) (n int64, err error) {
	var b [512]byte
	for {
		k, e := r.r.Read(b[:])
		if k > 0 {
			m, e := w.Write(b[:k])
			if n += int64(m); e != nil {
				return n, e
			}
		}
		if e == io.EOF {
			return n, nil
		} else if e != nil {
			return n, e
		}
	}
}

// Deliverable is the number of bytes that can still be read before the error or the end.
func (r *Reader) Deliverable() int { return r.ErrOff - r.Pos }

// Writer is a simulated byte sink.
type Writer struct {
	X      *X
	Got    []byte
	Limit  int // -1: none
	Err    error
	style  int64
	stalls []Op
	Failed int // calls that failed
	Calls  int
	fired  bool
	whole  bool // the last failed call had taken everything
	shape  uint64
}

// NewWriter makes a writer from a script.
func NewWriter(x *X, s Script) *Writer {
	w := &Writer{X: x, Limit: -1, shape: s.Shape}
	for i, f := range s.Faults {
		switch f.K {
		case "err":
			off := clamp(f.Arg(0), 1<<20)
			if w.Limit < 0 || off < w.Limit {
				w.Limit, w.Err, w.style = off, streamErr(f.Arg(2), int64(i), "write", writeErrs), f.Arg(1)
			}
		case "stall":
			w.stalls = append(w.stalls, f)
		}
	}
	return w
}

func (w *Writer) Write(p []byte) (int, error) {
	rt.YieldNow()
	w.Calls++
	for i := range w.stalls {
		s := &w.stalls[i]
		if s.K != "" && len(w.Got) >= int(s.Arg(0)) {
			s.K = ""
			rt.Sleep(max(s.Arg(1), 1) % 1_000_000_000)
			w.X.Fault("write: stall")
		}
	}
	if w.Limit < 0 {
		w.Got = append(w.Got, p...)
		return len(p), nil
	}
	room := w.Limit - len(w.Got)
	if len(p) > room || (w.style == 1 && len(p) == room && len(p) > 0) {
		n := min(room, len(p))
		w.Got = append(w.Got, p[:n]...)
		w.Failed++
		w.whole = n == len(p)
		if !w.fired {
			w.fired = true
			if n == 0 {
				w.X.Fault("write: I/O error, nothing written")
			} else if n < len(p) {
				w.X.Fault("write: torn write")
			} else {
				w.X.Fault("write: error after a complete write")
			}
		}
		return n, w.Err
	}
	w.Got = append(w.Got, p...)
	return len(p), nil
}

// Out gives what to write to: the simulated sink itself or another kind of writer that accepts the same. done must be called before
// looking at the sink.
func (w *Writer) Out() (out io.Writer, done func()) {
	kind := uint64(0)
	if w.shape != 0 {
		kind = mix(w.shape+uint64(len(w.Got))) % 8
	}
	switch {
	case kind == 1 && w.Limit < 0:
		b := bytes.NewBufferString("before")
		w.X.Probe("sink is a bytes.Buffer")
		return b, func() {
			w.X.Check(b.Len() >= 6 && string(b.Bytes()[:6]) == "before", "wrong output", "what was in a buffer before was changed")
			b.Next(6)
			w.Got = append(w.Got, b.Bytes()...)
		}
	case kind == 2 && w.Limit < 0:
		b := bufio.NewWriterSize(w, 16+int(w.shape%64))
		w.X.Probe("sink is a bufio.Writer")
		return b, func() { b.Flush() }
	case kind >= 3 && kind <= 5:
		w.X.Probe("sink with more methods")
		return &richWriter{w}, func() {}
	}
	return w, func() {}
}

// richWriter is a sink that offers more than needed.
type richWriter struct{ w *Writer }

func (w *richWriter) Write(p []byte) (int, error)       { return w.w.Write(p) }
func (w *richWriter) WriteString(s string) (int, error) { return w.w.Write([]byte(s)) }
func (w *richWriter) Len() int                          { return len(w.w.Got) }
func (w *richWriter) WriteByte(b byte) error {
	_, err := w.w.Write([]byte{b})
	return err
}

// LastFailedComplete tells whether the call that failed last took all bytes nevertheless.
func (w *Writer) LastFailedComplete() bool { return w.whole }

// WouldFail predicts whether writing n bytes in one go, starting now, meets the fault, and how many bytes would be accepted.
func (w *Writer) WouldFail(n int) (accepted int, fail bool) {
	if w.Limit < 0 {
		return n, false
	}
	room := w.Limit - len(w.Got)
	if n > room || (w.style == 1 && n == room && n > 0) {
		return min(n, room), true
	}
	return n, false
}

func (r *Rng) errKind(n int) int64 {
	if r.P(3, 4) {
		return 0
	}
	return int64(r.In(1, n))
}

// ReadFaults draws a fault script for a stream of about n bytes. Some faults are placed near multiples of unit.
func (r *Rng) ReadFaults(n, unit int, flips bool) (f []Op) {
	for k := r.Pick(0, 1, 1, 1, 2, 3); k > 0; k-- {
		off := r.N(n + 1)
		if r.P(1, 2) && unit > 0 {
			off = r.N(n/unit+1)*unit + r.Pick(0, 0, 1, -1, r.N(unit))
			if off < 0 || off > n {
				off = 0
			}
		}
		switch r.N(6) {
		case 0, 1:
			f = append(f, Op{"eof", []int64{int64(off), int64(r.N(2))}})
		case 2, 3:
			f = append(f, Op{"err", []int64{int64(off), int64(r.N(2)), r.errKind(len(readErrs))}})
		case 4:
			f = append(f, Op{"stall", []int64{int64(off), int64(r.In(1, 1000000)), int64(r.In(1, 5))}})
		default:
			if flips {
				f = append(f, Op{"flip", []int64{int64(off), int64(1 << r.N(8))}})
			}
		}
	}
	return
}

// WriteFaults draws a fault script for about n bytes of output.
func (r *Rng) WriteFaults(n, unit int) (f []Op) {
	for k := r.Pick(0, 1, 1, 1, 2); k > 0; k-- {
		off := r.N(n + 1)
		if r.P(1, 2) && unit > 0 {
			off = r.N(n/unit+1)*unit + r.Pick(0, 0, 1, -1, r.N(unit))
			if off < 0 || off > n {
				off = 0
			}
		}
		if r.P(3, 4) {
			f = append(f, Op{"err", []int64{int64(off), int64(r.Pick(0, 0, 0, 1)), r.errKind(len(writeErrs))}})
		} else {
			f = append(f, Op{"stall", []int64{int64(off), int64(r.In(1, 1000000))}})
		}
	}
	return
}
