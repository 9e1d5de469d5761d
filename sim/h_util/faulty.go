//go:build go1.22

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/GottfriedHerold/Bandersnatch/internal/testutils"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/core"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/rt"
)

// Scenario faulty: readers, writers and others take turns in using a few fault-injecting buffers; the history is
// checked step by step against a model. Users of one buffer exclude each other by a lock; buffers are independent.

type designated struct{ id int }

func (d *designated) Error() string { return fmt.Sprint("designated error ", d.id) }

// fbModel is the model of a buffer.
type fbModel struct {
	mu             rt.Mutex
	fb             *testutils.FaultyBuffer
	err            error
	limit          int
	content        []byte
	in, out        int
	inBad, outBad  bool
	readBad, wrBad int // errors reported
}

func (m *fbModel) checkErr(x *core.X, what string, err error, first bool) {
	x.Check(errors.Is(err, m.err), "wrong error", "%s: error is %v, should be the designated one", what, err)
	if first {
		x.Check(err == m.err, "wrong error", "%s: first failure gave %v instead of the designated error itself", what, err)
		x.Fault("designated error")
	} else {
		x.Check(err != m.err && err.Error() != m.err.Error(), "wrong error", "%s: a repeated failure cannot be told from the first: %v", what, err)
		x.Fault("repeated error")
	}
}

func (m *fbModel) read(x *core.X, n int) {
	p := bytes.Repeat([]byte{0xA5}, n+3)
	got, err := m.fb.Read(p[:n])
	what := fmt.Sprintf("Read of %d bytes (%d of %d read before, %d there)", n, m.out, m.limit, len(m.content))
	wantN, bad, eof := 0, false, false
	again := m.outBad
	switch {
	case n == 0:
	case m.outBad:
		bad = true
	default:
		wantN = min(n, len(m.content), max(m.limit-m.out, 0))
		switch {
		case m.out+wantN == m.limit && n > wantN:
			bad = true
		case wantN == 0:
			eof = true
		}
	}
	x.Check(got == wantN, "wrong count", "%s gave %d bytes (%v), should be %d", what, got, err, wantN)
	x.Check(bytes.Equal(p[:wantN], m.content[:wantN]), "wrong bytes", "%s gave %x, should be %x", what, p[:wantN], m.content[:wantN])
	for i := wantN; i < len(p); i++ {
		x.Check(p[i] == 0xA5 || i < n, "wrong bytes", "%s wrote beyond its buffer", what)
	}
	m.content = m.content[wantN:]
	m.out += wantN
	switch {
	case bad:
		m.outBad = true
		m.checkErr(x, what, err, !again)
	case eof:
		x.Check(err == io.EOF, "wrong error", "%s: error is %v, should be EOF", what, err)
		x.Probe("end of file")
	default:
		x.Check(err == nil, "wrong error", "%s failed with %v", what, err)
	}
	if wantN > 0 && wantN < n && !bad {
		x.Probe("fewer bytes than asked for")
	}
}

func (m *fbModel) write(x *core.X, data []byte) {
	n := len(data)
	keep := append([]byte(nil), data...)
	got, err := m.fb.Write(data)
	what := fmt.Sprintf("Write of %d bytes (%d of %d written before)", n, m.in, m.limit)
	x.Check(bytes.Equal(keep, data), "wrong bytes", "%s changed its argument", what)
	for i := range data {
		data[i] = 0xEE
	}
	wantN, bad := 0, false
	again := m.inBad
	switch {
	case n == 0:
	case m.inBad:
		bad = true
	default:
		wantN = min(n, max(m.limit-m.in, 0))
		bad = wantN < n
	}
	x.Check(got == wantN, "wrong count", "%s accepted %d bytes (%v), should be %d", what, got, err, wantN)
	m.content = append(append([]byte(nil), m.content...), keep[:wantN]...)
	m.in += wantN
	if bad {
		m.inBad = true
		m.checkErr(x, what, err, !again)
		return
	}
	x.Check(err == nil, "wrong error", "%s failed with %v", what, err)
}

func (m *fbModel) look(x *core.X) {
	b := m.fb.Bytes()
	x.Check(bytes.Equal(b, m.content), "wrong bytes", "Bytes gives %x, should be %x", b, m.content)
}

func pattern(seed int64, n int) []byte { return core.NewRng(uint64(seed)).Bytes(n) }

func (m *fbModel) do(x *core.X, o core.Op) {
	size := int(o.Arg(1) & 0xfff)
	switch o.K {
	case "read":
		m.read(x, size)
	case "readfull": // what a user of the buffer as io.Reader does
		p := make([]byte, size)
		n, err := io.ReadFull(m.fb, p)
		want := min(size, len(m.content), max(m.limit-m.out, 0))
		if m.outBad {
			want = 0
		}
		x.Check(n == want && bytes.Equal(p[:n], m.content[:n]), "wrong bytes", "ReadFull of %d bytes gave %x, should be %x", size, p[:n], m.content[:want])
		m.content = m.content[want:]
		m.out += want
		switch {
		case want == size:
			x.Check(err == nil, "wrong error", "ReadFull of %d bytes failed with %v", size, err)
		case m.outBad || m.out == m.limit:
			x.Check(errors.Is(err, m.err), "wrong error", "ReadFull of %d bytes: error is %v", size, err)
			m.outBad = true
		case want == 0:
			x.Check(err == io.EOF, "wrong error", "ReadFull of %d bytes: error is %v", size, err)
		default:
			x.Check(err == io.ErrUnexpectedEOF, "wrong error", "ReadFull of %d bytes: error is %v", size, err)
		}
	case "write":
		m.write(x, pattern(o.Arg(2), size))
	case "reset":
		m.fb.Reset()
		m.content, m.in, m.out, m.inBad, m.outBad = nil, 0, 0, false, false
		x.Probe("reset")
	case "set":
		data := pattern(o.Arg(2), size)
		m.fb.SetContent(data)
		m.content = append([]byte(nil), data...)
		m.in, m.out, m.inBad, m.outBad = 0, 0, false, false
		for i := range data {
			data[i] = 0xEE
		}
		x.Probe("content set")
	}
	m.look(x)
}

func execFaulty(x *core.X) {
	nb := int(x.Cfg["buffers"]&3) + 1
	ms := make([]*fbModel, nb)
	for i := range ms {
		m := &fbModel{limit: int(x.Cfg[fmt.Sprint("limit", i)] & 0x3ff), err: &designated{i}}
		if x.Cfg["wrapped"]&1 != 0 {
			m.err = fmt.Errorf("wrapped %w", &designated{i})
		}
		m.fb = testutils.NewFaultyBuffer(m.limit, m.err)
		ms[i] = m
	}
	var fns []func()
	for _, ops := range x.Threads {
		ops := ops
		fns = append(fns, func() {
			for _, o := range ops {
				if o.K == "invalid" {
					invalid(x, o.Arg(0))
					continue
				}
				i := int(o.Arg(0)) % nb
				if i < 0 {
					i = -i
				}
				m := ms[i]
				m.mu.Lock()
				m.do(x, o)
				m.mu.Unlock()
			}
		})
	}
	x.Go(fns...)
	for _, m := range ms {
		m.look(x)
		x.Obs("%x %d %d", m.content, m.in, m.out)
	}
}

// invalid does what the documentation forbids.
func invalid(x *core.X, k int64) {
	var fb testutils.FaultyBuffer
	fs := []func(){
		func() { testutils.NewFaultyBuffer(5, nil) },
		func() { fb.Read(make([]byte, 1)) },
		func() { fb.Write(make([]byte, 1)) },
		func() { fb.Reset() },
		func() { fb.SetContent(make([]byte, 1)) },
		func() { fb.Bytes() },
		func() { fb.Read(nil) },
		func() { fb.Write(nil) },
	}
	k &= 7
	_, panicked := core.Try(fs[k])
	x.Check(panicked, "no panic", "invalid use %d of FaultyBuffer did not panic", k)
	x.Probe("refused")
}

func genFaulty(r *core.Rng, thorough bool) *core.Plan {
	nb := r.Pick(1, 1, 2, 3)
	p := &core.Plan{Cfg: map[string]int64{"buffers": int64(nb - 1), "wrapped": int64(r.N(2))}}
	limit := r.Pick(0, 1, 2, 5, 16, 32, 100, 700)
	for i := 0; i < nb; i++ {
		if r.P(1, 3) {
			limit = r.N(40)
		}
		p.Cfg[fmt.Sprint("limit", i)] = int64(limit)
	}
	size := func() int64 {
		switch r.N(8) {
		case 0:
			return 0
		case 1, 2:
			return int64(r.N(limit + 3))
		case 3:
			return int64(max(limit+r.In(-2, 2), 0))
		case 4:
			return int64(r.N(2*limit + 2))
		case 5:
			return int64(r.N(600))
		}
		return int64(r.N(8))
	}
	for t := r.In(1, 3); t > 0; t-- {
		var ops []core.Op
		for k := r.In(2, 16); k > 0; k-- {
			b := int64(r.N(nb))
			switch r.N(12) {
			case 0:
				ops = append(ops, core.Op{K: "reset", A: []int64{b}})
			case 1, 2:
				ops = append(ops, core.Op{K: "set", A: []int64{b, size(), int64(r.N(1 << 30))}})
			case 3, 4, 5:
				ops = append(ops, core.Op{K: "write", A: []int64{b, size(), int64(r.N(1 << 30))}})
			case 6:
				ops = append(ops, core.Op{K: "readfull", A: []int64{b, size()}})
			case 7:
				if r.P(1, 3) {
					ops = append(ops, core.Op{K: "invalid", A: []int64{int64(r.N(8))}})
				}
			default:
				ops = append(ops, core.Op{K: "read", A: []int64{b, size()}})
			}
		}
		p.Threads = append(p.Threads, ops)
	}
	return p
}

func init() {
	core.Register(&core.Scenario{Name: "faulty", Props: []string{"P17"}, Gen: genFaulty, Exec: execFaulty, Init: func() {}})
}
