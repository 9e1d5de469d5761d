//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"io"

	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"
	cp "github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
	ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/core"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/ref"
	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/rt"
)

// A small replication system: a source node writes a fixed sequence of points to a log on a disk, relay nodes read a log and write
// another one in a different format, readers follow a log. All positions are computed from what the library reports. Writing nodes
// crash and restart, with only the durable part of their disk (and an arbitrary part of what was not yet durable) surviving.

const (
	logNode  = iota // a node that writes a log
	readNode        // a node that reads one
)

// arguments of a node
const (
	nMode = iota // logs: 0 points, 1 slices
	nTyp
	nSeed
	nFrom // which log is read; 0: none (the source)
	nNodeArgs
)

type crashed struct{}

// logFile is a log on a simulated disk.
type logFile struct {
	x       *core.X
	f       format
	ser     ps.CurvePointSerializerModifyable
	slices  bool
	seed    uint64
	data    []byte
	durable int
	total   int // bytes ever accepted
	syncs   int64
	faults  []core.Op
	acked   int // points that the node was told to be durable
	writer  int // incarnation of the writing node
	done    bool
	n       int
	lost    int64
}

// Write appends to the log.
func (d *logFile) Write(p []byte) (int, error) {
	rt.YieldNow()
	for i := range d.faults {
		f := &d.faults[i]
		off := int(uint64(f.Arg(0))%4096) - d.total
		if f.K == "" || f.K == "syncfail" || off < 0 {
			continue
		}
		if off > len(p) || (off == len(p) && (f.Arg(1)%2 == 0 || off == 0)) {
			continue
		}
		k := f.K
		f.K = ""
		switch k {
		case "crash":
			d.data = append(d.data, p[:off]...)
			d.total += off
			d.lost = f.Arg(2)
			panic(crashed{})
		case "werr":
			d.data = append(d.data, p[:off]...)
			d.total += off
			d.x.Fault("write: I/O error or full disk")
			return off, &core.IOErr{Code: int64(i), Tag: "write"}
		case "wstall":
			d.x.Fault("write: stall")
			rt.Sleep(max(f.Arg(2), 1) % 1_000_000)
		}
	}
	d.data = append(d.data, p...)
	d.total += len(p)
	return len(p), nil
}

// sync makes the log durable.
func (d *logFile) sync() {
	rt.YieldNow()
	d.syncs++
	for i := range d.faults {
		f := &d.faults[i]
		if f.K == "syncfail" && f.Arg(0)%8 == d.syncs%8 {
			f.K = ""
			if f.Arg(1)%2 == 1 { // the data was written, the caller never learns
				d.durable = len(d.data)
			}
			d.lost = f.Arg(2)
			panic(crashed{})
		}
	}
	d.durable = len(d.data)
}

// crash is what a power failure does to the disk.
func (d *logFile) crash() {
	if un := len(d.data) - d.durable; un > 0 {
		keep := core.NewRng(uint64(d.lost)).N(un + 1)
		if keep < un {
			d.x.Fault("crash: unsynced bytes lost")
		} else {
			d.x.Fault("crash: nothing lost")
		}
		d.data = d.data[:d.durable+keep]
	} else {
		d.x.Fault("crash: nothing lost")
	}
	d.durable = len(d.data)
}

func (d *logFile) truncate(n int) {
	d.x.Check(n <= len(d.data), "lost data", "%d bytes should be kept, but the log has only %d", n, len(d.data))
	d.data = d.data[:n]
	d.durable = min(d.durable, n)
}

// sizeAt is the size of the slice that starts with point k.
func (d *logFile) sizeAt(k int) int {
	r := core.NewRng(d.seed ^ uint64(k)*0x9e3779b97f4a7c15)
	return min(1+r.N(4), d.n-k)
}

// follower reads a log.
type follower struct {
	x     *core.X
	lf    *logFile
	des   decoder
	typ   int
	rng   *core.Rng
	pos   int
	count int
	conns int64
	net   []core.Op
	chunk int
	vary  uint64
	want  []ref.Pt
	sink  func(q cp.CurvePointPtrInterface)
	who   string
}

// poll makes one connection and reads as far as possible.
func (r *follower) poll() (progress int) {
	x, lf := r.x, r.lf
	r.conns++
	var script core.Script
	script.Chunk, script.Vary, script.Shape = r.chunk, r.vary, r.vary*uint64(r.conns)
	for _, f := range r.net {
		if f.K == "net" && f.Arg(0)%6 == r.conns%6 && r.conns <= 6 {
			switch f.Arg(1) % 3 {
			case 0:
				script.Faults = append(script.Faults, core.Op{K: "eof", A: []int64{f.Arg(2), f.Arg(3) % 2}})
			case 1:
				script.Faults = append(script.Faults, core.Op{K: "err", A: []int64{f.Arg(2), f.Arg(3) % 2}})
			default:
				script.Faults = append(script.Faults, core.Op{K: "stall", A: []int64{f.Arg(2) % 200, 1000 + f.Arg(3)%1000, 2}})
			}
		}
	}
	rt.YieldNow()
	if r.pos > len(lf.data) { // the writer crashed and lost what had been read already
		x.Probe("log: reader ahead of a restarted writer")
		return 0
	}
	rd := core.NewReader(x, lf.data[r.pos:], script)
	trust := common.IsInputTrusted(trustOf(r.rng.P(1, 3)))
	for {
		start := rd.Pos
		in, accounted := rd.In()
		var n, done int
		var pts []cp.CurvePointPtrInterface
		var err error
		step := 0
		switch {
		case lf.slices:
			t := makeTargets(r.typ, 0, contTyped, initial(0))
			_, m, e := r.des.DeserializeSlice(in, trust, t.fresh)
			n = m
			if e != nil {
				err = e
			} else {
				for i := 0; i < t.last.Len(); i++ {
					pts = append(pts, t.last.GetByIndex(i))
				}
				done, step = len(pts), n
				x.Check(done == lf.sizeAt(r.count), "wrong slice", "%s: slice at point %d has %d points instead of %d", r.who, r.count, done, lf.sizeAt(r.count))
			}
		default:
			m := r.rng.In(1, 4)
			t := makeTargets(r.typ, m, contTyped, initial(r.rng.U64()))
			if r.rng.P(1, 4) {
				k, e := r.des.DeserializeCurvePoint(in, trust, t.ptrs[0])
				n = k
				if e != nil {
					err = e
				} else {
					done = 1
				}
			} else if r.rng.P(1, 2) {
				k, e := r.des.DeserializeCurvePoints(in, trust, t.slice)
				n, done = k, m
				if e != nil {
					err = e
					done = e.GetData_struct().PointsDeserialized
				}
			} else {
				k, w, e := ps.DeserializeCurvePoints_Bounded(r.des, in, trust, t.slice)
				n, done = k, w
				if e != nil {
					err = e
				} else if w < m {
					err = io.EOF // that is what it means
					x.Check(n == w*lf.f.oneLen(), "wrong count", "%s: bounded read took %d bytes for %d points", r.who, n, w)
				}
			}
			x.Check(done >= 0 && done <= len(t.ptrs), "wrong count", "%s: %d points of %d", r.who, done, len(t.ptrs))
			pts = t.ptrs[:done]
			step = done * lf.f.oneLen()
		}
		accounted()
		x.Check(n == rd.Pos-start, "wrong count", "%s: %d bytes reported, %d taken", r.who, n, rd.Pos-start)
		x.Check(step <= n, "wrong count", "%s: %d points in %d bytes", r.who, done, n)
		for _, q := range pts {
			x.Check(r.count < len(r.want), "too many points", "%s obtained more points than were written", r.who)
			if !holds(q, r.want[r.count], true) {
				x.Check(false, "wrong point", "%s: point %d of the sequence is %v instead of %v", r.who, r.count, show(q), r.want[r.count])
			}
			r.count++
			progress++
			if r.sink != nil {
				r.sink(q)
			}
		}
		r.pos += step
		if err == nil {
			continue
		}
		switch {
		case errors.Is(err, core.ErrInjected):
			x.Check(rd.Err != io.EOF, "wrong error", "%s: %q on a healthy connection", r.who, err)
		case errors.Is(err, io.ErrUnexpectedEOF):
			x.Check(rd.Err == io.EOF && rd.Deliverable() == 0, "wrong error", "%s: %q, but the connection did not end", r.who, err)
			x.Probe("log: torn end seen by a reader")
		case errors.Is(err, io.EOF):
			x.Check(rd.Err == io.EOF && rd.Deliverable() == 0 && n == step, "wrong error", "%s: %q in the middle of data (%d bytes)", r.who, err, n)
		default:
			x.Check(false, "wrong error", "%s: %q for bytes that were written as they are", r.who, err)
		}
		return
	}
}

// writerNode is a node that writes a log.
type writerNode struct {
	x    *core.X
	lf   *logFile
	up   *logFile // nil: source
	typ  int
	seed uint64
	want []ref.Pt
	net  []core.Op
	cfg  map[string]int64
	who  string
}

func (w *writerNode) follower(lf *logFile, who string, typ int, net []core.Op) *follower {
	return newFollower(w.x, lf, who, typ, w.seed, net, w.cfg, w.want)
}

func newFollower(x *core.X, lf *logFile, who string, typ int, seed uint64, net []core.Op, cfg map[string]int64, want []ref.Pt) *follower {
	r := &follower{x: x, lf: lf, des: lf.ser, typ: typ, rng: core.NewRng(seed), net: net, chunk: int(uint64(cfg["chunk"]) % 100), vary: uint64(cfg["vary"]), want: want, who: who}
	if seed%2 == 1 {
		r.des = lf.ser.AsDeserializer()
	}
	return r
}

func (w *writerNode) run() {
	for {
		val, panicked := core.Try(w.incarnation)
		if !panicked {
			return
		}
		if _, ok := val.(crashed); !ok {
			panic(val)
		}
		w.lf.crash()
		rt.Sleep(1000)
		w.lf.writer++
		w.x.Obs("crash of %s, %d bytes left", w.who, len(w.lf.data))
	}
}

func (w *writerNode) incarnation() {
	x, lf := w.x, w.lf
	// recovery
	own := w.follower(lf, w.who+" (recovery)", w.typ, nil)
	own.poll()
	k := own.count
	x.Check(k >= lf.acked, "lost data", "%s: only %d points are left after a restart, but %d had been made durable", w.who, k, lf.acked)
	if lf.writer > 0 {
		x.Probe("log: recovered")
		if own.pos < len(lf.data) {
			x.Probe("log: torn tail removed")
		}
	}
	lf.truncate(own.pos)
	r := core.NewRng(w.seed + uint64(lf.writer)*7919)
	var queue []cp.CurvePointPtrInterface
	var up *follower
	if w.up != nil {
		up = w.follower(w.up, w.who+" (input)", w.typ, w.net)
		if !w.up.slices {
			up.pos, up.count = k*w.up.f.oneLen(), k
		}
		up.sink = func(q cp.CurvePointPtrInterface) {
			if up.count > k { // the others are in our log already
				queue = append(queue, q)
			}
		}
	}
	for k < len(w.want) {
		m := r.In(1, 3)
		if lf.slices {
			m = lf.sizeAt(k)
		}
		m = min(m, len(w.want)-k)
		// get the points
		var pts cp.GenericPointSlice
		if up == nil {
			for i := 0; i < m; i++ {
				q := newPoint(w.typ)
				load(q, w.want[k+i])
				vary(q, r.U64()%1000)
				pts = append(pts, q)
			}
		} else {
			for idle := 0; len(queue) < m; {
				k0 := k
				if up.poll() > 0 {
					idle = 0
					continue
				}
				_ = k0
				if idle++; idle > 2000 {
					x.Violate("no progress", "%s gets no further than point %d of %d", w.who, up.count, len(w.want))
				}
				rt.Sleep(int64(1000 + idle*1000))
			}
			pts = append(pts, queue[:m]...)
			queue = queue[m:]
		}
		start := len(lf.data)
		var n, done int
		var err error
		switch {
		case lf.slices:
			c, e := lf.ser.(sliceWriter).SerializeSlice(lf, pts)
			n = c
			if e != nil {
				err = e
			} else {
				done = m
			}
		case m == 1 && r.P(1, 2):
			c, e := lf.ser.SerializeCurvePoint(lf, pts[0])
			n = c
			if e != nil {
				err = e
			} else {
				done = 1
			}
		default:
			c, e := lf.ser.SerializeCurvePoints(lf, pts)
			n, done = c, m
			if e != nil {
				err = e
				done = e.GetData_struct().PointsSerialized
			}
		}
		x.Check(n == len(lf.data)-start, "wrong count", "%s: %d bytes reported, %d written", w.who, n, len(lf.data)-start)
		if err != nil {
			x.Check(errors.Is(err, core.ErrInjected), "wrong error", "%s: %q", w.who, err)
			if lf.slices {
				lf.truncate(start)
			} else {
				lf.truncate(start + done*lf.f.oneLen())
			}
			if up != nil {
				queue = append(append([]cp.CurvePointPtrInterface(nil), pts[done:]...), queue...)
			}
			x.Probe("log: append failed, tail removed")
		}
		k += done
		if r.P(1, 2) {
			lf.sync()
			lf.acked = k
		}
	}
	lf.sync()
	lf.acked = k
	lf.done = true
	x.Obs("%s done, %d bytes", w.who, len(lf.data))
}

func subCfg(c map[string]int64, j int) map[string]int64 {
	m := map[string]int64{}
	p := string(rune('a' + j))
	for _, k := range []string{"fmt", "big", "sub", "h0", "h1", "h2", "h3", "h4", "h5", "hs", "bl0", "bv0", "bl1", "bv1"} {
		m[k] = c[p+k]
	}
	return m
}

const maxLogs = 3

func genLog(r *core.Rng, thorough bool) *core.Plan {
	p := &core.Plan{Cfg: map[string]int64{}}
	p.Cfg["n"] = int64(r.In(1, 10))
	if r.P(1, 25) {
		p.Cfg["n"] = int64(r.In(11, 60))
	}
	p.Cfg["pts"] = int64(r.N(1 << 30))
	p.Cfg["full"] = int64(r.N(2))
	logs := r.Pick(1, 2, 2, 3)
	full := p.Cfg["full"] == 1
	typ := func() int64 {
		if full {
			return int64(r.In(tAxtwFull, tEfghFull))
		}
		return int64(r.N(nTypes))
	}
	unit := 0
	for j := 0; j < logs; j++ {
		c := map[string]int64{}
		genFormat(r, c)
		if full && c["fmt"] < fXY {
			c["fmt"] = int64(r.In(fXY, fYSignX))
		}
		if full {
			c["sub"] = 0
		}
		for k, v := range c {
			if k == "chunk" || k == "vary" {
				p.Cfg[k] = v
			} else {
				p.Cfg[string(rune('a'+j))+k] = v
			}
		}
		f := formatOf(c)
		unit = f.oneLen()
		p.Threads = append(p.Threads, []core.Op{{K: "log", A: []int64{int64(r.N(2)), typ(), int64(r.N(1 << 30)), int64(r.N(j + 1))}}})
	}
	for k := r.Pick(0, 1, 1, 2); k > 0; k-- {
		p.Threads = append(p.Threads, []core.Op{{K: "read", A: []int64{0, typ(), int64(r.N(1 << 30)), int64(r.N(logs) + 1)}}})
	}
	size := unit * int(p.Cfg["n"])
	for t := range p.Threads {
		if t < logs {
			for k := r.Pick(0, 1, 1, 2, 3); k > 0; k-- {
				off := int64(r.N(size + size/2 + 1))
				switch r.N(6) {
				case 0, 1, 2:
					p.Faults = append(p.Faults, core.Op{K: fmt.Sprintf("crash@%d", t), A: []int64{off, int64(r.N(2)), int64(r.N(1 << 20))}})
				case 3:
					p.Faults = append(p.Faults, core.Op{K: fmt.Sprintf("werr@%d", t), A: []int64{off, int64(r.Pick(0, 0, 1))}})
				case 4:
					p.Faults = append(p.Faults, core.Op{K: fmt.Sprintf("syncfail@%d", t), A: []int64{int64(r.In(1, 6)), int64(r.N(2)), int64(r.N(1 << 20))}})
				default:
					p.Faults = append(p.Faults, core.Op{K: fmt.Sprintf("wstall@%d", t), A: []int64{off, 0, int64(r.N(100000))}})
				}
			}
		}
		for k := r.Pick(0, 0, 1, 2); k > 0; k-- {
			p.Faults = append(p.Faults, core.Op{K: fmt.Sprintf("net@%d", t), A: []int64{int64(r.In(1, 4)), int64(r.N(3)), int64(r.N(size + 1)), int64(r.N(2))}})
		}
	}
	return p
}

func execLog(x *core.X) {
	n := int(uint64(x.Cfg["n"]) % 64)
	// the nodes
	type node struct {
		t    int
		read bool
		a    [nNodeArgs]int64
	}
	var logs, reads []node
	for t, ops := range x.Threads {
		if len(ops) == 0 {
			continue
		}
		nd := node{t: t, read: ops[0].K == "read"}
		for i := range nd.a {
			if nd.a[i] = ops[0].Arg(i); nd.a[i] < 0 {
				nd.a[i] = -(nd.a[i] + 1)
			}
		}
		nd.a[nTyp] %= nTypes
		if nd.read {
			reads = append(reads, nd)
		} else if len(logs) < maxLogs {
			logs = append(logs, nd)
		}
	}
	if len(logs) == 0 {
		return
	}
	// the formats, and which points can travel
	sub := x.Cfg["full"]&1 == 0
	var files []*logFile
	for j, nd := range logs {
		lf := &logFile{x: x, f: formatOf(subCfg(x.Cfg, j)), slices: nd.a[nMode]%2 == 1, seed: uint64(nd.a[nSeed]), n: n}
		sub = sub || lf.f.subOnly() || nd.a[nTyp] <= tEfghSub
		files = append(files, lf)
	}
	for _, nd := range reads {
		sub = sub || nd.a[nTyp] <= tEfghSub
	}
	r := core.NewRng(uint64(x.Cfg["pts"]))
	var want []ref.Pt
	for i := 0; i < n; i++ {
		k := r.N(nSub)
		if !sub && r.P(1, 2) {
			k = nSub + r.N(nFull)
		}
		want = append(want, pool[k].Pt)
	}
	for _, lf := range files {
		for _, p := range want {
			if _, fits := lf.f.body(p); !fits {
				g := map[string]int64{"fmt": int64(lf.f.kind)}
				d := formatOf(g)
				lf.f.bh = d.bh
			}
		}
		lf.ser = lf.f.build()
		if _, can := lf.ser.(sliceWriter); !can {
			lf.slices = false
		}
	}
	var fns []func()
	for j, nd := range logs {
		j, nd := j, nd
		w := &writerNode{x: x, lf: files[j], typ: int(nd.a[nTyp]), seed: uint64(nd.a[nSeed]), want: want, cfg: x.Cfg, who: fmt.Sprintf("node %d", j)}
		if j > 0 && nd.a[nFrom] > 0 {
			w.up = files[(nd.a[nFrom]-1)%int64(j)]
		}
		for _, f := range x.FaultsFor(nd.t) {
			if f.K == "net" {
				w.net = append(w.net, f)
			} else {
				files[j].faults = append(files[j].faults, f)
			}
		}
		fns = append(fns, w.run)
	}
	for i, nd := range reads {
		nd := nd
		lf := files[int(nd.a[nFrom])%len(files)]
		fl := newFollower(x, lf, fmt.Sprintf("reader %d", i), int(nd.a[nTyp]), uint64(nd.a[nSeed]), x.FaultsFor(nd.t), x.Cfg, want)
		fns = append(fns, func() {
			for idle := 0; fl.count < n; {
				if fl.poll() > 0 {
					idle = 0
					continue
				}
				if idle++; idle > 2000 {
					x.Violate("no progress", "%s gets no further than point %d of %d", fl.who, fl.count, n)
				}
				rt.Sleep(int64(1000 + idle*1000))
			}
			x.Obs("%s done", fl.who)
		})
	}
	x.Go(fns...)
	// afterwards every log holds exactly the sequence
	x2 := x
	for j, lf := range files {
		fl := newFollower(x2, lf, fmt.Sprintf("final check of log %d", j), tXtwFull, 2, nil, map[string]int64{}, want)
		fl.poll()
		x.Check(fl.count == n && fl.pos == len(lf.data), "lost data", "log %d holds %d points of %d in %d of %d bytes at the end", j, fl.count, n, fl.pos, len(lf.data))
		if !lf.slices {
			var all []byte
			for _, p := range want {
				b, _ := lf.f.body(p)
				all = append(append(append(all, lf.f.hs[hSingle]...), b...), lf.f.hs[fSingle]...)
			}
			x.Check(string(all) == string(lf.data), "wrong output", "log %d does not consist of the encodings of the points", j)
		}
	}
}

func init() {
	core.Register(&core.Scenario{Name: "points-log", Props: []string{"P13"}, Gen: genLog, Exec: execLog, Init: initPool})
}
