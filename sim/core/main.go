//go:build go1.22

package core

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/rt"
)

// Record is a replay file (and what workers report for a violation).
type Record struct {
	Property string     `json:"property"`
	Scenario string     `json:"scenario"`
	Group    string     `json:"group"`
	Seed     uint64     `json:"base_seed"`
	Index    int        `json:"run_index"`
	Class    string     `json:"violation_class"`
	Msg      string     `json:"violation"`
	Plan     *Plan      `json:"plan"`
	Events   []rt.Event `json:"schedule_events"`
	Hash     uint64     `json:"outcome_hash,string"`
	Minimal  bool       `json:"minimised"`
	Prefix   []int      `json:"preceding_runs,omitempty"` // first run and step of the runs that have to be executed before, in the same process
	Thorough bool       `json:"thorough,omitempty"`
	Trace    []string   `json:"trace,omitempty"`
	Note     string     `json:"note,omitempty"`
}

// Report is what a worker writes when it is done.
type Report struct {
	Runs     int               `json:"runs"`
	Nontriv  int               `json:"nontrivial"`
	Steps    int64             `json:"steps"`
	Switches int64             `json:"switches"`
	Sim      int64             `json:"sim"`
	Faults   map[string]int64  `json:"faults"`
	Probes   map[string]int64  `json:"probes"`
	PerScen  map[string]int64  `json:"per_scenario"`
	Scheds   []uint64          `json:"scheds"`   // distinct schedule hashes
	Outcomes []uint64          `json:"outcomes"` // distinct hashes of (plan, schedule, observations) of non-trivial runs
	Hashes   map[string]string `json:"hashes"`   // run index -> outcome hash
	Known    map[string]int64  `json:"known"`
	KnownMsg map[string]string `json:"known_msg"`
	Sites    []int             `json:"sites"`
	NSites   int               `json:"nsites"`
	Samples  []string          `json:"samples"`
	Viol     *Record           `json:"violation,omitempty"`
	WallS    float64           `json:"wall_s"`
	Race     bool              `json:"race"`
}

func planFor(prop string, base uint64, i int, thorough bool) *Plan {
	var list []*Scenario
	for _, s := range scenarios {
		for _, p := range s.Props {
			if p == prop {
				w := s.Wt
				if w == 0 {
					w = 1
				}
				for k := 0; k < w; k++ {
					list = append(list, s)
				}
			}
		}
	}
	if len(list) == 0 {
		fmt.Fprintln(os.Stderr, "no scenario for property", prop)
		os.Exit(2)
	}
	s := list[(i+i/8)%len(list)] // a worker (every 8th run) gets all of them
	seed := mix(base ^ mix(uint64(i)+0x1234567) ^ hashString(prop))
	r := NewRng(seed)
	p := s.Gen(r, thorough)
	p.Scenario = s.Name
	p.Seed = seed
	if p.Policy.Kind == "" {
		p.Policy = r.RandPolicy()
	}
	if p.Perm == 0 && r.P(3, 4) {
		p.Perm = r.U64()
	}
	if p.Cfg == nil {
		p.Cfg = map[string]int64{}
	}
	return p
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Main is the entry point of a harness binary.
func Main(group string) {
	mode := "worker"
	if len(os.Args) > 1 {
		mode = os.Args[1]
	}
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 100, "")
	step := fs.Int("step", 1, "")
	secs := fs.Float64("secs", 3600, "")
	thorough := fs.Bool("thorough", false, "")
	out := fs.String("out", "", "")
	inf := fs.String("in", "", "")
	hashes := fs.Int("hashes", 0, "record hashes of the first so many runs")
	kf := fs.String("known", "", "")
	if len(os.Args) > 2 {
		fs.Parse(os.Args[2:])
	}
	debug.SetGCPercent(400)
	debug.SetMaxStack(2 << 30)
	if *kf != "" {
		data, err := os.ReadFile(*kf)
		if err == nil {
			err = json.Unmarshal(data, &knowns)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "known findings:", err)
			os.Exit(2)
		}
	}
	curProp = *prop
	progress.Store(time.Now().Unix())
	for _, s := range scenarios {
		if s.Init != nil {
			s.Init()
		}
	}
	rt.SnapshotGlobals()
	go watchdog()
	switch mode {
	case "worker":
		worker(group, *prop, *base, *from, *to, *step, *secs, *thorough, *out, *hashes)
	case "trace": // debugging: show what the last of the runs does
		for i := *from; i < *to; i += *step {
			if f := os.Getenv("VSIM_STEPLOG"); f != "" && i+*step >= *to {
				rt.StepLog = make([]uint32, 0, 1<<16)
			}
			o := execute(planFor(*prop, *base, i, *thorough), nil, false, true)
			if f := os.Getenv("VSIM_STEPLOG"); f != "" && rt.StepLog != nil {
				os.WriteFile(f, []byte(strings.ReplaceAll(fmt.Sprint(rt.StepLog), " ", "\n")), 0o644)
			}
			if i+*step >= *to {
				for _, l := range o.Trace {
					fmt.Println(l)
				}
				b, _ := json.Marshal(o.x.Plan)
				fmt.Printf("plan %s\nsched %d steps %d events %v\n", b, o.Sched, o.Steps, o.Events)
			}
			fmt.Printf("run %d: class=%q hash=%d %s\n", i, o.Class, o.Hash, o.Msg)
		}
	case "shrink":
		rec := readRecord(*inf)
		curProp = rec.Property
		shrink(rec, *secs)
		writeJSON(*out, rec)
	case "replay":
		rec := readRecord(*inf)
		curProp = rec.Property
		o := replay(rec)
		if *out != "" {
			r2 := *rec
			r2.Class, r2.Msg, r2.Hash, r2.Trace, r2.Events = o.Class, o.Msg, o.Hash, o.Trace, o.Events
			writeJSON(*out, &r2)
		} else {
			for _, l := range o.Trace {
				fmt.Println(l)
			}
			fmt.Printf("result: class=%q hash=%d %s\n", o.Class, o.Hash, o.Msg)
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", mode)
		os.Exit(2)
	}
}

func replay(rec *Record) *Outcome {
	thorough := rec.Thorough
	if len(rec.Prefix) == 2 {
		for i := rec.Prefix[0]; i < rec.Index; i += rec.Prefix[1] {
			execute(planFor(rec.Property, rec.Seed, i, thorough), nil, false, false)
		}
		return execute(planFor(rec.Property, rec.Seed, rec.Index, thorough), nil, false, true)
	}
	return execute(rec.Plan, rec.Events, true, true)
}

func readRecord(f string) *Record {
	data, err := os.ReadFile(f)
	var r Record
	if err == nil {
		err = json.Unmarshal(data, &r)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return &r
}

func writeJSON(f string, v any) {
	data, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(f, data, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// HangSecs is how long a single run may take in real time before the harness gives up (exit status 3).
const HangSecs = 60

func watchdog() {
	for {
		time.Sleep(time.Second)
		if time.Now().Unix()-progress.Load() > HangSecs {
			fmt.Fprintln(os.Stderr, "watchdog: a single run takes longer than", HangSecs, "seconds")
			os.Exit(3)
		}
	}
}

func worker(group, prop string, base uint64, from, to, step int, secs float64, thorough bool, outFile string, hashes int) {
	start := time.Now()
	rep := &Report{Faults: map[string]int64{}, Probes: map[string]int64{}, PerScen: map[string]int64{}, Hashes: map[string]string{}, Known: map[string]int64{}, KnownMsg: map[string]string{}, Race: rt.RaceBuild}
	scheds := map[uint64]bool{}
	outcomes := map[uint64]bool{}
	for i := from; i < to; i += step {
		if time.Since(start).Seconds() > secs {
			break
		}
		p := planFor(prop, base, i, thorough)
		if os.Getenv("VSIM_VERBOSE") != "" {
			b, _ := json.Marshal(p)
			fmt.Fprintf(os.Stderr, "run %d %s\n", i, b)
		}
		if cf := os.Getenv("VSIM_CURRENT"); cf != "" { // lets the driver know which run crashed the process
			os.WriteFile(fmt.Sprintf("%s.%d", cf, from), []byte(fmt.Sprint(i)), 0o644)
		}
		o := execute(p, nil, false, false)
		rep.Runs++
		rep.PerScen[p.Scenario]++
		rep.Steps += int64(o.Steps)
		rep.Switches += int64(o.Switch)
		rep.Sim += o.Sim
		o.x.faults.into(rep.Faults)
		o.x.probes.into(rep.Probes)
		scheds[o.Sched] = true
		nt := o.x.faults.len > 0 || (len(p.Threads) > 1 && o.Switch >= len(p.Threads))
		if nt {
			rep.Nontriv++
			outcomes[o.Hash^mix(p.hash())] = true
		}
		if len(rep.Hashes) < hashes {
			rep.Hashes[fmt.Sprint(i)] = fmt.Sprint(o.Hash)
		}
		if len(rep.Samples) < 2 && nt && from < 3 {
			b, _ := json.Marshal(p)
			s := string(b)
			if len(s) > 1500 {
				s = s[:1500] + "..."
			}
			rep.Samples = append(rep.Samples, fmt.Sprintf("run %d: %s; %d schedule decisions, %d steps, %d switches, simulated time %dns, outcome hash %d", i, s, len(o.Events), o.Steps, o.Switch, o.Sim, o.Hash))
		}
		if o.Class != "" {
			if o.Known {
				k := fmt.Sprint(o.x.known)
				rep.Known[k]++
				rep.KnownMsg[k] = o.Msg
			} else {
				rep.Viol = &Record{Property: prop, Scenario: p.Scenario, Group: group, Seed: base, Index: i, Class: o.Class, Msg: o.Msg, Plan: p, Events: o.Events, Hash: o.Hash, Thorough: thorough, Prefix: []int{from, step}}
				if o.x.res.Overflow {
					rep.Viol.Note = "schedule too long to be recorded completely"
				}
				break
			}
		}
	}
	for h := range scheds {
		rep.Scheds = append(rep.Scheds, h)
		if len(rep.Scheds) >= 200000 {
			break
		}
	}
	for h := range outcomes {
		rep.Outcomes = append(rep.Outcomes, h)
		if len(rep.Outcomes) >= 200000 {
			break
		}
	}
	rep.Sites = rt.SiteList()
	rep.WallS = time.Since(start).Seconds()
	if outFile == "" {
		rep.Scheds, rep.Outcomes, rep.Sites = nil, nil, nil
		b, _ := json.MarshalIndent(rep, "", " ")
		fmt.Println(strings.TrimSpace(string(b)))
		return
	}
	writeJSON(outFile, rep)
}
