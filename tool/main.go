// vsim is the driver of the simulation checks: it instruments /repo's current working tree, builds the harness of a property,
// runs many seeded simulations on all cores, verifies determinism, minimises and replays violations and writes the evidence.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	repo  = "/repo"
	verif = "/verif"
)

func die(code int, format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	cleanup()
	os.Exit(code)
}

var scratch string

func cleanup() {
	if scratch != "" && os.Getenv("VSIM_KEEP") == "" {
		os.RemoveAll(scratch)
	}
}

// Record mirrors the harness' replay record; fields that the driver does not use are kept as raw JSON.
type Record struct {
	Property string          `json:"property"`
	Scenario string          `json:"scenario"`
	Group    string          `json:"group"`
	Seed     uint64          `json:"base_seed"`
	Index    int             `json:"run_index"`
	Class    string          `json:"violation_class"`
	Msg      string          `json:"violation"`
	Plan     json.RawMessage `json:"plan"`
	Events   json.RawMessage `json:"schedule_events"`
	Hash     uint64          `json:"outcome_hash,string"`
	Minimal  bool            `json:"minimised"`
	Prefix   []int           `json:"preceding_runs,omitempty"`
	Thorough bool            `json:"thorough,omitempty"`
	Trace    []string        `json:"trace,omitempty"`
	Note     string          `json:"note,omitempty"`
}

type Report struct {
	Runs     int               `json:"runs"`
	Nontriv  int               `json:"nontrivial"`
	Steps    int64             `json:"steps"`
	Switches int64             `json:"switches"`
	Sim      int64             `json:"sim"`
	Faults   map[string]int64  `json:"faults"`
	Probes   map[string]int64  `json:"probes"`
	PerScen  map[string]int64  `json:"per_scenario"`
	Scheds   []uint64          `json:"scheds"`
	Outcomes []uint64          `json:"outcomes"`
	Hashes   map[string]string `json:"hashes"`
	Known    map[string]int64  `json:"known"`
	KnownMsg map[string]string `json:"known_msg"`
	Sites    []int             `json:"sites"`
	Samples  []string          `json:"samples"`
	Viol     *Record           `json:"violation"`
	WallS    float64           `json:"wall_s"`
	Race     bool              `json:"race"`
}

type Known struct {
	Property string `json:"property"`
	Status   string `json:"status"`
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func env(extra ...string) []string {
	e := []string{"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=1"}
	skip := map[string]bool{}
	for _, kv := range append(e, extra...) {
		skip[kv[:strings.Index(kv, "=")]] = true
	}
	for _, kv := range os.Environ() {
		if i := strings.Index(kv, "="); i > 0 && !skip[kv[:i]] {
			e = append(e, kv)
		}
	}
	return append(e, extra...)
}

// build instruments the tree and builds the harness of a group.
func buildHarness(group string, race bool) (bin string, in *instrumenter) {
	var err error
	if scratch == "" {
		scratch, err = os.MkdirTemp("", "vsim-*")
		if err != nil {
			die(2, "scratch directory: %v", err)
		}
	}
	g := groups[group]
	in, err = instrument(repo, filepath.Join(verif, "sim"), scratch, g.tags)
	if err != nil {
		die(2, "instrumentation failed: %v", err)
	}
	// Optional files that are added to packages give access to unexported things. The harness works without them.
	var bridges []string
	for f, needs := range g.inpkg {
		ok := true
		for _, need := range needs {
			ok = ok && in.declares(need)
		}
		if ok {
			at := filepath.Join(repo, filepath.FromSlash(filepath.Dir(f)), "zz_verifsim_"+filepath.Base(f))
			in.overlay[at] = filepath.Join(verif, "sim", "inpkg", f)
			bridges = append(bridges, at)
		}
	}
	for {
		overlay, err := in.write()
		if err != nil {
			die(2, "instrumentation failed: %v", err)
		}
		bin = filepath.Join(scratch, "h_"+group)
		args := []string{"build", "-overlay", overlay, "-o", bin}
		if race {
			args = append(args, "-race")
		}
		if len(g.tags) > 0 {
			args = append(args, "-tags", strings.Join(g.tags, ","))
		}
		args = append(args, "./internal/verifsim/h_"+group)
		cmd := exec.Command("go", args...)
		cmd.Dir = repo
		cmd.Env = env()
		out, err := cmd.CombinedOutput()
		if err == nil {
			break
		}
		if len(bridges) == 0 {
			die(2, "build of the simulation failed: %v\n%s", err, tail(string(out), 4000))
		}
		fmt.Fprintf(os.Stderr, "build with access to unexported declarations failed, trying without\n%s", tail(string(out), 1000))
		for _, at := range bridges {
			delete(in.overlay, at)
		}
		bridges = nil
	}
	return bin, in
}

// selftest checks the simulator itself on a package full of the constructs that it has to control.
func selftest() {
	var err error
	scratch, err = os.MkdirTemp("", "vsim-*")
	if err != nil {
		die(2, "scratch directory: %v", err)
	}
	defer os.RemoveAll(scratch)
	dir := filepath.Join(verif, "selftest")
	in, err := instrument(dir, filepath.Join(verif, "sim"), scratch, nil)
	if err != nil {
		die(2, "instrumentation failed: %v", err)
	}
	for to, from := range in.overlay { // the program itself is not simulated
		if from == filepath.Join(scratch, "inst", "_run", "main.go") {
			delete(in.overlay, to)
		}
	}
	overlay, err := in.write()
	if err != nil {
		die(2, "instrumentation failed: %v", err)
	}
	for _, race := range []string{"-race=false", "-race=true"} {
		cmd := exec.Command("go", "run", race, "-overlay", overlay, "./run")
		cmd.Dir = dir
		cmd.Env = env("GORACE=log_path=" + filepath.Join(scratch, "race") + " exitcode=0")
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		if err := cmd.Run(); err != nil {
			die(2, "self-test (%s): %v", race, err)
		}
	}
}

// declares reports whether the module declares pkg.name (with pkg relative to the module).
func (in *instrumenter) declares(q string) bool {
	i := strings.LastIndex(q, ".")
	p := in.pkgs[module+"/"+q[:i]]
	return p != nil && p.types != nil && p.types.Scope().Lookup(q[i+1:]) != nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func runHarness(bin, id string, timeout time.Duration, args ...string) (stderr string, err error) {
	cmd := exec.Command(bin, args...)
	rl := filepath.Join(scratch, "race-"+id)
	cmd.Env = env("VSIM_RACELOG="+rl, "VSIM_CURRENT="+filepath.Join(scratch, "cur"), "GOMAXPROCS=2", "GOTRACEBACK=single",
		"GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 halt_on_error=0 history_size=4 log_path="+rl)
	var b strings.Builder
	cmd.Stderr = &b
	cmd.Stdout = os.Stdout
	if err = cmd.Start(); err != nil {
		return
	}
	t := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	if !t.Stop() && err != nil {
		err = fmt.Errorf("timeout after %v", timeout)
	}
	return b.String(), err
}

func readJSON(f string, v any) error {
	data, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	return json.Unmarshal(data, v)
}

func writeJSON(f string, v any) error {
	data, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(f), 0o755)
	return os.WriteFile(f, append(data, '\n'), 0o644)
}

func main() {
	if v := os.Getenv("VSIM_REPO"); v != "" { // only for work on the simulator itself
		repo = v
	}
	if len(os.Args) < 2 {
		die(2, "usage: vsim check PROPERTY | replay FILE | dump DIR")
	}
	if exe, err := os.Executable(); err == nil && os.Getenv("VSIM_HOME") == "" {
		_ = exe
	} else if v := os.Getenv("VSIM_HOME"); v != "" {
		verif = v
	}
	switch os.Args[1] {
	case "selftest":
		selftest()
	case "setup":
		setup()
	case "check":
		check(os.Args[2])
	case "replay":
		replayFile(os.Args[2])
	case "dump":
		scratch = os.Args[2]
		in, err := instrument(repo, filepath.Join(verif, "sim"), scratch, nil)
		if err != nil {
			die(2, "%v", err)
		}
		o, err := in.write()
		fmt.Println(o, err, in.site, in.seamed)
	case "bin": // build one harness and keep it
		scratch = os.Args[3]
		os.MkdirAll(scratch, 0o755)
		p := props[os.Args[2]]
		bin, _ := buildHarness(p.group, p.race)
		fmt.Println(bin)
	default:
		die(2, "unknown command")
	}
}

func check(id string) {
	start := time.Now()
	p, ok := props[id]
	if !ok {
		die(2, "unknown property %s", id)
	}
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 3 {
		tier = os.Args[3]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	thorough := tier == "thorough"
	seed := uint64(1)
	seedI := int64(1)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed, seedI = uint64(v), v
	}
	fmt.Printf("%s: VERIF_SEED=%d tier=%s\n", id, seedI, tier)
	knownFile := filepath.Join(verif, "known_findings.json")
	var knowns []Known
	if err := readJSON(knownFile, &knowns); err != nil {
		die(2, "known findings: %v", err)
	}
	bin, in := buildHarness(p.group, p.race)
	buildS := time.Since(start).Seconds()

	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if v, err := strconv.Atoi(os.Getenv("VSIM_WORKERS")); err == nil && v > 0 { // only for work on the simulator itself
		workers = v
	}
	runs, secs := p.quick, 60.0
	if thorough {
		runs, secs = p.quick*400, 720.0
	}
	if v, err := strconv.ParseFloat(os.Getenv("VSIM_SECS"), 64); err == nil {
		secs = v
		runs = 1 << 30
	}
	det := 40
	common := []string{"-prop", id, "-seed", fmt.Sprint(seed), "-known", knownFile}
	if thorough {
		common = append(common, "-thorough")
	}
	reports := make([]*Report, workers)
	errs := make([]string, workers)
	var detRep *Report
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			out := filepath.Join(scratch, fmt.Sprintf("report-%d.json", w))
			args := append([]string{"worker", "-from", fmt.Sprint(w), "-to", fmt.Sprint(runs), "-step", fmt.Sprint(workers), "-secs", fmt.Sprint(secs), "-hashes", fmt.Sprint(det), "-out", out}, common...)
			stderr, err := runHarness(bin, fmt.Sprint("w", w), time.Duration(secs+200)*time.Second, args...)
			if err != nil {
				errs[w] = fmt.Sprintf("worker %d: %v\n%s", w, err, tail(stderr, 3000))
				return
			}
			r := &Report{}
			if err := readJSON(out, r); err != nil {
				errs[w] = err.Error()
				return
			}
			reports[w] = r
		}()
	}
	wg.Wait()
	var viol *Record
	var crash string
	for w := range reports {
		if reports[w] == nil {
			crash = errs[w]
			continue
		}
		if v := reports[w].Viol; v != nil && (viol == nil || v.Index < viol.Index) {
			viol = v
		}
	}
	for w := range reports { // did the code under test take down the process?
		if reports[w] == nil && viol == nil {
			viol = crashed(bin, id, w, errs[w], common)
		}
	}
	if viol == nil && crash != "" {
		die(2, "the simulation broke down: %s", crash)
	}
	total := merge(reports)

	// determinism: the first runs again, in one more process and with another distribution of the runs
	detN, detBad := 0, ""
	detNote := ""
	if viol == nil {
		n := det * 2
		detRep = again(bin, common, 0, min(n, runs), 1, n)
		mismatch := func(a *Report, rs []*Report) (bad string) {
			for k, h := range a.Hashes {
				for _, r := range rs {
					if r == nil {
						continue
					}
					if h2, ok := r.Hashes[k]; ok {
						detN++
						if h2 != h && (bad == "" || len(k) < len(bad) || (len(k) == len(bad) && k < bad)) {
							bad = k
						}
					}
				}
			}
			return
		}
		viol = detRep.Viol
		if k := mismatch(detRep, reports); viol == nil && k != "" {
			// Either state survives from one run to the next (which is allowed: something is computed on first use), or
			// something is not under control. The same runs in the same order tell.
			i, _ := strconv.Atoi(k)
			w := i % workers
			a := again(bin, common, w, i+1, workers, runs)
			detBad = mismatch(a, []*Report{again(bin, common, w, i+1, workers, runs), reports[w]})
			if detBad == "" {
				detNote = fmt.Sprintf("run %d depends on the runs before it in the same process; in the same order, everything repeats", i)
			} else {
				detNote = "run " + detBad + " does not behave the same way twice"
			}
			fmt.Println("note:", detNote)
		}
	}
	if d := os.Getenv("VSIM_SITES"); d != "" { // only for work on the simulator itself
		var b strings.Builder
		for _, s := range total.Sites {
			fmt.Fprintln(&b, in.sites[s])
		}
		os.WriteFile(filepath.Join(d, id), []byte(b.String()), 0o644)
		os.WriteFile(filepath.Join(d, "all"), []byte(strings.Join(in.sites[1:], "\n")), 0o644)
	}
	replay := ""
	if viol != nil {
		viol, replay = confirm(bin, viol, common, thorough)
	}
	wall := time.Since(start).Seconds()
	writeEvidence(id, p, tier, seedI, total, detN, wall, buildS, viol, in, knowns, workers)
	if viol == nil && detBad != "" && p.deterministic {
		rec := &Record{Property: id, Group: p.group, Seed: seed, Class: "not deterministic", Msg: detNote, Plan: json.RawMessage("null"), Events: json.RawMessage("null"), Thorough: thorough}
		rec.Index, _ = strconv.Atoi(detBad)
		rec.Prefix = []int{rec.Index % workers, workers}
		replay = filepath.Join(verif, "replays", fmt.Sprintf("%s-%d-%d.json", id, seed, rec.Index))
		if err := writeJSON(replay, rec); err != nil {
			die(2, "%v", err)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		cleanup()
		os.Exit(1)
	}
	for i, k := range knowns {
		if k.Property == id && k.Status == "open" {
			n := total.Known[fmt.Sprint(i)]
			fmt.Printf("KNOWN-FINDING: property=%s %s (met in %d runs)\n", id, k.What, n)
		}
	}
	if viol != nil {
		fmt.Printf("%s: %s: %s\n", viol.Scenario, viol.Class, viol.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		cleanup()
		os.Exit(1)
	}
	fmt.Printf("%s held: %d runs, %d distinct non-trivial, %d distinct schedules, %d steps, %.0fs (build %.0fs)\n", id, total.Runs, len(total.Outcomes), len(total.Scheds), total.Steps, wall, buildS)
	cleanup()
}

// died tells whether the text that a worker left behind is that of a process that was taken down by the code it ran.
func died(stderr string) bool {
	return strings.Contains(stderr, "fatal error:") || strings.Contains(stderr, "panic:") || strings.Contains(stderr, "watchdog:")
}

// crashed turns the death of a worker process into a violation if the same run kills a fresh process in the same way.
// This includes a library that dies in its package initialisation (or does not let the fixtures be made): then no run can start.
func crashed(bin, id string, w int, errText string, common []string) *Record {
	if !died(errText) {
		return nil
	}
	i, note := 0, "the run kills its process"
	data, err := os.ReadFile(filepath.Join(scratch, fmt.Sprintf("cur.%d", w)))
	if err != nil {
		note = "the process dies before the first run: while the library's packages are initialised or while the fixtures are made with it"
	} else {
		if strings.Contains(errText, "harness:") {
			return nil
		}
		if i, err = strconv.Atoi(strings.TrimSpace(string(data))); err != nil {
			return nil
		}
	}
	out := filepath.Join(scratch, "crash.json")
	args := append([]string{"worker", "-from", fmt.Sprint(i), "-to", fmt.Sprint(i + 1), "-out", out}, common...)
	stderr, err := runHarness(bin, "crash", 200*time.Second, args...)
	if err == nil || !died(stderr) {
		return nil
	}
	msg := ""
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") || strings.HasPrefix(l, "watchdog:") {
			msg += l + " "
		}
	}
	seed, _ := strconv.ParseUint(common[3], 10, 64)
	return &Record{Property: id, Group: props[id].group, Seed: seed, Index: i, Class: "crash", Msg: "the process died: " + tail(msg, 500), Prefix: []int{i, 1}, Plan: json.RawMessage("null"), Events: json.RawMessage("null"), Note: note}
}

// confirm reproduces a violation in fresh processes, minimises it and writes the replay file.
func confirm(bin string, v *Record, common []string, thorough bool) (*Record, string) {
	dir := filepath.Join(verif, "replays")
	file := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", v.Property, v.Seed, v.Index))
	if v.Class == "crash" {
		if err := writeJSON(file, v); err != nil {
			die(2, "%v", err)
		}
		return v, file
	}
	try := func(r *Record, name string) *Record {
		f := filepath.Join(scratch, name+".json")
		o := filepath.Join(scratch, name+"-out.json")
		if err := writeJSON(f, r); err != nil {
			die(2, "%v", err)
		}
		if _, err := runHarness(bin, name, 300*time.Second, "replay", "-in", f, "-out", o); err != nil {
			return nil
		}
		res := &Record{}
		if readJSON(o, res) != nil {
			return nil
		}
		return res
	}
	single := *v
	single.Prefix = nil
	final := v
	if r := try(&single, "first"); r != nil && r.Class == v.Class {
		f := filepath.Join(scratch, "shrink-in.json")
		o := filepath.Join(scratch, "shrink-out.json")
		writeJSON(f, &single)
		secs := "25"
		if v := os.Getenv("VSIM_SHRINK"); v != "" {
			secs = v
		}
		if thorough {
			secs = "90"
		}
		small := &Record{}
		if _, err := runHarness(bin, "shrink", 300*time.Second, "shrink", "-in", f, "-out", o, "-secs", secs); err == nil && readJSON(o, small) == nil {
			if r := try(small, "second"); r != nil && r.Class == small.Class && r.Hash == small.Hash {
				small.Trace, small.Msg = r.Trace, r.Msg
				final = small
			}
		}
		if final == v {
			single.Trace, single.Note = r.Trace, "not minimised"
			single.Hash = r.Hash
			final = &single
		}
	} else {
		final.Note = "needs the preceding runs in the same process: state survives between runs"
		ok := false
		for i := 0; i < 3 && !ok; i++ {
			r := try(final, fmt.Sprint("history", i))
			ok = r != nil && r.Class == v.Class
		}
		if !ok { // never on code whose nondeterminism goes through the seams
			final.Note = "not reproducible: the code under test has a source of nondeterminism that the simulator does not control"
		}
	}
	if len(final.Trace) > 600 {
		final.Trace = final.Trace[:600]
	}
	if err := writeJSON(file, final); err != nil {
		die(2, "%v", err)
	}
	return final, file
}

// again does the first runs of a worker once more, in a process of its own.
func again(bin string, common []string, from, to, step, hashes int) *Report {
	out := filepath.Join(scratch, fmt.Sprintf("report-again-%d-%d.json", from, to))
	args := append([]string{"worker", "-from", fmt.Sprint(from), "-to", fmt.Sprint(to), "-step", fmt.Sprint(step), "-secs", "60", "-hashes", fmt.Sprint(hashes), "-out", out}, common...)
	stderr, err := runHarness(bin, "again", 200*time.Second, args...)
	if err != nil {
		die(2, "determinism check: %v %s", err, tail(stderr, 2000))
	}
	r := &Report{}
	if err := readJSON(out, r); err != nil {
		die(2, "%v", err)
	}
	return r
}

func replayFile(f string) {
	rec := &Record{}
	if err := readJSON(f, rec); err != nil {
		die(2, "%v", err)
	}
	p := props[rec.Property]
	bin, _ := buildHarness(p.group, p.race)
	out := filepath.Join(scratch, "out.json")
	if rec.Class == "not deterministic" && len(rec.Prefix) == 2 {
		common := []string{"-prop", rec.Property, "-seed", fmt.Sprint(rec.Seed)}
		if rec.Thorough {
			common = append(common, "-thorough")
		}
		first := again(bin, common, rec.Prefix[0], rec.Index+1, rec.Prefix[1], rec.Index+1)
		for n := 0; n < 5; n++ {
			for k, h := range again(bin, common, rec.Prefix[0], rec.Index+1, rec.Prefix[1], rec.Index+1).Hashes {
				if h != first.Hashes[k] {
					cleanup()
					fmt.Printf("reproduced: run %s does not behave the same way twice\nVIOLATION property=%s replay=%s\n", k, rec.Property, f)
					os.Exit(1)
				}
			}
		}
		cleanup()
		fmt.Println("not reproduced: the runs behave the same way each time")
		return
	}
	if rec.Class == "crash" {
		args := []string{"worker", "-prop", rec.Property, "-seed", fmt.Sprint(rec.Seed), "-from", fmt.Sprint(rec.Index), "-to", fmt.Sprint(rec.Index + 1), "-out", out}
		if rec.Thorough {
			args = append(args, "-thorough")
		}
		stderr, err := runHarness(bin, "replay", 300*time.Second, args...)
		fmt.Println(tail(stderr, 3000))
		cleanup()
		if err != nil {
			fmt.Printf("reproduced: crash\nVIOLATION property=%s replay=%s\n", rec.Property, f)
			os.Exit(1)
		}
		fmt.Println("not reproduced")
		os.Exit(0)
	}
	if stderr, err := runHarness(bin, "replay", 300*time.Second, "replay", "-in", f, "-out", out); err != nil {
		die(2, "replay: %v %s", err, tail(stderr, 3000))
	}
	res := &Record{}
	if err := readJSON(out, res); err != nil {
		die(2, "%v", err)
	}
	for _, l := range res.Trace {
		fmt.Println(l)
	}
	cleanup()
	if res.Class == "" {
		fmt.Println("no violation: the property holds for this replay")
		return
	}
	same := "the recorded outcome, exactly"
	if res.Hash != rec.Hash || res.Class != rec.Class {
		same = "NOT the recorded outcome (" + rec.Class + ")"
	}
	fmt.Printf("%s: %s\n(%s)\nVIOLATION property=%s replay=%s\n", res.Class, res.Msg, same, rec.Property, f)
	os.Exit(1)
}

func merge(rs []*Report) *Report {
	t := &Report{Faults: map[string]int64{}, Probes: map[string]int64{}, PerScen: map[string]int64{}, Known: map[string]int64{}}
	sched, outc, sites := map[uint64]bool{}, map[uint64]bool{}, map[int]bool{}
	for _, r := range rs {
		if r == nil {
			continue
		}
		t.Runs += r.Runs
		t.Nontriv += r.Nontriv
		t.Steps += r.Steps
		t.Switches += r.Switches
		t.Sim += r.Sim
		t.Race = t.Race || r.Race
		if r.WallS > t.WallS {
			t.WallS = r.WallS
		}
		for k, v := range r.Faults {
			t.Faults[k] += v
		}
		for k, v := range r.Probes {
			t.Probes[k] += v
		}
		for k, v := range r.PerScen {
			t.PerScen[k] += v
		}
		for k, v := range r.Known {
			t.Known[k] += v
		}
		for _, h := range r.Scheds {
			sched[h] = true
		}
		for _, h := range r.Outcomes {
			outc[h] = true
		}
		for _, s := range r.Sites {
			sites[s] = true
		}
		t.Samples = append(t.Samples, r.Samples...)
	}
	for h := range sched {
		t.Scheds = append(t.Scheds, h)
	}
	for h := range outc {
		t.Outcomes = append(t.Outcomes, h)
	}
	for s := range sites {
		t.Sites = append(t.Sites, s)
	}
	sort.Ints(t.Sites)
	return t
}

func writeEvidence(id string, p prop, tier string, seed int64, t *Report, detN int, wall, buildS float64, viol *Record, in *instrumenter, knowns []Known, workers int) {
	perFile, totFile := map[string]int{}, map[string]int{}
	for _, s := range in.sites[1:] {
		totFile[s[:strings.LastIndex(s, ":")]]++
	}
	for _, s := range t.Sites {
		if s < len(in.sites) {
			perFile[in.sites[s][:strings.LastIndex(in.sites[s], ":")]]++
		}
	}
	cov := map[string]string{}
	for f, n := range perFile {
		cov[f] = fmt.Sprintf("%d of %d statements", n, totFile[f])
	}
	perHour := 0
	if t.WallS > 0 {
		perHour = int(float64(t.Runs) / t.WallS * 3600)
	}
	if len(t.Samples) > 3 {
		t.Samples = t.Samples[:3]
	}
	if t.Samples == nil {
		t.Samples = []string{}
	}
	violations := 0
	if viol != nil {
		violations = 1
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": violations,
		"assumptions": append([]string{
			"code outside of the simulator (Go runtime, standard library, race detector) behaves as documented",
			"a clean batch is evidence, not proof: schedules, faults and workloads are sampled",
		}, p.assume...),
		"coverage": map[string]any{
			"evaluations":             t.Runs,
			"distinct_nontrivial":     len(t.Outcomes),
			"rule":                    p.rule + " A run is non-trivial if an injected fault fired or if at least two threads exist and the baton changed hands at least as often as there are threads; runs are distinct if (plan, schedule, observations) hash differently.",
			"samples":                 t.Samples,
			"runs_per_hour":           perHour,
			"seeds_per_hour":          perHour,
			"simulated_steps":         t.Steps,
			"simulated_time_ns":       t.Sim,
			"context_switches":        t.Switches,
			"distinct_schedules":      len(t.Scheds),
			"distinct_states_measure": "hash over the sequence of (from thread, to thread, source position) of every switch and the number of steps",
			"faults_fired":            t.Faults,
			"probes":                  t.Probes,
			"runs_per_scenario":       t.PerScen,
			"determinism_runs_twice":  detN,
			"real_components":         p.real,
			"stub_components":         p.stub,
			"replaced_in_code":        in.seamed,
			"yield_points":            len(in.sites) - 1,
			"yield_points_reached":    len(t.Sites),
			"statements_reached":      cov,
			"race_detector":           t.Race,
			"workers":                 workers,
			"build_s":                 buildS,
			"known_findings_met":      t.Known,
		},
	}
	if err := writeJSON(filepath.Join(verif, "evidence", id+".json"), ev); err != nil {
		die(2, "%v", err)
	}
}

// setup builds every harness once, which warms the build cache. The checks do not depend on it.
func setup() {
	type key struct {
		g string
		r bool
	}
	done := map[key]bool{}
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		p := props[id]
		k := key{p.group, p.race}
		if !done[k] {
			done[k] = true
			buildHarness(p.group, p.race)
		}
	}
	cleanup()
	fmt.Println("setup done")
}
