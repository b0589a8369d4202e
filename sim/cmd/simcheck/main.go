// simcheck decides one property: it runs seeded simulations in worker
// processes, minimises the first violation and writes the evidence.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.local/sim/props"
	"verif.local/sim/vsim"
)

var (
	fProp   = flag.String("prop", "", "property")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fSeed   = flag.Int64("seed", 1, "seed")
	fRuns   = flag.Int("runs", 0, "number of runs (0: by tier)")
	fProcs  = flag.Int("procs", 0, "worker processes")
	fWorker = flag.String("worker", "", "internal: from-to")
	fReplay = flag.String("replay", "", "replay file")
	fMin    = flag.Bool("min", false, "internal: minimise the replay file given on stdin")
	fOut    = flag.String("out", "/verif/out", "where replay files go")
	fEv     = flag.String("evidence", "", "evidence file")
	fDump   = flag.Bool("dump", false, "worker: print the signature of every run")
	fBatch  = flag.Int("batch", 0, "runs per worker batch")
	fLimit  = flag.Int("limit", 700, "seconds after which no new batch is started")
)

// Result of one run.
type Result struct {
	Idx        int      `json:"idx"`
	Seed       uint64   `json:"seed"`
	Class      string   `json:"class,omitempty"`
	Msg        string   `json:"msg,omitempty"`
	Hist       []string `json:"hist,omitempty"`
	Trace      []string `json:"trace,omitempty"`
	Choices    []uint32 `json:"choices,omitempty"`
	Sig        uint64   `json:"sig"`
	structSig  uint64
	schedSig   uint64
	nontrivial bool
	steps      int64
	clock      time.Duration
	switches   int
	hits       map[string]int
	overrun    bool
}

// Batch is what a worker reports.
type Batch struct {
	From, To   int
	Runs       int
	Nontrivial int
	Structs    []uint64
	Scheds     []uint64
	Hits       map[string]int
	Steps      int64
	SimTime    float64
	Switches   int
	Overruns   int
	Samples    [][]string
	Fail       *Result
	SigHash    uint64
}

// Replay is the replay file.
type Replay struct {
	Property string   `json:"property"`
	Kind     string   `json:"kind"` // "choices" or "batch"
	Seed     int64    `json:"verif_seed"`
	Idx      int      `json:"run_index"`
	RunSeed  uint64   `json:"run_seed"`
	From     int      `json:"from,omitempty"`
	Class    string   `json:"violation_class"`
	Msg      string   `json:"violation"`
	Hist     []string `json:"history"`
	Trace    []string `json:"fault_trace"`
	Choices  []uint32 `json:"choices"`
	Original int      `json:"choices_before_minimising"`
}

func runSeed(prop string, seed int64, idx int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, seed, idx)
	return h.Sum64()
}

func runOne(p *props.Prop, src *vsim.Src) (res Result) {
	r := props.NewRun(src)
	defer func() {
		if e := recover(); e != nil {
			switch v := e.(type) {
			case *props.Violation:
				res.Class, res.Msg = v.Class, v.Msg
			case vsim.Overrun:
				res.overrun = true
			default:
				panic(e)
			}
		}
		res.Hist, res.Trace = r.Hist, r.Sim.Trace
		res.Choices = src.Log
		res.Sig = r.Sig ^ r.Sim.SchedSig
		res.structSig = r.Struct
		res.schedSig = r.Sim.SchedSig
		res.nontrivial = r.Nontrivial
		res.steps = r.Sim.Steps
		res.clock = r.Sim.Env.Clock
		res.switches = r.Sim.Switches
		res.hits = r.Hits
		r.Sim.Close()
		vsim.S = nil
	}()
	p.Run(r)
	return
}

func worker(p *props.Prop, from, to int) {
	lim := uint64(3 << 30)
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	b := Batch{From: from, To: to, Hits: map[string]int{}}
	structs, scheds := map[uint64]bool{}, map[uint64]bool{}
	prog := os.NewFile(3, "progress")
	h := fnv.New64a()
	for i := from; i < to; i++ {
		fmt.Fprintf(prog, "%d\n", i)
		src := vsim.NewSrc(runSeed(p.ID, *fSeed, i))
		res := runOne(p, src)
		res.Idx, res.Seed = i, runSeed(p.ID, *fSeed, i)
		b.Runs++
		if res.overrun {
			b.Overruns++
		}
		for k, v := range res.hits {
			b.Hits[k] += v
		}
		b.Steps += res.steps
		b.SimTime += res.clock.Seconds()
		b.Switches += res.switches
		if res.nontrivial {
			b.Nontrivial++
			structs[res.structSig] = true
		}
		scheds[res.schedSig] = true
		fmt.Fprintf(h, "%d:%x:%s;", i, res.Sig, res.Class)
		if *fDump {
			fmt.Printf("%d %016x %d %d %s\n", i, res.Sig, res.steps, len(res.Choices), res.Class)
		}
		if len(b.Samples) < 2 && res.nontrivial {
			b.Samples = append(b.Samples, clip(res.Hist, res.Trace))
		}
		if res.Class != "" {
			b.Fail = &res
			break
		}
	}
	b.SigHash = h.Sum64()
	for k := range structs {
		b.Structs = append(b.Structs, k)
	}
	for k := range scheds {
		b.Scheds = append(b.Scheds, k)
	}
	if !*fDump {
		json.NewEncoder(os.Stdout).Encode(b)
	}
}

func clip(h, t []string) []string {
	s := append([]string(nil), h...)
	if len(s) > 25 {
		s = s[:25]
	}
	for i, x := range t {
		if i < 10 {
			s = append(s, "fault: "+x)
		}
	}
	for i := range s {
		if len(s[i]) > 400 {
			s[i] = s[i][:400]
		}
	}
	return s
}

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	if *fReplay != "" {
		os.Exit(replay(*fReplay))
	}
	p := props.All[*fProp]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		os.Exit(2)
	}
	if *fWorker != "" {
		runtime.GOMAXPROCS(2)
		var a, b int
		fmt.Sscanf(*fWorker, "%d-%d", &a, &b)
		worker(p, a, b)
		return
	}
	if *fMin {
		minimise(p)
		return
	}
	os.Exit(check(p))
}

// spawn runs this binary with other arguments. It returns stdout, the index of
// the last run begun, and how the process ended.
func spawn(timeout time.Duration, stdin io.Reader, args ...string) (out []byte, last int, err error, stderr string) {
	c := exec.Command(os.Args[0], args...)
	pr, pw, _ := os.Pipe()
	c.ExtraFiles = []*os.File{pw}
	c.Stdin = stdin
	var eb strings.Builder
	c.Stderr = &limited{w: &eb, n: 1 << 16}
	var ob strings.Builder
	c.Stdout = &ob
	c.Env = append(os.Environ(), "GOTRACEBACK=single", "GODEBUG=")
	last = -1
	if e := c.Start(); e != nil {
		return nil, -1, e, ""
	}
	pw.Close()
	var mu sync.Mutex
	beat := time.Now()
	done := make(chan struct{})
	go func() {
		sc := bufio.NewScanner(pr)
		for sc.Scan() {
			n, _ := strconv.Atoi(sc.Text())
			mu.Lock()
			last, beat = n, time.Now()
			mu.Unlock()
		}
		close(done)
	}()
	fin := make(chan error, 1)
	go func() { fin <- c.Wait() }()
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	for {
		select {
		case e := <-fin:
			pr.SetReadDeadline(time.Now().Add(time.Second))
			<-done
			pr.Close()
			return []byte(ob.String()), last, e, eb.String()
		case <-tick.C:
			mu.Lock()
			late := time.Since(beat) > timeout
			mu.Unlock()
			if late {
				c.Process.Kill()
				<-fin
				return []byte(ob.String()), last, fmt.Errorf("watchdog: no progress for %v", timeout), eb.String()
			}
		}
	}
}

type limited struct {
	w io.Writer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.n > 0 {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.n -= len(q)
		l.w.Write(q)
	}
	return len(p), nil
}

const watchdog = 180 * time.Second

func check(p *props.Prop) int {
	start := time.Now()
	runs := *fRuns
	if runs == 0 {
		runs = p.Quick
		if *fTier == "thorough" {
			runs = p.Deep
		}
	}
	procs := *fProcs
	if procs == 0 {
		procs = runtime.NumCPU()
	}
	batch := *fBatch
	if batch == 0 {
		batch = (runs + procs*6 - 1) / (procs * 6)
		if batch > 2000 {
			batch = 2000
		}
		if batch < 1 {
			batch = 1
		}
	}
	type job struct{ from, to int }
	jobs := make(chan job, runs/batch+2)
	for i := 0; i < runs; i += batch {
		jobs <- job{i, min(i+batch, runs)}
	}
	close(jobs)
	var mu sync.Mutex
	var results []Batch
	var fails []Result
	var trouble string
	stop := false
	cut := 0
	var wg sync.WaitGroup
	for w := 0; w < procs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				mu.Lock()
				s := stop
				if time.Since(start) > time.Duration(*fLimit)*time.Second {
					cut++
					s = true
				}
				mu.Unlock()
				if s {
					continue
				}
				out, last, err, se := spawn(watchdog, nil, workerArgs(p.ID, j.from, j.to)...)
				var b Batch
				jerr := json.Unmarshal(out, &b)
				mu.Lock()
				switch {
				case err == nil && jerr == nil:
					results = append(results, b)
					if b.Fail != nil {
						b.Fail.Trace = append(b.Fail.Trace, fmt.Sprintf("batch %d-%d", j.from, j.to))
						f := *b.Fail
						f.Choices = b.Fail.Choices
						fails = append(fails, f)
						stop = true
					}
				case err != nil && !strings.HasPrefix(err.Error(), "watchdog") && last >= 0 && strings.Contains(se, "fatal error"):
					// the library took the whole process down
					fails = append(fails, Result{Idx: last, Seed: runSeed(p.ID, *fSeed, last), Class: "fatal", Msg: firstLines(se, 12)})
					stop = true
				default:
					trouble = fmt.Sprintf("worker %d-%d (at run %d): %v %v\n%s", j.from, j.to, last, err, jerr, firstLines(se, 30))
					stop = true
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	sort.Slice(fails, func(i, j int) bool { return fails[i].Idx < fails[j].Idx })
	violations := 0
	code := 0
	var lines []string
	if len(fails) > 0 {
		for _, f := range fails {
			path, ok := confirm(p, f, batch)
			if ok {
				violations = 1
				code = 1
				lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", p.ID, path))
				break
			}
			trouble = fmt.Sprintf("run %d reported %q but neither the run nor its batch reproduces it: %s", f.Idx, f.Class, f.Msg)
		}
	}
	if code == 0 && trouble != "" {
		fmt.Fprintln(os.Stderr, "simcheck:", trouble)
		return 2
	}
	writeEvidence(p, results, start, violations, runs, cut, procs)
	met := map[string]bool{}
	for _, b := range results {
		for k := range b.Hits {
			if name, ok := strings.CutPrefix(k, "known."); ok && !met[name] {
				met[name] = true
				lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", p.ID, props.KnownText(p.ID, name)))
			}
		}
	}
	sort.Strings(lines)
	for _, l := range lines {
		fmt.Println(l)
	}
	if code == 0 {
		fmt.Printf("OK property=%s runs=%d wall=%.1fs\n", p.ID, total(results), time.Since(start).Seconds())
	}
	return code
}

func total(rs []Batch) int {
	n := 0
	for _, b := range rs {
		n += b.Runs
	}
	return n
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func workerArgs(id string, from, to int) []string {
	return []string{"-prop", id, "-seed", fmt.Sprint(*fSeed), "-worker", fmt.Sprintf("%d-%d", from, to)}
}

// confirm reproduces a violation in a fresh process, minimises it there, and
// writes the replay file.
func confirm(p *props.Prop, f Result, batch int) (string, bool) {
	os.MkdirAll(*fOut, 0o755)
	path := filepath.Join(*fOut, fmt.Sprintf("%s-seed%d-run%d.json", p.ID, *fSeed, f.Idx))
	rp := Replay{Property: p.ID, Kind: "choices", Seed: *fSeed, Idx: f.Idx, RunSeed: f.Seed, Class: f.Class, Msg: f.Msg,
		Hist: f.Hist, Trace: f.Trace, Choices: f.Choices, Original: len(f.Choices)}
	write := func(r Replay) {
		b, _ := json.MarshalIndent(r, "", " ")
		os.WriteFile(path, b, 0o644)
	}
	reproduces := func() bool {
		out, _, err, se := spawn(watchdog, nil, "-replay", path)
		if f.Class == "fatal" {
			return err != nil && strings.Contains(se, "fatal error") || strings.Contains(string(out), "REPRODUCED")
		}
		return strings.Contains(string(out), "REPRODUCED class="+f.Class+"\n")
	}
	if f.Class == "fatal" {
		rp.Kind = "run"
		write(rp)
		if reproduces() {
			return path, true
		}
	} else {
		write(rp)
		if reproduces() {
			in, _ := json.Marshal(rp)
			out, _, err, _ := spawn(watchdog, strings.NewReader(string(in)), "-prop", p.ID, "-min")
			var m Replay
			if err == nil && json.Unmarshal(out, &m) == nil && m.Class == f.Class {
				write(m)
				if reproduces() {
					return path, true
				}
				write(rp)
			}
			return path, true
		}
	}
	// depends on what ran earlier in the same process
	rp.Kind = "batch"
	rp.From = f.Idx - f.Idx%batch
	write(rp)
	if reproduces() {
		return path, true
	}
	// depends on something outside the simulator (e.g. the iteration order
	// of a Go map): the violation was observed; try a few more times
	rp.Kind = "choices"
	if f.Class == "fatal" {
		rp.Kind = "run"
	}
	write(rp)
	for i := 0; i < 20; i++ {
		if reproduces() {
			return path, true
		}
	}
	return path, false
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props.All[r.Property]
	lim := uint64(3 << 30)
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	var res Result
	switch r.Kind {
	case "batch":
		for i := r.From; i <= r.Idx; i++ {
			res = runOne(p, vsim.NewSrc(runSeed(p.ID, r.Seed, i)))
			if res.Class != "" {
				break
			}
		}
	case "run":
		res = runOne(p, vsim.NewSrc(r.RunSeed))
	default:
		res = runOne(p, vsim.NewReplay(r.Choices))
	}
	for _, h := range res.Hist {
		fmt.Println("  ", h)
	}
	for _, h := range res.Trace {
		fmt.Println("   fault:", h)
	}
	if res.Class == "" {
		fmt.Println("NOT REPRODUCED")
		return 0
	}
	fmt.Printf("violation: %s\n", res.Msg)
	fmt.Printf("REPRODUCED class=%s\n", res.Class)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
	return 1
}

// minimise shrinks the vector of choices while the class of violation stays.
func minimise(p *props.Prop) {
	var r Replay
	if err := json.NewDecoder(os.Stdin).Decode(&r); err != nil {
		os.Exit(2)
	}
	prog := os.NewFile(3, "progress")
	deadline := time.Now().Add(60 * time.Second)
	best := r.Choices
	var bestRes Result
	tries := 0
	try := func(v []uint32) bool {
		if time.Now().After(deadline) || tries > 20000 {
			return false
		}
		tries++
		fmt.Fprintf(prog, "%d\n", tries)
		res := runOne(p, vsim.NewReplay(v))
		if res.Class != r.Class {
			return false
		}
		c := res.Choices
		for len(c) > 0 && c[len(c)-1] == 0 {
			c = c[:len(c)-1]
		}
		if len(c) > len(best) || len(c) == len(best) && !less(c, best) {
			return false
		}
		best, bestRes = append([]uint32(nil), c...), res
		return true
	}
	try(best)
	for changed := true; changed && time.Now().Before(deadline); {
		changed = false
		for k := len(best) / 2; k >= 1; k /= 2 {
			for i := 0; i+k <= len(best); {
				v := append(append([]uint32(nil), best[:i]...), best[i+k:]...)
				if try(v) {
					changed = true
				} else {
					i += k
				}
			}
		}
		for k := len(best) / 2; k >= 1; k /= 2 {
			for i := 0; i+k <= len(best); i += k {
				v := append([]uint32(nil), best...)
				zero := true
				for j := i; j < i+k; j++ {
					if v[j] != 0 {
						zero = false
					}
					v[j] = 0
				}
				if !zero && try(v) {
					changed = true
				}
			}
		}
		for i := 0; i < len(best); i++ {
			for i < len(best) && best[i] > 0 {
				old := best[i]
				v := append([]uint32(nil), best...)
				v[i] = old / 2
				if try(v) {
					changed = true
					continue
				}
				v = append([]uint32(nil), best...)
				v[i] = old - 1
				if old > 1 && try(v) {
					changed = true
					continue
				}
				break
			}
		}
	}
	if bestRes.Class != "" {
		r.Choices, r.Msg, r.Hist, r.Trace = append([]uint32{}, best...), bestRes.Msg, bestRes.Hist, bestRes.Trace
	}
	json.NewEncoder(os.Stdout).Encode(r)
}

func less(a, b []uint32) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func writeEvidence(p *props.Prop, rs []Batch, start time.Time, violations, planned, cut, procs int) {
	if *fEv == "" {
		return
	}
	hits := map[string]int{}
	structs, scheds := map[uint64]bool{}, map[uint64]bool{}
	var steps int64
	var simTime float64
	runs, nontriv, sw, over := 0, 0, 0, 0
	var samples [][]string
	for _, b := range rs {
		runs += b.Runs
		nontriv += b.Nontrivial
		sw += b.Switches
		over += b.Overruns
		steps += b.Steps
		simTime += b.SimTime
		for k, v := range b.Hits {
			hits[k] += v
		}
		for _, s := range b.Structs {
			structs[s] = true
		}
		for _, s := range b.Scheds {
			scheds[s] = true
		}
		if len(samples) < 4 {
			samples = append(samples, b.Samples...)
		}
	}
	faults, probes := map[string]int{}, map[string]int{}
	for k, v := range hits {
		if strings.HasPrefix(k, "fault.") {
			faults[strings.TrimPrefix(k, "fault.")] = v
		} else {
			probes[k] = v
		}
	}
	wall := time.Since(start).Seconds()
	instr := map[string]any{}
	if b, err := os.ReadFile(filepath.Join(filepath.Dir(os.Args[0]), "instrument.json")); err == nil {
		json.Unmarshal(b, &instr)
	}
	cov := map[string]any{
		"evaluations":              runs,
		"distinct_nontrivial":      len(structs),
		"rule":                     p.Rule,
		"samples":                  samples,
		"simulated_runs_per_hour":  int(float64(runs) / wall * 3600),
		"seeds_per_hour":           int(float64(runs) / wall * 3600),
		"nontrivial_runs":          nontriv,
		"planned_runs":             planned,
		"batches_cut_by_time":      cut,
		"runs_stopped_as_too_long": over,
		"statements_simulated":     steps,
		"simulated_clock_seconds":  simTime,
		"faults_injected":          faults,
		"probes":                   probes,
		"distinct_interleavings":   len(scheds),
		"interleaving_measure":     "distinct sequences of (task, statements run before handing over) over the runs",
		"context_switches":         sw,
		"real_components":          "all packages of godeep, built from /repo's working tree with a yield point before every statement",
		"stubbed_components":       "os, time, math/rand top level, fmt.Print*, terminal size, sync, channels, select and go statements (simulated stand-ins; maps reached from package-level variables, receivers and parameters are watched for concurrent use; package-level variables start anew with every simulated process); user activations, sample tensors, readers and writers (workload)",
		"instrumentation":          instr,
		"worker_processes":         procs,
	}
	ev := map[string]any{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration",
		"coverage": cov, "wall_s": wall, "violations": violations,
		"assumptions": []string{
			"interleavings are explored at statement granularity",
			"runs are sampled, not enumerated",
			"momentum is zero where the property says so",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(*fEv), 0o755)
	os.WriteFile(*fEv, b, 0o644)
}
