// Package props holds the workloads and oracles, one per property.
package props

import (
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"strings"

	"verif.local/sim/vsim"
)

// Violation is how an oracle reports that the property does not hold.
type Violation struct {
	Class string // stable name of what was violated, kept while minimising
	Msg   string
}

// Run is one simulated run.
type Run struct {
	*vsim.Src
	Sim  *vsim.Sim
	Rng  *vsim.Rng // stream of the default process
	Hist []string  // what happened, in order
	Sig  uint64    // hash of everything observed
	Hits map[string]int
	// Struct identifies what is distinct about this run (architecture,
	// history, fault places), for counting distinct cases.
	Struct     uint64
	Nontrivial bool
}

func NewRun(src *vsim.Src) *Run {
	s := vsim.New(src)
	return &Run{Src: src, Sim: s, Rng: vsim.NewRng(77), Hits: s.Stats, Sig: 14695981039346656037, Struct: 14695981039346656037}
}

func (r *Run) Fail(class, f string, a ...any) {
	panic(&Violation{Class: class, Msg: fmt.Sprintf(f, a...)})
}

// Op records a step of the history.
func (r *Run) Op(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if len(r.Hist) < 400 {
		r.Hist = append(r.Hist, s)
	}
	h := fnv.New64a()
	h.Write([]byte(s))
	r.Struct = (r.Struct ^ h.Sum64()) * 1099511628211
	r.Note(h.Sum64())
}

// Note folds an observation into the signature of the run.
func (r *Run) Note(v uint64) { r.Sig = (r.Sig ^ v) * 1099511628211 }

func (r *Run) Hit(k string) { r.Hits[k]++ }

// known holds the findings that known_findings.txt lists as not repaired, by
// property and name.
var known = map[string]string{}

func init() {
	b, _ := os.ReadFile(os.Getenv("SIM_KNOWN"))
	for _, l := range strings.Split(string(b), "\n") {
		var prop, name string
		if n, _ := fmt.Sscanf(l, "known: property=%s %s", &prop, &name); n == 2 {
			known[prop+" "+strings.TrimSuffix(name, ":")] = strings.TrimSpace(strings.TrimPrefix(l, "known: property="+prop+" "))
		}
	}
}

// KnownText gives the line of a listed finding.
func KnownText(prop, name string) string { return known[prop+" "+name] }

// Known reports a violation unless it is exactly the named finding and that is
// listed; the runs that met it are counted.
func (r *Run) Known(prop, name, format string, a ...any) {
	if known[prop+" "+name] == "" {
		r.Fail(name, format, a...)
	}
	r.Hit("known." + name)
}

// Fault counts an injected fault that really fired.
func (r *Run) Fault(k string) { r.Hits["fault."+k]++; r.Nontrivial = true }

// Out is how a call into the library ended.
type Out struct {
	Panic   any
	Stack   string
	Steps   int64
	Crashed bool
}

// Injected is the panic value of a user function that fails on purpose.
type Injected struct{ Call int64 }

func (o Out) Injected() bool { _, ok := o.Panic.(Injected); return ok }

// Do runs fn as the only task of process p and waits for its end.
func (r *Run) Do(p *vsim.Proc, rng *vsim.Rng, fn func()) Out {
	t := r.Sim.Spawn(p.Name, p, rng, fn)
	r.Sim.Run()
	if v, ok := t.Panic.(*Violation); ok {
		panic(v)
	}
	r.ended()
	return Out{Panic: t.Panic, Stack: t.Stack, Steps: t.Steps, Crashed: r.Sim.Crashed}
}

func (r *Run) ended() {
	if r.Sim.Hung {
		r.Fail("hang", "a call did not finish within %d statements", r.Sim.StepCap)
	}
	if r.Sim.GoPanic != nil {
		r.Fail("process-ended", "a goroutine of the library panicked, which ends the process: %v\n%s", r.Sim.GoPanic, trim(r.Sim.GoPanicStack))
	}
	if r.Sim.Deadlock {
		r.Fail("deadlock", "tasks wait for each other for ever")
	}
}

var worker = &vsim.Proc{Name: "caller"}

// Must runs fn; a panic of the library is a violation.
func (r *Run) Must(what string, fn func()) {
	r.MustRng(what, r.Rng, fn)
}

func (r *Run) MustRng(what string, rng *vsim.Rng, fn func()) {
	o := r.Do(worker, rng, fn)
	if o.Panic != nil {
		r.Fail("panic", "%s panicked: %v\n%s", what, o.Panic, trim(o.Stack))
	}
}

// Try runs fn where an injected panic may surface; any other panic is a
// violation. It reports whether the injected panic came through.
func (r *Run) Try(what string, fn func()) bool {
	o := r.Do(worker, r.Rng, fn)
	if o.Panic != nil && !o.Injected() {
		r.Fail("panic", "%s panicked: %v\n%s", what, o.Panic, trim(o.Stack))
	}
	return o.Panic != nil
}

// Long decides whether this is one of the rare runs with a long history (on a
// small network).
func (r *Run) Long() bool {
	if r.N(60) < 59 {
		return false
	}
	r.Hit("long_history")
	r.Sim.StepCap = 1e9
	return true
}

// Many draws the length of a long history.
func (r *Run) Many() int {
	if r.N(5) == 4 {
		return r.Range(90, 270)
	}
	return r.Range(9, 45)
}

var small = NetOpts{MaxDepth: 1, NoConv: true}

func trim(s string) string {
	l := strings.Split(s, "\n")
	var k []string
	for i, x := range l {
		if strings.Contains(x, "godeep/") && len(k) < 12 {
			k = append(k, x)
			if i+1 < len(l) {
				k = append(k, l[i+1])
			}
		}
	}
	return strings.Join(k, "\n")
}

// --- bits ---

type number interface {
	~float32 | ~float64 | ~int | ~int16 | ~int32 | ~int64
}

func bits[T number](v T) uint64 {
	switch x := any(v).(type) {
	case float32:
		return uint64(math.Float32bits(x))
	case float64:
		return math.Float64bits(x)
	case int:
		return uint64(x)
	case int16:
		return uint64(uint16(x))
	case int32:
		return uint64(uint32(x))
	case int64:
		return uint64(x)
	}
	panic("unreachable")
}

func allBits[T number](v []T) []uint64 {
	b := make([]uint64, len(v))
	for i := range v {
		b[i] = bits(v[i])
	}
	return b
}

func eqBits(a, b []uint64) int {
	if len(a) != len(b) {
		return 0
	}
	for i := range a {
		if a[i] != b[i] {
			return i
		}
	}
	return -1
}

func (r *Run) noteAll(b []uint64) {
	for _, v := range b {
		r.Note(v)
	}
}

// newRng derives a stream for bulk data from one choice.
func newRng(r *Run) *vsim.Rng { return vsim.NewRng(r.Seed()*2654435761 + 12345) }

// Prop is a checked property.
type Prop struct {
	ID    string
	Run   func(r *Run)
	Quick int // runs per tier
	Deep  int
	Rule  string
	Real  string
	Stub  string
}

var All = map[string]*Prop{}

func register(p *Prop) { All[p.ID] = p }
