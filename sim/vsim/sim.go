// Package vsim is the simulator: it owns the scheduling of all tasks, the
// clock, the random streams, the file system and the standard output that the
// code under test sees. Exactly one goroutine runs at any time; it hands over
// only in Y, which the build overlay inserts before every statement of the
// repository.
package vsim

import (
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"time"
)

// budget is the number of statements the running task may execute before the
// simulator is asked again. Only the running goroutine touches it.
var budget int64 = math.MaxInt64

// Y is called before every statement of the code under test.
func Y() {
	budget--
	if budget < 0 {
		slow()
	}
}

// Epoch numbers the simulated processes: it changes with every simulation and
// with every crash.
var Epoch int64

// S is the simulation in progress (nil outside runs).
var S *Sim

// Proc is a simulated process: its tasks die together and only the durable
// part of the file system survives it.
type Proc struct {
	Name string
	Dead bool
}

type state uint8

const (
	ready state = iota
	blocked
	done
)

type Task struct {
	Name    string
	Proc    *Proc
	Rng     *Rng // stream behind math/rand for this task
	fn      func()
	wake    chan struct{}
	st      state
	cond    func() bool // when blocked: may it go on?
	Panic   any
	Stack   string
	Steps   int64 // statements executed
	Killed  bool
	started bool
	child   bool // started by a go statement of the code under test
}

// Sim is one run.
type Sim struct {
	Src   *Src
	FS    *FS
	Env   *Env
	Main  *Task // stands for the harness itself
	cur   *Task
	tasks []*Task
	back  chan struct{}

	slice    int64 // budget given to the running task
	Steps    int64 // statements executed in the whole run
	StepCap  int64 // of one Run
	capLeft  int64
	crashAt  int64 // statements until the crash, <0: none
	crash    *Proc
	Crashed  bool
	Hung     bool
	Deadlock bool
	// GoPanic is a panic that left a goroutine of the code under test: it would
	// have ended the whole process.
	GoPanic      any
	GoPanicStack string

	chans map[uintptr]*chanState
	maps  map[uintptr]*Task // maps being written
	keep  []any

	gaps     []int // preemption gaps to draw from, nil: no preemption
	inner    int   // preemptions left for goroutines of the code under test
	preempts int   // preemptions left

	Switches int
	SchedSig uint64 // hash of the sequence of (task, statements run)
	Stats    map[string]int
	Trace    []string
}

func New(src *Src) *Sim {
	s := &Sim{Src: src, back: make(chan struct{}), Stats: map[string]int{}, crashAt: -1, StepCap: 60e6, capLeft: 60e6, inner: 300}
	s.Main = &Task{Name: "harness", Proc: &Proc{Name: "harness"}, Rng: NewRng(1)}
	s.cur = s.Main
	s.FS = NewFS(s)
	s.Env = NewEnv()
	S = s
	budget = math.MaxInt64
	s.Restart()
	return s
}

// resets initialise the package-level variables of the code under test and run
// its init functions again, packages in the order of Go's own initialisation.
var resets []func()

// OnReset is called by what the build overlay adds to packages with
// package-level variables or init functions.
func OnReset(fn func()) { resets = append(resets, fn) }

// Restart is what a new process finds: package-level variables as initialised.
func (s *Sim) Restart() {
	Epoch++
	for _, fn := range resets {
		fn()
	}
}

// Close ends what is left of the goroutines of the code under test.
func (s *Sim) Close() {
	for _, t := range s.tasks {
		if t.st != done {
			s.reap(t)
		}
	}
	s.tasks = nil
}

// Now is the number of statements executed so far, the running slice included.
func (s *Sim) Now() int64 {
	if s.cur == s.Main {
		return s.Steps
	}
	b := budget
	if b < 0 {
		b = 0
	}
	return s.Steps + s.slice - b
}

// Live is the number of tasks that have not ended.
func (s *Sim) Live() int {
	n := 0
	for _, t := range s.tasks {
		if t.st != done {
			n++
		}
	}
	return n
}

// Cur is the task on whose behalf code runs now.
func (s *Sim) Cur() *Task { return s.cur }

func (s *Sim) Count(k string) { s.Stats[k]++ }

func (s *Sim) Tracef(f string, a ...any) {
	if len(s.Trace) < 400 {
		s.Trace = append(s.Trace, fmt.Sprintf(f, a...))
	}
}

type killed struct{}

// slow: the slice of the running task is over.
func slow() {
	s := S
	if s == nil || s.cur == s.Main {
		budget = math.MaxInt64
		return
	}
	t := s.cur
	if t.Killed || t.Proc.Dead {
		// deferred functions of a dead process: they run, without effect
		budget = 1 << 40
		return
	}
	s.account(t)
	if s.crashAt == 0 && s.crash == t.Proc {
		s.crashAt = -1
		s.Crashed = true
		t.Proc.Dead = true
		Epoch++
		s.Count("fault.crash")
		s.kill(t)
	}
	if s.capLeft <= 0 {
		s.Hung = true
		s.kill(t)
	}
	s.handOver(t)
	if t.Killed || t.Proc.Dead {
		s.kill(t)
	}
}

func (s *Sim) kill(t *Task) {
	t.Killed = true
	budget = 1 << 40
	runtime.Goexit()
}

// account books the statements executed in the current slice. The statement
// about to run when the budget goes below zero has not run yet.
func (s *Sim) account(t *Task) {
	used := s.slice - budget
	if budget < 0 {
		used = s.slice
	}
	t.Steps += used
	s.Steps += used
	s.capLeft -= used
	if s.crashAt > 0 && s.crash == t.Proc {
		s.crashAt -= used
		if s.crashAt < 0 {
			s.crashAt = 0
		}
	}
	s.SchedSig = (s.SchedSig ^ uint64(used)) * 1099511628211
	s.slice = 0
}

func (s *Sim) handOver(t *Task) {
	s.back <- struct{}{}
	<-t.wake
}

// Block suspends the running task until cond holds. Outside tasks it is an
// error, because nothing else could make cond true.
func (s *Sim) Block(cond func() bool) {
	if cond() {
		return
	}
	t := s.cur
	if t == s.Main {
		// the harness prepares something and the code under test leaves it to
		// a goroutine of its own
		for !cond() {
			var next *Task
			for _, x := range s.tasks {
				if x.child && !x.Proc.Dead && (x.st == ready || x.st == blocked && x.cond()) {
					next = x
					break
				}
			}
			if next == nil || s.capLeft <= 0 {
				panic("vsim: the harness would block forever")
			}
			next.st, next.cond = ready, nil
			s.resume(next, min(s.capLeft, 1e6))
		}
		return
	}
	if t.Proc.Dead || t.Killed {
		runtime.Goexit()
	}
	s.account(t)
	t.st, t.cond = blocked, cond
	s.handOver(t)
	if t.Killed || t.Proc.Dead {
		s.kill(t)
	}
}

// Gosched offers a scheduling point.
func (s *Sim) Gosched() {
	if t := s.cur; t != s.Main && !t.Proc.Dead && !t.Killed {
		s.account(t)
		s.handOver(t)
		if t.Killed || t.Proc.Dead {
			s.kill(t)
		}
	}
}

// Spawn adds a task to the run in progress (or to the next Run).
func (s *Sim) Spawn(name string, p *Proc, rng *Rng, fn func()) *Task {
	t := &Task{Name: name, Proc: p, Rng: rng, fn: fn, wake: make(chan struct{})}
	s.tasks = append(s.tasks, t)
	return t
}

// Go is what a go statement of the code under test becomes.
func Go(fn func()) {
	s := S
	if s == nil {
		return // every simulation initialises the packages anew
	}
	p := s.cur
	t := s.Spawn(p.Name+"/go", p.Proc, NewRng(p.Rng.Uint64()), fn)
	t.child = true
}

func (t *Task) run(s *Sim) {
	defer func() {
		if r := recover(); r != nil {
			t.Panic = r
			t.Stack = string(debug.Stack())
			if t.Killed || t.Proc.Dead {
				t.Panic = nil // what a dying process still does has no effect
			} else if t.child && s.GoPanic == nil {
				s.GoPanic, s.GoPanicStack = r, t.Stack
			}
		}
		if s.slice > 0 {
			s.account(t)
		}
		t.st = done
		s.cur = s.Main
		s.back <- struct{}{}
	}()
	t.fn()
}

// Sched configures preemption for the next Run: at most max preemptions, at
// distances drawn from gaps.
func (s *Sim) Sched(gaps []int, max int) { s.gaps, s.preempts = gaps, max }

// CrashAfter makes process p die when it is about to execute statement n+1 of
// the next Run.
func (s *Sim) CrashAfter(p *Proc, n int64) { s.crash, s.crashAt = p, n }

// Run executes all spawned tasks until all are done, dead or stuck.
func (s *Sim) Run() {
	s.Crashed, s.Hung, s.Deadlock = false, false, false
	s.capLeft = s.StepCap
	drain := -1
	for {
		var run []*Task
		callers, children := false, false
		for _, t := range s.tasks {
			if t.st == done {
				continue
			}
			if t.Proc.Dead {
				s.reap(t)
				continue
			}
			if !t.child {
				callers = true
			}
			if t.st == ready || t.st == blocked && t.cond() {
				run = append(run, t)
				children = children || t.child
			}
		}
		if !callers {
			// the calls have returned; goroutines they left behind go on now
			// or, with the next calls, later
			if len(run) == 0 {
				break
			}
			if drain < 0 {
				drain = s.Src.N(2)
			}
			if drain == 1 {
				break
			}
		}
		if len(run) == 0 {
			s.Deadlock = true
			s.Close()
			break
		}
		if s.Hung {
			s.Close()
			break
		}
		i := 0
		if len(run) > 1 {
			i = s.Src.N(len(run))
		}
		t := run[i]
		t.st, t.cond = ready, nil
		sl := s.capLeft
		if len(run) > 1 {
			gaps, left := s.gaps, &s.preempts
			if children && (len(gaps) == 0 || *left <= 0) {
				gaps, left = innerGaps, &s.inner
			}
			if *left > 0 && len(gaps) > 0 {
				if g := s.Src.N(len(gaps) + 1); g > 0 {
					*left--
					sl = int64(1 + s.Src.N(2*gaps[g-1]))
				}
			}
			// nobody is starved by a task that spins
			sl = min(sl, 1e6)
		}
		s.resume(t, sl)
	}
	k := s.tasks[:0]
	for _, t := range s.tasks {
		if t.st != done {
			k = append(k, t)
		}
	}
	s.tasks = k
	if s.Crashed {
		s.Restart()
	}
	s.crashAt, s.crash = -1, nil
	s.gaps, s.preempts = nil, 0
}

var innerGaps = []int{2, 15, 200}

func (s *Sim) resume(t *Task, sl int64) {
	if sl > s.capLeft {
		sl = s.capLeft
	}
	if s.crashAt >= 0 && s.crash == t.Proc && sl > s.crashAt {
		sl = s.crashAt
	}
	for i, x := range s.tasks {
		if x == t {
			s.SchedSig = (s.SchedSig ^ uint64(i+1)) * 1099511628211
		}
	}
	s.Switches++
	s.slice = sl
	s.cur = t
	budget = sl
	s.step(t)
}

func (s *Sim) step(t *Task) {
	if !t.started {
		t.started = true
		go t.run(s)
	} else {
		t.wake <- struct{}{}
	}
	<-s.back
	s.cur = s.Main
	budget = math.MaxInt64
}

// reap ends a task of a dead process: its goroutine unwinds without effect.
func (s *Sim) reap(t *Task) {
	t.Killed = true
	if !t.started {
		t.st = done
		return
	}
	s.cur = t
	s.slice = 0
	budget = 1 << 40
	s.step(t)
	t.st = done
}

// Env is the simulated environment of a process: clock, terminal, stdout.
type Env struct {
	Clock    time.Duration
	Tick     func(call int) time.Duration // clock change at each reading
	Readings int
	Term     func(call int) (w, h int, err error)
	TermUses int
	Out      []byte
	OutWrite func(call int, p []byte) (int, error)
	OutUses  int
	CPUs     int // processors there are; 0: the usual number
	Pid      int
	Host     string
}

var epoch = time.Unix(1700000000, 0)

func NewEnv() *Env { return &Env{} }

func (e *Env) Now() time.Time {
	d := time.Microsecond
	if e.Tick != nil {
		d = e.Tick(e.Readings)
	}
	e.Readings++
	e.Clock += d
	return epoch.Add(e.Clock)
}

func (e *Env) Write(p []byte) (int, error) {
	c := e.OutUses
	e.OutUses++
	if e.OutWrite != nil {
		return e.OutWrite(c, p)
	}
	if len(e.Out) < 1<<16 {
		e.Out = append(e.Out, p...)
	}
	return len(p), nil
}
