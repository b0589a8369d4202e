package props

import (
	"fmt"
	"hash/fnv"
	"time"

	"github.com/julioguillermo/godeep/types"

	"verif.local/sim/vsim"
)

func init() {
	register(&Prop{ID: "C16", Quick: 500000, Deep: 7500000, Run: runC16,
		Rule: "a drawn program (as in C11) is run in a new process in the plainest environment, and again with the same random stream in 1-2 other worlds: another time and clock behaviour, another terminal and output, another number of processors, process id and host, and after 0-3 other programs (or the same one) have used the library in that process; transcripts and the position of the random stream must agree; in part of the runs the same network is built with two streams, and its initial parameters must differ, and those of a layer may not be all alike; non-trivial: the world differs; distinct: hash of programs, worlds and outcomes",
	})
}

// world draws an environment in which everything may differ.
func (r *Run) world() *vsim.Env {
	e := r.environment()
	starts := []time.Duration{time.Nanosecond, time.Second, 24 * time.Hour, -40 * 365 * 24 * time.Hour, 123456789 * time.Microsecond, 30 * 365 * 24 * time.Hour, -54 * 365 * 24 * time.Hour}
	e.Clock = starts[r.N(len(starts))]
	e.CPUs = []int{1, 2, 3, 7, 64}[r.N(5)]
	e.Pid = r.Range(2, 70000)
	e.Host = []string{"a", "node-17", "build.example.org"}[r.N(3)]
	return e
}

func runC16(r *Run) {
	if r.N(5) == 4 {
		if r.Bool() {
			c16streams[float64](r)
		} else {
			c16streams[float32](r)
		}
		return
	}
	p := r.genProg()
	r.Op("program: %s", p.name)
	run := func(what string, p prog, id int) (*script, uint64) {
		s, t := p.start(r, id, nil, nil)
		r.Sim.Run()
		r.ended()
		s.finish(t)
		if t.Panic != nil {
			r.Fail("panic", "%s: a call panicked: %v\n%s", what, t.Panic, trim(t.Stack))
		}
		return s, t.Rng.Uint64()
	}
	r.Sim.Env = vsim.NewEnv()
	r.Sim.Restart()
	a, ra := run("the first process", p, 0)
	for w, n := 1, r.Range(1, 2); w <= n; w++ {
		env := vsim.NewEnv()
		if r.N(4) > 0 {
			env = r.world()
			r.Fault("other_world")
		}
		r.Sim.Env = env
		if r.N(4) > 0 {
			r.Sim.Restart()
		}
		earlier := r.N(4)
		for k := 0; k < earlier; k++ {
			q := p
			if r.N(3) > 0 {
				q = r.genProg()
			}
			q.vals = r.Seed()
			r.Op("world %d: earlier %s", w, q.name)
			r.Fault("earlier_use")
			run("an earlier program", q, 1+k)
		}
		b, rb := run(fmt.Sprintf("world %d", w), p, 0)
		c16same(r, a, b, w)
		if ra != rb {
			r.Fail("stream", "world %d: the same calls drew differently from the random stream", w)
		}
	}
}

func c16same(r *Run, a, b *script, w int) {
	for k := range a.log {
		if k >= len(b.log) {
			r.Fail("differs", "world %d: the program stops after observation %d", w, k)
		}
		if a.log[k] != b.log[k] {
			r.Fail("differs", "world %d: the program observes %q and, in the first process, %q", w, cut(b.log[k]), cut(a.log[k]))
		}
		h := fnv.New64a()
		h.Write([]byte(a.log[k]))
		r.Note(h.Sum64())
	}
	if len(b.log) > len(a.log) {
		r.Fail("differs", "world %d: the program also observes %q", w, cut(b.log[len(a.log)]))
	}
}

// c16streams: initial parameters come from the random stream.
func c16streams[T types.Number](r *Run) {
	spec := r.genSpec(NetOpts{MaxDepth: 3, NoConv: r.N(3) > 0})
	r.Op("streams: %s", spec)
	build := func(seed uint64) *Sys[T] {
		var y *Sys[T]
		r.MustRng("building and compiling", vsim.NewRng(seed), func() {
			y = buildSys[T](spec)
			if err := y.M.Compile(); err != nil {
				r.Fail("compile", "Compile of a valid network failed: %v", err)
			}
		})
		return y
	}
	s1 := r.Seed()
	s2 := r.Seed()
	if s1 == s2 {
		return
	}
	if r.Bool() {
		r.Sim.Restart()
	}
	a := build(s1)
	if r.Bool() {
		r.Sim.Restart()
	}
	if r.Bool() {
		r.Sim.Env = r.world()
	}
	b := build(s2)
	if r.Bool() {
		r.Sim.Restart()
	}
	c := build(s1)
	if df := a.Snap().diff(c.Snap()); df != "" {
		r.Fail("differs", "the same network built again from the same random stream has other parameters: %s", df)
	}
	r.Nontrivial = true
	pa, pb := a.Snap(), b.Snap()
	for i := range pa {
		if len(pa[i]) < 4 {
			continue
		}
		r.Hit("layers_compared")
		same := true
		for k := range pa[i] {
			same = same && pa[i][k] == pb[i][k]
		}
		if same {
			r.Fail("not-random", "all %d initial parameters of a layer are the same for two random streams", len(pa[i]))
		}
		for j := 0; j < i; j++ {
			if len(pa[j]) >= 4 && eqBits(pa[i], pa[j]) < 0 {
				r.Fail("not-random", "two layers have the same %d initial parameters", len(pa[j]))
			}
		}
		r.noteAll(pa[i])
	}
}
