package props

import (
	"errors"
	"syscall"
	"time"

	"github.com/julioguillermo/godeep/types"

	"verif.local/sim/vsim"
)

func init() {
	register(&Prop{ID: "C08", Quick: 800000, Deep: 12000000,
		Run: func(r *Run) {
			if r.Bool() {
				runC08[float64](r)
			} else {
				runC08[float32](r)
			}
		},
		Rule: "1-3 trainings of a random network, each in a drawn environment (clock: still, creeping, jumping forwards and backwards, huge; terminal: absent, any width, failing later; output: healthy, failing, short, failing from a drawn write on) against a twin in the plainest environment with the same random stream; non-trivial: the environment was not plain; distinct: hash of architecture, sizes and environment",
	})
}

func (r *Run) environment() *vsim.Env {
	e := vsim.NewEnv()
	rng := newRng(r)
	jumps := []time.Duration{0, time.Microsecond, 299 * time.Millisecond, 300 * time.Millisecond, 301 * time.Millisecond, time.Second, time.Hour, -time.Second, -24 * time.Hour, 200 * 365 * 24 * time.Hour, -150 * 365 * 24 * time.Hour, 1}
	mode := r.N(6)
	fixed := jumps[r.N(len(jumps))]
	switch mode {
	case 0:
	case 1:
		e.Tick = func(int) time.Duration { return fixed }
	case 2:
		e.Tick = func(int) time.Duration { return jumps[rng.Intn(len(jumps))] }
	case 3:
		e.Tick = func(c int) time.Duration {
			if c%2 == 0 {
				return time.Hour
			}
			return -time.Hour
		}
	case 4:
		e.Tick = func(int) time.Duration { return time.Second }
	case 5:
		at := r.N(30)
		e.Tick = func(c int) time.Duration {
			if c == at {
				return fixed
			}
			return time.Millisecond
		}
	}
	widths := []int{80, 0, 1, 2, 3, 5, 10, 20, 30, 40, 50, 60, 61, 62, 63, 64, 65, 66, 70, 100, 132, 200, 1000, 65535}
	tm := r.N(4)
	w := widths[r.N(len(widths))]
	if r.N(3) == 2 {
		w = r.N(120)
	}
	switch tm {
	case 1:
		e.Term = func(int) (int, int, error) { return w, 24, nil }
	case 2:
		e.Term = func(int) (int, int, error) { return widths[rng.Intn(len(widths))], rng.Intn(50), nil }
	case 3:
		e.Term = func(c int) (int, int, error) {
			if c > 0 {
				return 0, 0, syscall.EIO
			}
			return w, 24, nil
		}
	}
	out := r.N(5)
	at := r.N(6)
	oe := ioErrs[r.N(len(ioErrs))]
	fail := func(p []byte) (int, error) {
		r.Fault("stdout")
		if r.Sim.Env.OutUses%2 == 0 {
			return 0, oe.err
		}
		return len(p) / 2, oe.err
	}
	switch out {
	case 1:
		e.OutWrite = func(c int, p []byte) (int, error) { return fail(p) }
	case 2:
		e.OutWrite = func(c int, p []byte) (int, error) {
			if c >= at {
				return fail(p)
			}
			return len(p), nil
		}
	case 3:
		e.OutWrite = func(c int, p []byte) (int, error) {
			r.Fault("stdout")
			return 0, errors.New("output is gone")
		}
	case 4:
		e.OutWrite = func(c int, p []byte) (int, error) {
			if rng.Intn(2) == 0 {
				return fail(p)
			}
			return len(p), nil
		}
	}
	r.Op("clock mode %d jump %v, terminal mode %d width %d, output mode %d from %d %s", mode, fixed, tm, w, out, at, oe.name)
	if mode > 0 && mode != 1 || mode == 1 && fixed != 0 {
		r.Fault("clock")
	}
	if tm > 0 {
		r.Fault("terminal")
	}
	r.Sim.Tracef("clock mode %d, terminal mode %d width %d, output mode %d", mode, tm, w, out)
	return e
}

func runC08[T types.Number](r *Run) {
	long := r.Long()
	o := NetOpts{MaxDepth: 2, NoConv: r.N(4) > 0}
	if long {
		o = small
	}
	spec := r.genSpec(o)
	r.Op("%s %T", spec, *new(T))
	rng := newRng(r)
	a, b := twins[T](r, spec, r.Bool())
	samples := r.Range(1, 4)
	if r.N(8) == 7 {
		samples = r.Range(9, 12)
	}
	d := genData[T](rng, spec.In(), spec.Out(), samples)
	if r.N(4) == 3 {
		// losses that are long, infinite or not a number
		for _, y := range d.Y {
			for _, o := range y.GetOperands() {
				if r.N(2) == 1 {
					o.Value = []T{fracT[T](1e30), fracT[T](123456.7), fracT[T](-99999999), fracT[T](1e9)}[rng.Intn(4)]
				}
				if r.N(8) == 7 {
					o.Value = special[T](rng)
				}
			}
		}
	}
	plain := vsim.NewEnv()
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		epochs, batch := uint(r.N(4)), uint(r.N(5))
		switch r.N(12) {
		case 9:
			epochs = uint(r.Range(8, 14))
		case 10:
			batch = uint(r.Range(8, 14))
		case 11:
			epochs, batch = uint(r.Range(9, 11)), uint(r.Range(9, 11))
		}
		if long && i == 0 {
			// numbers of three and four digits
			switch r.N(10) {
			case 0, 1, 2, 3:
				epochs, batch = uint(r.Range(95, 130)), uint(r.Range(1, 2))
			case 4, 5, 6, 7:
				epochs, batch = uint(r.Range(1, 2)), uint(r.Range(95, 130))
			case 8:
				epochs, batch = uint(r.Range(995, 1010)), 1
			case 9:
				epochs, batch = 1, uint(r.Range(995, 1010))
			}
		}
		alpha := fracT[T]([]float64{0.125, 0.01}[r.N(2)])
		seed := r.Seed()
		r.Op("epochs %d batch %d", epochs, batch)
		env := r.environment()
		ra, rb := vsim.NewRng(seed), vsim.NewRng(seed)
		var ea, eb error
		r.Sim.Env = plain
		r.MustRng("Train", rb, func() { eb = b.M.Train(d.X, d.Y, epochs, batch, alpha, 0) })
		r.Sim.Env = env
		r.MustRng("Train", ra, func() { ea = a.M.Train(d.X, d.Y, epochs, batch, alpha, 0) })
		r.Sim.Env = plain
		r.Sim.Env.Clock += env.Clock
		if eb != nil {
			r.Fail("train-error", "training on a valid data set failed: %v", eb)
		}
		if ea != nil {
			r.Fail("failed", "training failed because of its environment: %v", ea)
		}
		if df := a.Snap().diff(b.Snap()); df != "" {
			r.Fail("differs", "training in another environment ended with other parameters: %s", df)
		}
		if a.Ctl.Calls != b.Ctl.Calls {
			r.Fail("differs", "training in another environment did another number of activation calls")
		}
		if ra.Uint64() != rb.Uint64() {
			r.Fail("stream", "training in another environment drew differently from the random stream")
		}
		if eqBits(a.predict(r, d.X[0]), b.predict(r, d.X[0])) >= 0 {
			r.Fail("differs", "after training in another environment the prediction differs")
		}
		if len(env.Out) > 0 {
			r.Hit("progress_written")
		}
		if env.OutUses > 1 {
			r.Hit("progress_more_than_final")
		}
	}
}
