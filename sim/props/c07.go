package props

import (
	"math"

	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif.local/sim/vsim"
)

func init() {
	register(&Prop{ID: "C07", Quick: 500000, Deep: 7500000,
		Run: func(r *Run) {
			if r.Bool() {
				runC07[float64](r)
			} else {
				runC07[float32](r)
			}
		},
		Rule: "random network, data set (with rejected samples at drawn places), epochs and batch size; the steps are identified by watching the network's input at the first activation call of each step and replayed one by one on a twin; training may be interrupted at a drawn activation call; non-trivial: more than one step, or a fault fired; distinct: hash of architecture, data-set layout, drawn steps and faults",
	})
}

// absErr is the reference for the reported loss.
func absErr[T types.Number](t, p []T) float64 {
	s := 0.0
	for i := range t {
		s += math.Abs(float64(t[i]) - float64(p[i]))
	}
	return s
}

// stepRef performs a single step on the twin and checks its loss.
func stepRef[T types.Number](r *Run, b *Sys[T], x, y tensor.Tensor[T], alpha, mom T) {
	p := b.predictT(r, x).GetData()
	var l T
	r.Must("TrainOne", func() {
		var err error
		l, err = b.M.TrainOne(x, y, alpha, mom)
		if err != nil {
			r.Fail("train-error", "TrainOne on a valid sample failed: %v", err)
		}
	})
	want := absErr(y.GetData(), p)
	tol := 1e-4
	if width[T]() == 8 {
		tol = 1e-9
	}
	if math.IsNaN(want) || math.IsInf(want, 0) || want > 1e30 {
		return
	}
	if got := float64(l); !(math.Abs(got-want) <= tol*(1+math.Abs(want))) {
		r.Fail("loss", "a step reports %v but the prediction before it was off by %v", got, want)
	}
}

// runShort: over many short trainings from different random streams, every
// sample turns up at every step.
func runShort[T types.Number](r *Run) {
	spec := r.genSpec(NetOpts{MaxDepth: 1, NoConv: true, NoBranch: true, Smooth: true})
	rng := newRng(r)
	a := newSys[T](r, spec)
	n := r.Range(2, 6)
	if r.N(4) == 3 {
		n = r.Range(7, 12)
	}
	epochs, batch := r.Range(1, 2), r.N(4)
	eff := batch
	if batch == 0 {
		eff = n
	}
	d := genData[T](rng, spec.In(), spec.Out(), n)
	r.Sim.StepCap = 1e9
	r.Op("%s %T samples %d epochs %d batch %d, 500 times", spec, *new(T), n, epochs, batch)
	a.train(r, d.X[0], d.Y[0], 0)
	k0 := a.Ctl.Calls
	a.train(r, d.X[0], d.Y[0], 0)
	per := a.Ctl.Calls - k0
	if per == 0 {
		return
	}
	xs := make([][]uint64, n)
	for i := range xs {
		xs[i] = bitsOf(d.X[i])
	}
	seen := make([]map[int]bool, epochs*eff)
	for i := range seen {
		seen[i] = map[int]bool{}
	}
	var start int64
	a.Ctl.Hook = func() {
		k := (a.Ctl.Calls - start - 1)
		if k%per != 0 || k/per >= int64(len(seen)) {
			return
		}
		in := bitsOf(a.M.Input)
		for i := range xs {
			if eqBits(in, xs[i]) < 0 {
				seen[k/per][i] = true
			}
		}
	}
	streams := newRng(r)
	for t := 0; t < 500; t++ {
		start = a.Ctl.Calls
		var err error
		r.MustRng("Train", vsim.NewRng(streams.Uint64()), func() {
			err = a.M.Train(d.X, d.Y, uint(epochs), uint(batch), 0, 0)
		})
		if err != nil {
			r.Fail("train-error", "training on a valid data set failed: %v", err)
		}
	}
	for i := range seen {
		for s := 0; s < n; s++ {
			if !seen[i][s] {
				r.Fail("eligible", "in 500 trainings sample %d of %d was never drawn at step %d", s, n, i)
			}
		}
	}
	r.Nontrivial = true
	r.Hit("eligibility_at_every_step")
}

func runC07[T types.Number](r *Run) {
	if r.N(400) == 399 {
		runShort[T](r)
		return
	}
	many := r.N(40) == 39 // long runs, for eligibility
	o := NetOpts{MaxDepth: 3}
	if many {
		o = NetOpts{MaxDepth: 1, NoConv: true, Smooth: true}
	}
	spec := r.genSpec(o)
	rng := newRng(r)
	var a, b *Sys[T]
	unused := !many && spec.Kind == "single" && r.N(5) == 4
	first := vsim.NewRng(4242)
	if unused {
		// the first thing that happens to the network is the training; the
		// twin gets the same initial parameters from the same random stream
		a, b = newSys[T](r, spec), newSys[T](r, spec)
		r.MustRng("Compile", vsim.NewRng(4242), func() { b.M.Compile() })
		r.Hit("trained_unused")
	} else {
		a, b = twins[T](r, spec, true)
	}
	n := r.Range(1, 5)
	if many {
		n = r.Range(2, 3)
		switch r.N(20) {
		case 16, 17:
			n = r.Range(4, 8)
		case 18:
			n = 40
		case 19:
			if spec.Kind == "single" {
				n = 300
			}
		}
		r.Sim.StepCap = 1e9
	}
	d := genData[T](rng, spec.In(), spec.Out(), n)
	bad := map[int]bool{}
	if r.N(3) == 2 {
		for i := range d.X {
			if r.N(3) == 2 {
				bad[i] = true
				if r.Bool() {
					d.X[i] = sample[T](rng, r.badShape(spec.In()))
				} else {
					d.Y[i] = sample[T](rng, r.badShape(spec.Out()))
				}
			}
		}
	}
	epochs, batch := r.N(4), r.N(6)
	if many {
		epochs, batch = 400, r.Range(3, 4)
		if n > 3 {
			epochs, batch = 10, n*3
			if n <= 8 {
				batch = n * n * 4
			}
			bad = map[int]bool{}
			d = genData[T](rng, spec.In(), spec.Out(), n)
		}
	}
	mom := fracT[T](0)
	if len(bad) == 0 && r.N(3) == 2 {
		mom = fracT[T](0.5)
	}
	alpha := fracT[T]([]float64{0.125, 0.01, 0.5, -0.25}[r.N(4)])
	if r.N(8) == 7 {
		alpha = fracT[T]([]float64{0, 1, 2, 1000, -3, 1e-9, 1e-300}[r.N(7)])
		if mom != 0 {
			mom = fracT[T]([]float64{0.9, 1, 1.5, -0.5}[r.N(4)])
		}
	}
	eff := batch
	if batch == 0 {
		eff = n
	}
	r.Op("%s %T samples %d bad %v epochs %d batch %d", spec, *new(T), n, bad, epochs, batch)
	// activation calls per step
	c := newSys[T](r, spec)
	g := genData[T](rng, spec.In(), spec.Out(), 1)
	c.train(r, g.X[0], g.Y[0], 0)
	k0 := c.Ctl.Calls
	c.train(r, g.X[0], g.Y[0], 0)
	per := c.Ctl.Calls - k0
	if !unused && r.N(6) == 5 {
		// mismatched data sets are rejected before anything changes
		p := a.Snap()
		xs, ys := d.X, d.Y
		if r.Bool() {
			xs = append(append([]tensor.Tensor[T]{}, xs...), d.X[0])
		} else {
			ys = append(append([]tensor.Tensor[T]{}, ys...), d.Y[0])
		}
		calls := a.Ctl.Calls
		var err error
		r.Must("Train", func() { err = a.M.Train(xs, ys, 2, 2, alpha, mom) })
		if err == nil {
			r.Fail("mismatch", "%d inputs with %d targets were accepted", len(xs), len(ys))
		}
		if df := a.Snap().diff(p); df != "" || a.Ctl.Calls != calls {
			r.Fail("mismatch", "mismatched data sets were rejected only after training had begun %s", df)
		}
		r.Fault("mismatched_data")
		r.Op("mismatch rejected")
	}
	if per == 0 {
		return
	}
	if !unused && !many && r.N(3) == 2 {
		// what happened before, to both alike
		e := fracT[T]([]float64{0.125, 0.0625, 0.5, 0}[r.N(4)])
		var m T
		if mom != 0 {
			m = fracT[T](0.25)
		}
		kind, cut := r.N(3), int64(1+r.N(int(2*per)))
		for _, y := range []*Sys[T]{a, b} {
			switch kind {
			case 0:
				y.train(r, g.X[0], g.Y[0], e)
			case 1:
				r.MustRng("Train", vsim.NewRng(77), func() { y.M.Train(d.X, d.Y, 1, 2, e, m) })
			case 2:
				y.Ctl.Arm(cut)
				r.Try("Train", func() { y.M.Train(g.X, g.Y, 1, 2, e, 0) })
				y.Ctl.Arm(0)
			}
		}
		r.Op("earlier training (%d)", kind)
		if df := a.Snap().diff(b.Snap()); df != "" {
			r.Fail("pairing", "the same earlier training: %s", df)
		}
	}
	// watch the steps
	type step struct {
		sample int
		before Params
	}
	var seq []step
	start := a.Ctl.Calls
	xs := make([][]uint64, n)
	for i := range xs {
		xs[i] = bitsOf(d.X[i])
	}
	unknown := -1
	var prev Params
	a.Ctl.Hook = func() {
		if (a.Ctl.Calls-start-1)%per != 0 {
			return
		}
		in := bitsOf(a.M.Input)
		s := -1
		for i := range xs {
			if !bad[i] && eqBits(in, xs[i]) < 0 {
				s = i
			}
		}
		if s < 0 && unknown < 0 {
			unknown = len(seq)
		}
		st := step{sample: s}
		if !many {
			st.before = a.Snap()
		}
		seq = append(seq, st)
	}
	_ = prev
	var cut int64
	if !many && r.N(4) == 3 && epochs > 0 {
		cut = int64(1 + r.N(int(per)*epochs*eff))
		a.Ctl.Arm(cut)
	}
	var err error
	train := func() { err = a.M.Train(d.X, d.Y, uint(epochs), uint(batch), alpha, mom) }
	var hit bool
	if unused {
		old := r.Rng
		r.Rng = first
		hit = r.Try("Train", train)
		r.Rng = old
	} else {
		hit = r.Try("Train", train)
	}
	a.Ctl.Hook = nil
	a.Ctl.Arm(0)
	total := a.Ctl.Calls - start
	doneSteps := int(total / per)
	if hit {
		doneSteps = int((total - 1) / per)
		r.Fault("panicking_activation")
		r.Sim.Tracef("activation call %d of the training panics", cut)
	} else if total%per != 0 {
		r.Fail("partial", "the training ended in the middle of a step: %d activation calls, %d per step", total, per)
	}
	order := make([]int, 0, len(seq))
	for _, s := range seq {
		order = append(order, s.sample)
	}
	if len(order) <= 40 {
		r.Op("steps %v, %d completed, error %v, interrupted %v", order, doneSteps, err != nil, hit)
	}
	if unknown >= 0 {
		r.Fail("foreign", "step %d was made on an input that is not in the data set", unknown)
	}
	if len(order) > 1 {
		r.Nontrivial = true
	}
	switch {
	case hit:
	case err != nil:
		if len(bad) == 0 {
			r.Fail("train-error", "training on a valid data set failed: %v", err)
		}
		r.Fault("rejected_sample")
		if doneSteps >= epochs*eff {
			r.Fail("count", "training failed after all %d steps had been made", doneSteps)
		}
	default:
		if doneSteps != epochs*eff {
			r.Fail("count", "%d epochs of %d made %d steps", epochs, eff, doneSteps)
		}
	}
	// the same steps one by one
	for i := 0; i < doneSteps; i++ {
		if !many {
			if df := seq[i].before.diff(b.Snap()); df != "" {
				r.Fail("pairing", "before step %d: %s (steps %v)", i, df, order)
			}
		}
		s := seq[i].sample
		if many {
			r.Must("TrainOne", func() {
				if _, err := b.M.TrainOne(d.X[s], d.Y[s], alpha, mom); err != nil {
					r.Fail("train-error", "TrainOne on a valid sample failed: %v", err)
				}
			})
		} else {
			stepRef(r, b, d.X[s], d.Y[s], alpha, mom)
		}
	}
	if df := a.Snap().diff(b.Snap()); df != "" {
		r.Fail("pairing", "after %d steps: %s (steps %v)", doneSteps, df, order)
	}
	if many && !hit {
		eligible(r, n, eff, len(bad), order, err)
	}
	// another round
	if !many && !hit && len(bad) == 0 && mom == 0 && r.N(3) == 2 {
		s1, s2 := vsim.NewRng(99), vsim.NewRng(99)
		r.MustRng("Train", s1, func() { err = a.M.Train(d.X, d.Y, 1, 2, alpha, 0) })
		r.MustRng("Train", s2, func() { err = b.M.Train(d.X, d.Y, 1, 2, alpha, 0) })
		if df := a.Snap().diff(b.Snap()); df != "" {
			r.Fail("pairing", "training again from the same random stream: %s", df)
		}
	}
}

// eligible: over a long training every sample turns up at every place.
func eligible(r *Run, n, batch, bad int, order []int, err error) {
	if bad > 0 {
		if err == nil {
			r.Fail("eligible", "%d steps never drew one of the %d unusable samples of %d", len(order), bad, n)
		}
		return
	}
	if n > 3 {
		seen := map[int]bool{}
		for _, s := range order {
			seen[s] = true
		}
		if len(seen) != n {
			r.Fail("eligible", "%d steps used only %d of %d samples", len(order), len(seen), n)
		}
		for k := 1; k <= 3; k++ {
			again := false
			for i := k; i < len(order); i++ {
				again = again || order[i] == order[i-k]
			}
			if !again {
				r.Fail("eligible", "in %d steps no sample of %d was drawn again %d steps later", len(order), n, k)
			}
		}
		if n <= 8 {
			pair := map[[2]int]bool{}
			for i := 1; i < len(order); i++ {
				pair[[2]int{order[i-1], order[i]}] = true
			}
			if len(pair) != n*n {
				r.Fail("eligible", "in %d steps only %d of the %d pairs of successive samples turned up", len(order), len(pair), n*n)
			}
		}
		r.Hit("eligibility_checked")
		return
	}
	at := map[[2]int]bool{}
	pair := map[[3]int]bool{} // place, sample before, sample
	for i, s := range order {
		at[[2]int{i % batch, s}] = true
		if i > 0 {
			pair[[3]int{i % batch, order[i-1], s}] = true
		}
	}
	for j := 0; j < batch; j++ {
		for s := 0; s < n; s++ {
			if !at[[2]int{j, s}] {
				r.Fail("eligible", "in 400 epochs sample %d of %d was never drawn at place %d of the batch", s, n, j)
			}
		}
	}
	for j := 0; j < batch; j++ {
		for s := 0; s < n; s++ {
			for t := 0; t < n; t++ {
				if !pair[[3]int{j, s, t}] {
					r.Fail("eligible", "in %d steps sample %d was never followed by sample %d at place %d of the batch", len(order), s, t, j)
				}
			}
		}
	}
	r.Hit("eligibility_checked")
}
