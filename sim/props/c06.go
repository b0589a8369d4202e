package props

import (
	"fmt"
	"math"

	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	register(&Prop{ID: "C06", Quick: 700000, Deep: 10500000,
		Run: func(r *Run) {
			if r.Bool() {
				runC06[float64](r)
			} else {
				runC06[float32](r)
			}
		},
		Rule: "random architecture; histories of completed, rejected and interrupted training steps (panic at a drawn activation or derivative call) compared with a twin that is never interrupted; non-trivial: an interruption or rejection fired; distinct: hash of architecture, history and interruption points",
	})
}

// twins makes two networks with the same parameters.
func twins[T types.Number](r *Run, spec *Spec, tamed bool) (a, b *Sys[T]) {
	a, b = newSys[T](r, spec), newSys[T](r, spec)
	a.compile(r)
	b.compile(r)
	if tamed {
		tame(a.Layers, newRng(r))
	}
	setParams(a.Layers, b.Layers)
	return
}

// badShape draws a shape that differs from sh.
func (r *Run) badShape(sh []uint) []uint {
	b := append([]uint(nil), sh...)
	switch r.N(6) {
	case 0:
		b[r.N(len(b))]++
	case 1:
		b = append(b, 1)
	case 2:
		b = append([]uint{1}, b...)
	case 3:
		i := r.N(len(b))
		if b[i] > 1 {
			b[i]--
		} else {
			b[i] = 3
		}
	case 4:
		b[len(b)-1] *= 2
	case 5:
		// same number of values, other shape
		if len(sh) > 1 {
			b = []uint{size(sh)}
		} else {
			b = []uint{1, sh[0]}
		}
	}
	return b
}

// rejected attempts a training step whose sample has a wrong shape.
func (y *Sys[T]) rejected(r *Run, d data[T], alpha T) {
	x, t := d.X[r.N(len(d.X))], d.Y[r.N(len(d.Y))]
	rng := newRng(r)
	what := ""
	if r.Bool() {
		sh := r.badShape(y.Spec.In())
		x = sample[T](rng, sh)
		what = fmt.Sprintf("input %v", sh)
	} else {
		sh := r.badShape(y.Spec.Out())
		t = sample[T](rng, sh)
		what = fmt.Sprintf("target %v", sh)
	}
	batch := r.N(3) == 2
	var err error
	r.Must("training on a bad sample", func() {
		if batch {
			err = y.M.Train([]tensor.Tensor[T]{x}, []tensor.Tensor[T]{t}, 1, 1, alpha, 0)
		} else {
			_, err = y.M.TrainOne(x, t, alpha, 0)
		}
	})
	if err == nil {
		r.Fail("accepted", "a sample with %s was accepted by a network %v -> %v", what, y.Spec.In(), y.Spec.Out())
	}
	r.Fault("rejected_sample")
	r.Op("step rejected: %s", what)
}

// interrupted attempts a training step in which activation call k panics.
func (y *Sys[T]) interrupted(r *Run, x, t tensor.Tensor[T], alpha T, calls int64) {
	k := int64(1 + r.N(int(calls)))
	batch := r.N(3) == 2
	y.Ctl.Arm(k)
	hit := r.Try("an interrupted training step", func() {
		if batch {
			y.M.Train([]tensor.Tensor[T]{x}, []tensor.Tensor[T]{t}, 1, 1, alpha, 0)
		} else {
			y.M.TrainOne(x, t, alpha, 0)
		}
	})
	y.Ctl.Arm(0)
	if !hit {
		r.Hit("interruption_did_not_surface")
		r.Op("interruption at call %d of %d did not come through", k, calls)
		return
	}
	r.Fault("panicking_activation")
	r.Sim.Tracef("activation call %d of %d of the step panics", k, calls)
	r.Op("step interrupted at call %d of %d", k, calls)
}

func runC06[T types.Number](r *Run) {
	smooth := r.Bool()
	o := NetOpts{Smooth: smooth}
	long := r.Long()
	if long {
		o = small
		o.Smooth = smooth
	}
	spec := r.genSpec(o)
	r.Op("%s %T", spec, *new(T))
	rng := newRng(r)
	a, b := twins[T](r, spec, smooth)
	d := genData[T](rng, spec.In(), spec.Out(), r.Range(1, 3))
	alphas := []float64{0.125, 0.01, 0.5, 1, -0.25}
	alpha := fracT[T](alphas[r.N(len(alphas))])
	// how many activation calls a step makes
	c := newSys[T](r, spec)
	c.train(r, d.X[0], d.Y[0], alpha)
	before := c.Ctl.Calls
	c.train(r, d.X[0], d.Y[0], alpha)
	calls := c.Ctl.Calls - before
	frozen := map[int]bool{}
	if r.N(4) == 3 {
		for k := range a.Layers {
			if r.N(3) == 2 {
				frozen[k] = true
				r.Must("SetTrainable", func() {
					for _, y := range []*Sys[T]{a, b, c} {
						y.Layers[k].SetTrainable(false)
					}
				})
				r.Op("layer %d frozen", k)
			}
		}
	}
	steps := 0
	start := a.Snap()
	n := r.Range(2, 8)
	if long {
		n = r.Many()
	}
	for i := 0; i < n; i++ {
		p := a.Snap()
		j := r.N(len(d.X))
		alpha := alpha
		if r.N(3) == 2 {
			alpha = fracT[T](append(alphas, 0)[r.N(len(alphas)+1)])
		}
		switch k := r.N(7); k {
		case 0, 1:
			la := a.train(r, d.X[j], d.Y[j], alpha)
			lb := b.train(r, d.X[j], d.Y[j], alpha)
			steps++
			r.Op("step on sample %d", j)
			if !b.Snap().finite(width[T]()) {
				r.Hit("overflow")
				return
			}
			if bits(la) != bits(lb) {
				r.Fail("trace", "after incomplete steps, a step reports loss %v instead of %v", la, lb)
			}
			if df := a.Snap().diff(b.Snap()); df != "" {
				r.Fail("trace", "after incomplete steps, a step ends with other parameters: %s", df)
			}
			continue
		case 2:
			pa, pb := a.predict(r, d.X[j]), b.predict(r, d.X[j])
			r.Op("predict")
			if eqBits(pa, pb) >= 0 {
				r.Fail("trace", "after incomplete steps, a prediction differs")
			}
		case 3:
			a.rejected(r, d, alpha)
		default:
			if calls == 0 {
				continue
			}
			// A step whose numbers leave the range of the type may leave an
			// infinity in the momentum terms, which zero momentum does not
			// cancel; the property is about steps that stay finite.
			setParams(b.Layers, c.Layers)
			c.train(r, d.X[j], d.Y[j], alpha)
			if !c.Snap().finite(width[T]()) {
				r.Hit("overflow")
				return
			}
			a.interrupted(r, d.X[j], d.Y[j], alpha, calls)
			if r.Hits["interruption_did_not_surface"] > 0 {
				// the step was completed in spite of it (or swallowed): only
				// a completed step may have changed anything
				df := a.Snap().diff(p)
				if df == "" {
					break
				}
				b.train(r, d.X[j], d.Y[j], alpha)
				if df := a.Snap().diff(b.Snap()); df != "" {
					r.Fail("atomic", "an interrupted step that reported nothing left a partial update: %s", df)
				}
				r.Hits["interruption_did_not_surface"] = 0
				continue
			}
		}
		if df := a.Snap().diff(p); df != "" {
			r.Fail("atomic", "a step that did not complete (or a prediction) changed the parameters: %s", df)
		}
	}
	// the twins go on together
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		j := i % len(d.X)
		la, lb := a.train(r, d.X[j], d.Y[j], alpha), b.train(r, d.X[j], d.Y[j], alpha)
		if !b.Snap().finite(width[T]()) {
			r.Hit("overflow")
			return
		}
		if bits(la) != bits(lb) {
			r.Fail("trace", "after incomplete steps, a step reports loss %v instead of %v", la, lb)
		}
		if df := a.Snap().diff(b.Snap()); df != "" {
			r.Fail("trace", "after incomplete steps, a step ends with other parameters: %s", df)
		}
	}
	if eqBits(a.predict(r, d.X[0]), b.predict(r, d.X[0])) >= 0 {
		r.Fail("trace", "after incomplete steps, a prediction differs")
	}
	if smooth && width[T]() == 8 {
		learns(r, a, start, rng, frozen)
	}
}

// learns: completed steps change the weights and the biases of all layers that
// are not frozen. Only for smooth networks with moderate parameters.
func learns[T types.Number](r *Run, a *Sys[T], _ Params, rng interface{ Float() float64 }, frozen map[int]bool) {
	a.compile(r)
	tame(a.Layers, newRng(r))
	for _, l := range a.Layers { // gradients vanish where weights are near zero or sums are large
		for _, t := range params(l) {
			f := 1.0
			if n := float64(t.GetSize()) / float64(t.GetShape()[0]); n > 4 {
				f = 2 / math.Sqrt(n)
			}
			for _, o := range t.GetOperands() {
				o.Value = (o.Value*fracT[T](0.75) + sgn(o.Value)*fracT[T](0.15)) * fracT[T](f)
			}
		}
	}
	p := perTensor(a)
	d := genData[T](newRng(r), a.Spec.In(), a.Spec.Out(), 4)
	missing := ""
	alpha := fracT[T]([]float64{0.0625, 0.0625, 0.0625, 0.001, 1, 40, -0.25}[r.N(7)])
	for i := 0; i < 4; i++ {
		a.train(r, d.X[i], d.Y[i], alpha)
		missing = ""
		q := perTensor(a)
		for l := range p {
			for k := range p[l] {
				same := eqBits(p[l][k], q[l][k]) < 0
				if frozen[l] && !same {
					r.Fail("frozen", "training changed a parameter of frozen layer %d", l)
				}
				if !frozen[l] && same {
					missing = fmt.Sprintf("parameter tensor %d of layer %d", k, l)
				}
			}
		}
		if missing == "" {
			r.Hit("all_layers_learn")
			return
		}
	}
	r.Fail("not-learning", "4 completed steps did not change %s", missing)
}

func sgn[T types.Number](v T) T {
	if v < 0 {
		return fracT[T](-1)
	}
	return 1
}

func perTensor[T types.Number](a *Sys[T]) [][][]uint64 {
	v := make([][][]uint64, len(a.Layers))
	for i, l := range a.Layers {
		for _, t := range params(l) {
			var b []uint64
			for _, o := range t.GetOperands() {
				b = append(b, bits(o.Value))
			}
			v[i] = append(v[i], b)
		}
	}
	return v
}
