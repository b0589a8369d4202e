package props

import (
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	register(&Prop{ID: "C09", Quick: 700000, Deep: 10500000,
		Run: func(r *Run) {
			if r.Bool() {
				runC09[float64](r)
			} else {
				runC09[float32](r)
			}
		},
		Rule: "random architecture and history of predictions (also with infinite and not-a-number inputs), compilations, rejected inputs, healthy and failing saves and loads, completed, rejected and interrupted steps and interrupted predictions; after each, predictions are compared with a fresh network holding the same parameters; non-trivial: a fault fired; distinct: hash of architecture, history and fault places",
	})
}

type handed[T types.Number] struct {
	t     tensor.Tensor[T]
	shape []uint
	bits  []uint64
}

func runC09[T types.Number](r *Run) {
	o := NetOpts{MaxDepth: 4}
	long := r.Long()
	if long {
		o = small
	}
	spec := r.genSpec(o)
	r.Op("%s %T", spec, *new(T))
	rng := newRng(r)
	a := newSys[T](r, spec)
	if r.Bool() {
		a.compile(r)
		tame(a.Layers, rng)
	}
	d := genData[T](rng, spec.In(), spec.Out(), 3)
	for i := range d.X {
		if r.N(6) == 5 {
			ops := d.X[i].GetOperands()
			ops[rng.Intn(len(ops))].Value = special[T](rng)
		}
	}
	var ins [][]uint64
	for _, x := range d.X {
		ins = append(ins, bitsOf(x))
	}
	alpha := fracT[T](0.125)
	var outs []handed[T]
	var ck []byte
	// activation calls of a prediction and of a step
	c := newSys[T](r, spec)
	c.predict(r, d.X[0])
	n0 := c.Ctl.Calls
	c.train(r, d.X[0], d.Y[0], alpha)
	ff, step := n0, c.Ctl.Calls-n0
	keep := func(o tensor.Tensor[T]) {
		var sh []uint
		var b []uint64
		r.Must("reading a prediction", func() { sh, b = o.GetShape(), bitsOf(o) })
		if len(outs) < 12 {
			outs = append(outs, handed[T]{o, sh, b})
		}
		if len(sh) != len(spec.Out()) || len(b) != int(size(spec.Out())) {
			r.Fail("shape", "a prediction has shape %v instead of %v", sh, spec.Out())
		}
	}
	undisturbed := func() {
		for i, x := range d.X {
			if eqBits(bitsOf(x), ins[i]) >= 0 || len(x.GetShape()) != len(spec.In()) {
				r.Fail("input-changed", "the caller's input %d was changed", i)
			}
		}
		for i, o := range outs {
			if eqBits(bitsOf(o.t), o.bits) >= 0 {
				r.Fail("output-changed", "prediction %d, handed out earlier, was changed by later activity", i)
			}
		}
	}
	compare := func(what string) {
		if !a.compiled() {
			return
		}
		f := newSys[T](r, spec)
		f.compile(r)
		setParams(a.Layers, f.Layers)
		x := d.X[r.N(len(d.X))]
		p := a.Snap()
		oa := a.predictT(r, x)
		of := f.predict(r, x)
		if eqBits(bitsOf(oa), of) >= 0 {
			r.Fail("history", "after %s the network predicts %v, a fresh one with the same parameters %v", what, oa.GetData(), of)
		}
		if df := a.Snap().diff(p); df != "" {
			r.Fail("predict-changes", "predicting changed the network: %s", df)
		}
		keep(oa)
		undisturbed()
	}
	n := r.Range(1, 8)
	if long {
		n = r.Many()
	}
	for i := 0; i < n; i++ {
		x, y := d.X[r.N(len(d.X))], d.Y[r.N(len(d.Y))]
		var p Params
		was := a.compiled()
		if was {
			p = a.Snap()
		}
		same := true // the operation must leave the parameters alone
		what := ""
		switch r.N(17) {
		case 15:
			r.Must("Train", func() {
				if err := a.M.Train(d.X, d.Y, uint(r.N(3)), uint(r.N(3)), alpha, 0); err != nil {
					r.Fail("train-error", "Train on valid samples failed: %v", err)
				}
			})
			same = false
			what = "a training"
		case 16:
			on := r.Bool()
			if r.Bool() {
				a.M.SetTrainable(on)
			} else {
				a.Layers[r.N(len(a.Layers))].SetTrainable(on)
			}
			what = "freezing or unfreezing"
		case 0:
			keep(a.predictT(r, x))
			what = "a prediction"
		case 1:
			a.compile(r)
			what = "Compile"
		case 2:
			r.Must("CompileBackPropagation", func() {
				if err := a.M.CompileBackPropagation(); err != nil {
					r.Fail("compile", "CompileBackPropagation failed: %v", err)
				}
			})
			what = "CompileBackPropagation"
		case 3, 4:
			var err error
			sh := r.badShape(spec.In())
			var o tensor.Tensor[T]
			r.Must("Predict", func() { o, err = a.M.Predict(sample[T](rng, sh)) })
			if err == nil {
				r.Fail("accepted", "an input of shape %v was accepted by a network for %v", sh, spec.In())
			}
			_ = o
			r.Fault("rejected_input")
			what = "a rejected input"
		case 5:
			w := healthy(r)
			if err := a.save(r, w); err != nil {
				r.Fail("save-error", "saving to a healthy writer failed: %v", err)
			}
			ck = w.Got
			what = "a save"
		case 6:
			w := &simWriter{r: r, FailAt: r.N(60), Err: ioErrs[r.N(len(ioErrs))].err}
			a.save(r, w)
			what = "a failing save"
		case 7, 8:
			if ff == 0 {
				break
			}
			k := int64(1 + r.N(int(ff)))
			a.Ctl.Arm(k)
			if r.Try("an interrupted prediction", func() { a.M.Predict(x) }) {
				r.Fault("panicking_activation")
				r.Sim.Tracef("activation call %d of %d of a prediction panics", k, ff)
			}
			a.Ctl.Arm(0)
			what = "an interrupted prediction"
		case 9, 10:
			if step == 0 {
				break
			}
			k := int64(1 + r.N(int(step)))
			a.Ctl.Arm(k)
			if r.Try("an interrupted step", func() { a.M.TrainOne(x, y, alpha, 0) }) {
				r.Fault("panicking_activation")
				r.Sim.Tracef("activation call %d of %d of a step panics", k, step)
			} else {
				same = false
			}
			a.Ctl.Arm(0)
			what = "an interrupted step"
		case 11:
			a.train(r, x, y, alpha)
			same = false
			what = "a step"
		case 12:
			if len(ck) == 0 {
				a.rejected(r, d, alpha)
				what = "a rejected step"
				break
			}
			rd := r.reader(ck)
			if r.Bool() {
				rd.FailAt, rd.Err, rd.Sticky = r.N(len(ck)), ioErrs[r.N(len(ioErrs))].err, true
			}
			a.load(r, rd)
			same = false
			what = "a load"
		case 13:
			// the caller scribbles over a prediction it was given
			if len(outs) == 0 {
				break
			}
			k := r.N(len(outs))
			for _, o := range outs[k].t.GetOperands() {
				o.Value = fracT[T](-777)
			}
			outs = append(outs[:k], outs[k+1:]...)
			what = "writing into a prediction"
		case 14:
			r.Must("String", func() {
				if was && spec.Kind == "single" {
					_ = a.M.String()
					a.M.ResetIS()
				}
			})
			what = "String and ResetIS"
		}
		r.Op("%s", what)
		if was && same {
			if df := a.Snap().diff(p); df != "" {
				r.Fail("predict-changes", "%s changed the parameters: %s", what, df)
			}
		}
		undisturbed()
		if r.N(3) > 0 || i == n-1 {
			compare(what)
		}
		if r.N(10) == 9 {
			// the caller reuses its input buffer
			k := r.N(len(d.X))
			for _, o := range d.X[k].GetOperands() {
				o.Value = T(rng.Float()*2 - 1)
			}
			ins[k] = bitsOf(d.X[k])
			undisturbed()
			r.Op("input %d overwritten", k)
		}
	}
}
