package props

import (
	"fmt"

	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	register(&Prop{ID: "C15", Quick: 600000, Deep: 9000000,
		Run: func(r *Run) {
			if r.Bool() {
				runC15[float64](r)
			} else {
				runC15[float32](r)
			}
		},
		Rule: "1-5 random models composed into one; histories of predictions with the whole and with parts, training of the whole and of parts (completed, batched, rejected, interrupted), freezing, saves and loads (healthy and failing); after every step predictions of the whole and of a drawn part are compared with stand-alone twins of the parts; non-trivial: a fault fired; distinct: hash of architectures, history and fault places",
	})
}

func runC15[T types.Number](r *Run) {
	n := r.Range(2, 3)
	if r.N(8) == 7 {
		n = []int{1, 4, 5}[r.N(3)]
	}
	long := r.Long()
	smooth := r.Bool()
	spec := &Spec{Kind: "composed"}
	for i := 0; i < n; i++ {
		o := NetOpts{MaxDepth: 2, Smooth: smooth, Bare: true}
		if n > 3 {
			o.MaxDepth = 1
		}
		if long {
			o.MaxDepth, o.NoConv = 1, true
		}
		if i > 0 {
			o.In = spec.Archs[i-1].OutShape()
		}
		spec.Archs = append(spec.Archs, r.genArch(o))
	}
	r.Op("%s %T", spec, *new(T))
	rng := newRng(r)
	a := newSys[T](r, spec)
	a.compile(r)
	tame(a.Layers, rng)
	d := genData[T](rng, spec.In(), spec.Out(), 3)
	alpha := fracT[T](0.125)
	// stand-alone twins of the parts
	var twin []*Net[T]
	r.Must("building the twins", func() {
		for _, p := range spec.Archs {
			t := build[T](p)
			if err := t.M.Compile(); err != nil {
				r.Fail("compile", "Compile of a valid network failed: %v", err)
			}
			twin = append(twin, t)
		}
	})
	sync := func() {
		for i, p := range a.Parts {
			setParams(p.Layers, twin[i].Layers)
		}
	}
	c := newSys[T](r, spec)
	c.predict(r, d.X[0])
	n0 := c.Ctl.Calls
	c.train(r, d.X[0], d.Y[0], alpha)
	ff, step := n0, c.Ctl.Calls-n0
	part := func(k int, x tensor.Tensor[T], what string) []uint64 {
		var p, q tensor.Tensor[T]
		r.Must("Predict", func() {
			var err error
			if p, err = a.Parts[k].M.Predict(x); err != nil {
				r.Fail("predict-error", "part %d rejects a valid input: %v", k, err)
			}
			if q, err = twin[k].M.Predict(x); err != nil {
				r.Fail("predict-error", "a stand-alone model rejects a valid input: %v", err)
			}
		})
		r.noteAll(bitsOf(p))
		if eqBits(bitsOf(p), bitsOf(q)) >= 0 {
			r.Fail("part", "after %s part %d predicts %v, the same model alone %v", what, k, p.GetData(), q.GetData())
		}
		return bitsOf(p)
	}
	frozen := map[int]bool{}
	compare := func(what string) {
		sync()
		before := a.Snap()
		x := d.X[r.N(len(d.X))]
		if r.N(3) == 0 {
			k := r.N(n)
			part(k, sample[T](rng, spec.Archs[k].InShape()), what)
		}
		got := a.predict(r, x)
		var y tensor.Tensor[T] = x
		r.Must("Predict", func() {
			for k := range twin {
				var err error
				if y, err = twin[k].M.Predict(y); err != nil {
					r.Fail("predict-error", "part %d does not accept the prediction of the part before: %v", k, err)
				}
			}
		})
		if eqBits(got, bitsOf(y)) >= 0 {
			r.Fail("pipeline", "after %s the composed model does not predict what its parts predict one after the other", what)
		}
		if r.N(3) == 0 {
			// through the parts themselves
			y = x
			r.Must("Predict", func() {
				for k := range a.Parts {
					var err error
					if y, err = a.Parts[k].M.Predict(y); err != nil {
						r.Fail("predict-error", "part %d does not accept the prediction of the part before: %v", k, err)
					}
				}
			})
			if eqBits(got, bitsOf(y)) >= 0 {
				r.Fail("pipeline", "after %s the composed model does not predict what feeding the parts by hand gives", what)
			}
		}
		if df := a.Snap().diff(before); df != "" {
			r.Fail("predict-changes", "predicting changed the parameters: %s", df)
		}
	}
	var ck []byte
	var ckP Params
	m := r.Range(1, 8)
	if long {
		m = r.Many()
	}
	for i := 0; i < m; i++ {
		p := a.Snap()
		x, y := d.X[r.N(len(d.X))], d.Y[r.N(len(d.Y))]
		what := ""
		keeps := false
		alpha := fracT[T]([]float64{0.125, 0.125, 0.0625, 0, -0.03125}[r.N(5)])
		switch r.N(15) {
		case 13, 14:
			// a part is trained on its own, completely or not
			k := r.N(n)
			ps := a.part(k)
			px, py := sample[T](rng, ps.Spec.In()), sample[T](rng, ps.Spec.Out())
			what = fmt.Sprintf("a step of part %d", k)
			complete := false
			switch r.N(6) {
			case 0:
				ps.rejected(r, data[T]{X: []tensor.Tensor[T]{px}, Y: []tensor.Tensor[T]{py}}, alpha)
				what, keeps = fmt.Sprintf("a rejected step of part %d", k), true
			case 1:
				if step == 0 {
					continue
				}
				ps.interrupted(r, px, py, alpha, step)
				what, keeps = fmt.Sprintf("an interrupted step of part %d", k), r.Hits["interruption_did_not_surface"] == 0
			case 2:
				r.Must("Train", func() {
					if err := ps.M.Train([]tensor.Tensor[T]{px}, []tensor.Tensor[T]{py}, 1, uint(r.N(3)), alpha, 0); err != nil {
						r.Fail("train-error", "training a part on a valid data set failed: %v", err)
					}
				})
			default:
				ps.train(r, px, py, alpha)
				complete = true
			}
			q, at := a.Snap(), 0
			same, open := true, true
			for j, o := range a.Parts {
				for range o.Layers {
					differs := eqBits(p[at], q[at]) >= 0
					switch {
					case j == k:
						same = same && !differs
						open = open && !frozen[at]
					case differs && j < k && !frozen[at]:
						r.Known("C15", "train-later-part", "%s changed layer %d of part %d", what, at, j)
					case differs:
						r.Fail("other-part", "%s changed layer %d of part %d", what, at, j)
					}
					at++
				}
			}
			if complete && same && open {
				// would the same model on its own have learnt?
				sync()
				var was, is Params
				r.Must("TrainOne", func() {
					was = snapLayers(twin[k].Layers)
					if _, err := twin[k].M.TrainOne(px, py, alpha, 0); err != nil {
						r.Fail("train-error", "training a model of its own on a valid sample failed: %v", err)
					}
					is = snapLayers(twin[k].Layers)
				})
				if df := is.diff(was); df != "" {
					if k < n-1 {
						r.Known("C15", "train-earlier-part", "training part %d changed nothing, the same model on its own learns: %s", k, df)
					} else {
						r.Fail("no-learning", "training the last part changed nothing, the same model on its own learns: %s", df)
					}
				}
			}
			r.Hit("part_trained")
		case 0:
			k := r.N(n)
			sync()
			part(k, sample[T](rng, spec.Archs[k].InShape()), "nothing")
			what, keeps = fmt.Sprintf("a prediction with part %d", k), true
		case 1, 2, 3:
			a.train(r, x, y, alpha)
			what = "a step"
		case 4:
			r.Must("Train", func() {
				if err := a.M.Train(d.X, d.Y, 1, uint(r.N(3)), alpha, 0); err != nil {
					r.Fail("train-error", "training on a valid data set failed: %v", err)
				}
			})
			what = "a training"
		case 5:
			a.rejected(r, d, alpha)
			what, keeps = "a rejected step", true
		case 6:
			if step == 0 {
				continue
			}
			a.interrupted(r, x, y, alpha, step)
			what, keeps = "an interrupted step", r.Hits["interruption_did_not_surface"] == 0
		case 7:
			if ff == 0 {
				continue
			}
			// the whole or a part is interrupted while predicting
			k := r.N(n + 1)
			v := x
			mod := a.M
			if k < n {
				v, mod = sample[T](rng, spec.Archs[k].InShape()), a.Parts[k].M
			}
			a.Ctl.Arm(int64(1 + r.N(int(ff))))
			if r.Try("an interrupted prediction", func() { mod.Predict(v) }) {
				r.Fault("panicking_activation")
			}
			a.Ctl.Arm(0)
			what, keeps = fmt.Sprintf("an interrupted prediction (%d)", k), true
		case 8:
			k := r.N(n + 1)
			mod, sh := a.M, spec.In()
			if k < n {
				mod, sh = a.Parts[k].M, spec.Archs[k].InShape()
			}
			var err error
			b := r.badShape(sh)
			r.Must("Predict", func() { _, err = mod.Predict(sample[T](rng, b)) })
			if err == nil {
				r.Fail("accepted", "an input of shape %v was accepted for %v", b, sh)
			}
			r.Fault("rejected_input")
			what, keeps = "a rejected input", true
		case 9:
			v := r.N(3) == 0
			k := r.N(n + 1)
			mod := a.M
			from, to := 0, len(a.Layers)
			if k < n {
				mod = a.Parts[k].M
				for j := 0; j < k; j++ {
					from += len(a.Parts[j].Layers)
				}
				to = from + len(a.Parts[k].Layers)
			}
			r.Must("SetTrainable", func() { mod.SetTrainable(v) })
			for j := from; j < to; j++ {
				frozen[j] = !v
			}
			what, keeps = fmt.Sprintf("trainable %v (%d)", v, k), true
		case 10:
			w := healthy(r)
			if err := a.save(r, w); err != nil {
				r.Fail("save-error", "saving to a healthy writer failed: %v", err)
			}
			ck, ckP = w.Got, a.Snap()
			what, keeps = "a save", true
		case 11:
			w := &simWriter{r: r, FailAt: r.N(60), Err: ioErrs[r.N(len(ioErrs))].err}
			a.save(r, w)
			what, keeps = "a save to a failing writer", true
		case 12:
			if ck == nil {
				continue
			}
			if r.N(3) == 0 && len(ck) > 0 {
				rd := r.reader(ck[:r.N(len(ck))])
				if err := a.load(r, rd); err == nil {
					r.Fail("accepted", "an incomplete checkpoint of the whole was accepted")
				}
				r.Fault("truncated_checkpoint")
				what = "a load of an incomplete checkpoint"
				break
			}
			if err := a.load(r, r.reader(ck)); err != nil {
				r.Fail("load-error", "loading an intact checkpoint failed: %v", err)
			}
			if df := a.Snap().diff(ckP); df != "" {
				r.Fail("restore", "a checkpoint of the whole does not restore all parts: %s", df)
			}
			what = "a load"
		}
		r.Op("%s", what)
		q := a.Snap()
		if keeps {
			if df := q.diff(p); df != "" {
				r.Fail("changes", "%s changed the parameters: %s", what, df)
			}
		}
		compare(what)
	}
	if smooth && width[T]() == 8 {
		if r.N(3) == 0 {
			k, from := n-1, 0
			for j := 0; j < k; j++ {
				from += len(a.Parts[j].Layers)
			}
			fr := map[int]bool{}
			for j := range a.Parts[k].Layers {
				fr[j] = frozen[from+j]
			}
			learns(r, a.part(k), nil, rng, fr)
			compare("training the last part")
		}
		learns(r, a, nil, rng, frozen)
		compare("training")
	}
}

// part gives a part of a composed model as a network of its own.
func (y *Sys[T]) part(k int) *Sys[T] {
	p := y.Parts[k]
	return &Sys[T]{Spec: &Spec{Kind: "single", Archs: []*Arch{p.A}}, M: p.M, Layers: p.Layers, Parts: []*Net[T]{p}, Ctl: y.Ctl}
}
