package props

import (
	"fmt"

	"github.com/julioguillermo/godeep/types"
)

func init() {
	register(&Prop{ID: "C10", Quick: 1000000, Deep: 15000000,
		Run: func(r *Run) {
			if r.Bool() {
				runC10[float64](r)
			} else {
				runC10[float32](r)
			}
		},
		Rule: "random architecture; histories of freezing and unfreezing layers, parts and the whole, completed, batched, rejected and interrupted training, saves and loads; non-trivial: something was frozen while training was attempted; distinct: hash of architecture and history",
	})
}

func runC10[T types.Number](r *Run) {
	smooth := r.Bool()
	o := NetOpts{Smooth: smooth}
	long := r.Long()
	if long {
		o = small
		o.Smooth = smooth
	}
	spec := r.genSpec(o)
	r.Op("%s %T", spec, *new(T))
	rng := newRng(r)
	alpha := fracT[T](0.125)
	mom := fracT[T](0)
	if r.N(3) == 2 {
		mom = fracT[T](0.5)
	}
	frozen := map[int]bool{}
	var base Params
	trained := false
	var a *Sys[T]
	part := func(k int) (from, to int) {
		for i := 0; i < k; i++ {
			from += len(a.Parts[i].Layers)
		}
		return from, from + len(a.Parts[k].Layers)
	}
	mark := func(from, to int, v bool) {
		for i := from; i < to; i++ {
			frozen[i] = v
		}
	}
	// what happens to the parts before they are put together
	r.Must("building "+spec.Kind, func() {
		buildSysAfter[T](spec, func(y *Sys[T]) {
			a = y
			for i := r.N(4); i > 0 && len(y.Parts) > 1; i-- {
				first := y.Parts[0].M
				kinds := 4
				if spec.Kind == "composed" { // a model that was used before cannot be nested
					kinds = 6
				}
				switch r.N(kinds) {
				case 0, 1, 2:
					k, v := r.N(len(y.Parts)), r.N(4) == 0
					y.Parts[k].M.SetTrainable(v)
					from, to := part(k)
					mark(from, to, !v)
					r.Op("part %d trainable %v before they are put together", k, v)
				case 3:
					k, v := r.N(len(y.Layers)), r.N(4) == 0
					y.Layers[k].SetTrainable(v)
					frozen[k] = !v
					r.Op("layer %d trainable %v before they are put together", k, v)
				case 4:
					pd := genData[T](rng, spec.Archs[0].InShape(), spec.Archs[0].OutShape(), 1)
					if _, err := first.Predict(pd.X[0]); err != nil {
						r.Fail("predict-error", "Predict of a valid input failed: %v", err)
					}
					r.Op("part 0 predicts before they are put together")
				case 5:
					pd := genData[T](rng, spec.Archs[0].InShape(), spec.Archs[0].OutShape(), 1)
					for j := r.Range(1, 2); j > 0; j-- {
						if _, err := first.TrainOne(pd.X[0], pd.Y[0], alpha, mom); err != nil {
							r.Fail("train-error", "TrainOne on a valid sample failed: %v", err)
						}
					}
					trained = true
					r.Op("part 0 is trained before they are put together")
				}
			}
			base = y.Snap()
		})
	})
	if q := a.Snap(); len(base) == len(q) {
		for l := range q {
			if len(base[l]) == len(q[l]) && eqBits(base[l], q[l]) >= 0 {
				r.Fail("frozen", "putting the parts together changed parameter %d of layer %d", eqBits(base[l], q[l]), l)
			}
		}
	}
	if r.N(3) > 0 {
		a.compile(r)
		tame(a.Layers, rng)
	}
	d := genData[T](rng, spec.In(), spec.Out(), 2)
	c := newSys[T](r, spec)
	c.train(r, d.X[0], d.Y[0], alpha)
	n0 := c.Ctl.Calls
	c.train(r, d.X[0], d.Y[0], alpha)
	step := c.Ctl.Calls - n0
	n := r.Range(2, 9)
	if long {
		n = r.Many()
	}
	for i := 0; i < n; i++ {
		var p Params
		was := a.compiled()
		if was {
			p = a.Snap()
		}
		what := ""
		changes := false
		switch r.N(9) {
		case 0, 1:
			k, v := r.N(len(a.Layers)), r.N(3) == 0
			r.Must("SetTrainable", func() { a.Layers[k].SetTrainable(v) })
			frozen[k] = !v
			what = fmt.Sprintf("layer %d trainable %v", k, v)
		case 2:
			v := r.N(3) == 0
			r.Must("SetTrainable", func() { a.M.SetTrainable(v) })
			mark(0, len(a.Layers), !v)
			what = fmt.Sprintf("model trainable %v", v)
		case 3:
			k, v := r.N(len(a.Parts)), r.N(3) == 0
			r.Must("SetTrainable", func() { a.Parts[k].M.SetTrainable(v) })
			from, to := part(k)
			mark(from, to, !v)
			what = fmt.Sprintf("part %d trainable %v", k, v)
		case 4, 5:
			r.Must("TrainOne", func() {
				if _, err := a.M.TrainOne(d.X[i%2], d.Y[i%2], alpha, mom); err != nil {
					r.Fail("train-error", "TrainOne on a valid sample failed: %v", err)
				}
			})
			what = "step"
		case 6:
			r.Must("Train", func() {
				if err := a.M.Train(d.X, d.Y, uint(r.Range(1, 2)), uint(r.N(3)), alpha, mom); err != nil {
					r.Fail("train-error", "training on a valid data set failed: %v", err)
				}
			})
			what = "training"
		case 7:
			if step > 0 {
				if r.Bool() {
					a.interrupted(r, d.X[0], d.Y[0], alpha, step)
				} else {
					a.rejected(r, d, alpha)
				}
			}
			what = "incomplete step"
		case 8:
			w := healthy(r)
			a.save(r, w)
			if r.Bool() {
				rd := r.reader(w.Got)
				a.load(r, rd)
			}
			what = "save and load"
			_ = changes
		}
		r.Op("%s", what)
		q := a.Snap()
		for l := range q {
			if frozen[l] {
				r.Nontrivial = true
				if was && len(p) == len(q) && len(p[l]) == len(q[l]) && eqBits(p[l], q[l]) >= 0 {
					r.Fail("frozen", "%s changed parameter %d of frozen layer %d", what, eqBits(p[l], q[l]), l)
				}
			}
		}
	}
	// the learning rate of a part that was trained on its own is its own
	if smooth && width[T]() == 8 && !trained {
		if r.Bool() {
			r.Must("SetTrainable", func() { a.M.SetTrainable(true) })
			mark(0, len(a.Layers), false)
			r.Op("unfreeze all")
		}
		learns(r, a, nil, rng, frozen)
	}
}
