package props

import (
	"io"

	"github.com/julioguillermo/godeep/types"
)

func init() {
	register(&Prop{ID: "C02", Quick: 900000, Deep: 13500000,
		Run: func(r *Run) {
			if r.Bool() {
				runC02[float64](r)
			} else {
				runC02[float32](r)
			}
		},
		Rule: "random architecture and history; 1-5 saves, each to a destination that fails at a drawn byte with a drawn error (once or for good, accepting part of the failing write or nothing), healthy saves in between; non-trivial: a write fault fired; distinct: hash of architecture, history, fault places and outcomes",
	})
	register(&Prop{ID: "C03", Quick: 1200000, Deep: 18000000,
		Run: func(r *Run) {
			if r.Bool() {
				runC03[float64](r)
			} else {
				runC03[float32](r)
			}
		},
		Rule: "random architecture and checkpoint; 1-5 loads, each from a source that ends early or fails at a drawn byte with a drawn error (once or for good, alone or together with data), healthy loads in between; non-trivial: the source failed or ended early; distinct: hash of architecture, history, fault places and outcomes",
	})
}

// history does a few ordinary things with the network.
func (y *Sys[T]) history(r *Run, d data[T], max int) {
	for i, n := 0, r.N(max+1); i < n; i++ {
		switch r.N(7) {
		case 5:
			y.partIO(r)
		case 6:
			// preparing without saving, saving without preparing
			if !y.compiled() {
				break
			}
			k := r.N(4)
			r.Must("Save", func() {
				switch k {
				case 0:
					y.M.ResetSave()
				case 1:
					y.M.ResetLoad()
				case 2:
					y.M.Save(healthy(r))
				case 3:
					y.M.ResetSave()
					y.M.Save(healthy(r))
					y.M.ResetLoad()
				}
			})
			r.Op("stray %d", k)
		case 0:
			y.train(r, d.X[r.N(len(d.X))], d.Y[r.N(len(d.Y))], fracT[T](0.125))
			r.Op("train")
		case 1:
			y.predict(r, d.X[r.N(len(d.X))])
			r.Op("predict")
		case 2:
			y.compile(r)
			r.Op("compile")
		case 3:
			if err := y.save(r, healthy(r)); err != nil {
				r.Fail("save-error", "saving to a healthy writer failed: %v", err)
			}
			r.Op("save")
		case 4:
			if y.compiled() {
				spice(y.Layers, newRng(r))
				r.Op("special values")
			}
		}
	}
}

// partIO saves a part of the network, or one of its layers, by itself, and
// sometimes loads it back, which changes nothing.
func (y *Sys[T]) partIO(r *Run) {
	if !y.compiled() {
		return
	}
	type unit interface {
		ResetSave()
		ResetLoad()
		Save(io.Writer) error
		Load(io.Reader) error
	}
	var u unit
	i := r.N(len(y.Parts))
	u = y.Parts[i].M
	what := "part"
	if r.Bool() {
		i = r.N(len(y.Layers))
		u, what = y.Layers[i], "layer"
	}
	back, cut := r.Bool(), r.N(4) == 3
	before := y.Snap()
	w := healthy(r)
	var err error
	r.Must("Save", func() {
		u.ResetSave()
		err = w.with(u.Save)
	})
	if err != nil {
		r.Fail("save-error", "saving to a healthy writer failed: %v", err)
	}
	r.Op("save %s %d", what, i)
	if back {
		b := w.Got
		if cut && len(b) > 0 {
			// loading its own values, up to an early end, changes nothing either
			b = b[:r.N(len(b))]
		}
		rd := r.reader(b)
		r.Must("Load", func() {
			u.ResetLoad()
			err = rd.with(u.Load)
		})
		if err != nil && len(b) == len(w.Got) {
			r.Fail("load-error", "the checkpoint of %s %d does not load: %v", what, i, err)
		}
		r.Op("load %s %d", what, i)
	}
	if df := y.Snap().diff(before); df != "" {
		r.Fail("roundtrip", "saving and loading back a %s changed a parameter: %s", what, df)
	}
}

// complete checks that ck is a complete checkpoint of parameters p.
func complete[T types.Number](r *Run, spec *Spec, ck []byte, p Params, class, what string) {
	f := newSys[T](r, spec)
	rd := r.reader(ck)
	if err := f.load(r, rd); err != nil {
		r.Fail(class, "%s: what was accepted does not load: %v", what, err)
	}
	if rd.Pos != len(ck) {
		r.Fail(class, "%s: %d bytes were accepted but a load takes %d", what, len(ck), rd.Pos)
	}
	if df := f.Snap().diff(p); df != "" {
		r.Fail(class, "%s: what was accepted loads other parameters: %s", what, df)
	}
}

func runC02[T types.Number](r *Run) {
	spec := r.genSpec(NetOpts{Big: true})
	r.Op("%s %T", spec, *new(T))
	rng := newRng(r)
	d := genData[T](rng, spec.In(), spec.Out(), 2)
	// the size of a checkpoint, from a twin
	tw := newSys[T](r, spec)
	w0 := healthy(r)
	if err := tw.save(r, w0); err != nil {
		r.Fail("save-error", "saving to a healthy writer failed: %v", err)
	}
	total := len(w0.Got)
	a := newSys[T](r, spec)
	for i, n := 0, r.Range(1, 4); i < n; i++ {
		a.history(r, d, 2)
		was := a.compiled()
		var before Params
		if was {
			before = a.Snap()
		}
		w := &simWriter{r: r, FailAt: r.N(total + 1), Transient: r.Bool(), Partial: r.Bool(), Dress: r.N(5)}
		if r.N(8) == 7 {
			w.FailAt = -1
		}
		e := ioErrs[r.N(len(ioErrs))]
		w.Err = e.err
		err := a.save(r, w)
		r.Op("save failing at %d/%d with %s (transient %v, partial %v): fired %d, failed %v", w.FailAt, total, e.name, w.Transient, w.Partial, w.Fired, err != nil)
		r.Sim.Tracef("write of the checkpoint fails at byte %d with %s", w.FailAt, e.name)
		if was {
			if df := a.Snap().diff(before); df != "" {
				r.Fail("save-changes", "a save changed the network: %s", df)
			}
		}
		if err == nil {
			complete[T](r, spec, w.Got, a.Snap(), "false-success", "a save reported success")
		} else if w.Fired == 0 {
			r.Fail("save-error", "a save failed (%v) although the destination did not", err)
		}
		if r.N(3) > 0 || i == n-1 {
			if r.N(4) == 3 {
				a.history(r, d, 1)
			}
			p := a.Snap()
			w := healthy(r)
			if err := a.save(r, w); err != nil {
				r.Fail("save-error", "after a failed save, saving to a healthy writer failed: %v", err)
			}
			if df := a.Snap().diff(p); a.compiled() && was && df != "" {
				r.Fail("save-changes", "a save changed the network: %s", df)
			}
			complete[T](r, spec, w.Got, a.Snap(), "incomplete-after", "the healthy save after a failed one")
			r.Op("healthy save")
		}
	}
}

func runC03[T types.Number](r *Run) {
	spec := r.genSpec(NetOpts{Big: true, Params: true})
	r.Op("%s %T", spec, *new(T))
	rng := newRng(r)
	d := genData[T](rng, spec.In(), spec.Out(), 2)
	a := newSys[T](r, spec)
	a.history(r, d, 2)
	w := healthy(r)
	if err := a.save(r, w); err != nil {
		r.Fail("save-error", "saving to a healthy writer failed: %v", err)
	}
	ck, p := w.Got, a.Snap()
	want := a.predict(r, d.X[0])
	b := newSys[T](r, spec)
	for i, n := 0, r.Range(1, 4); i < n; i++ {
		b.history(r, d, 2)
		at := r.N(len(ck) + 1)
		if at == len(ck) {
			at = len(ck) - 1
		}
		var rd *simReader
		trunc := r.Bool()
		if trunc {
			rd = r.reader(ck[:at])
			r.Op("load of %d of %d bytes", at, len(ck))
			r.Fault("truncation")
			r.Sim.Tracef("the source ends after %d of %d bytes", at, len(ck))
		} else {
			rd = r.reader(ck)
			e := ioErrs[r.N(len(ioErrs))]
			rd.FailAt, rd.Err, rd.Sticky = at, e.err, r.Bool()
			r.Op("load failing at %d of %d with %s sticky %v", at, len(ck), e.name, rd.Sticky)
			r.Sim.Tracef("reading byte %d of %d fails with %s", at, len(ck), e.name)
		}
		err := b.load(r, rd)
		if err == nil {
			if trunc || rd.Sticky {
				r.Fail("false-success", "a load whose source gave only %d of %d bytes reported success", at, len(ck))
			}
			if df := b.Snap().diff(p); df != "" {
				r.Fail("false-success", "a load reported success but %s", df)
			}
		}
		if r.N(3) > 0 || i == n-1 {
			if r.N(4) == 3 {
				b.history(r, d, 1)
			}
			rd := r.reader(ck)
			if err := b.load(r, rd); err != nil {
				r.Fail("load-error", "after a failed load, loading an intact checkpoint failed: %v", err)
			}
			if df := b.Snap().diff(p); df != "" {
				r.Fail("incomplete-after", "the intact load after a failed one: %s", df)
			}
			if eqBits(b.predict(r, d.X[0]), want) >= 0 {
				r.Fail("prediction", "after the intact load the network predicts differently from the saved one")
			}
			r.Op("healthy load")
		}
	}
}
