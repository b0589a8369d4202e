package props

import (
	"github.com/julioguillermo/godeep/types"
)

func init() {
	register(&Prop{ID: "C01", Quick: 1000000, Deep: 15000000,
		Run: func(r *Run) {
			if r.Bool() {
				runC01[float64](r)
			} else {
				runC01[float32](r)
			}
		},
		Rule: "random architecture (chain, convolutional, branching, composed, nested) and random history of train/predict/save/load; non-trivial: at least one checkpoint was read back in fragments or several checkpoints share a stream; distinct: hash of architecture, history and observations",
	})
}

// save runs one prepared save into w and returns its error.
func (y *Sys[T]) save(r *Run, w *simWriter) error {
	var err error
	r.Must("Save", func() {
		y.M.ResetSave()
		err = w.with(y.M.Save)
	})
	return err
}

func (y *Sys[T]) load(r *Run, rd *simReader) error {
	var err error
	r.Must("Load", func() {
		y.M.ResetLoad()
		err = rd.with(y.M.Load)
	})
	return err
}

type ckpt struct {
	start, end int
	p          Params
	pred       [][]uint64
}

func runC01[T types.Number](r *Run) {
	o := NetOpts{Big: true}
	long := r.Long()
	if long {
		o = small
	}
	spec := r.genSpec(o)
	r.Op("%s %T", spec, *new(T))
	rng := newRng(r)
	a := newSys[T](r, spec)
	d := genData[T](rng, spec.In(), spec.Out(), 3)
	var stream []byte
	var cks []ckpt
	doSave := func() {
		var before Params
		was := a.compiled()
		if was {
			before = a.Snap()
		}
		w := healthy(r)
		if err := a.save(r, w); err != nil {
			r.Fail("save-error", "saving to a healthy writer failed: %v", err)
		}
		p := a.Snap()
		if was {
			if df := p.diff(before); df != "" {
				r.Fail("save-changes", "saving changed the network: %s", df)
			}
		}
		c := ckpt{start: len(stream), p: p}
		stream = append(stream, w.Got...)
		c.end = len(stream)
		cks = append(cks, c)
		r.Note(uint64(len(w.Got)))
		r.Op("save %d bytes", len(w.Got))
	}
	n := r.Range(1, 6)
	if long {
		n = r.Many()
	}
	for i := 0; i < n; i++ {
		switch r.N(8) {
		case 6:
			a.partIO(r)
		case 7:
			a.history(r, d, 1)
		case 5:
			if !a.compiled() {
				a.compile(r)
			}
			spice(a.Layers, rng)
			r.Op("special values")
		case 0, 1:
			doSave()
		case 2:
			k := r.Range(1, 3)
			for j := 0; j < k; j++ {
				a.train(r, d.X[j%3], d.Y[j%3], fracT[T](0.125))
			}
			r.Op("train %d", k)
		case 3:
			a.predict(r, d.X[r.N(3)])
			r.Op("predict")
		case 4:
			if len(cks) == 0 {
				a.compile(r)
				r.Op("compile")
				break
			}
			c := cks[r.N(len(cks))]
			rd := r.reader(stream[c.start:c.end])
			if err := a.load(r, rd); err != nil {
				r.Fail("load-error", "loading an intact checkpoint failed: %v", err)
			}
			if df := a.Snap().diff(c.p); df != "" {
				r.Fail("roundtrip", "loading into the network that saved: %s", df)
			}
			r.Op("load own")
		}
	}
	if len(cks) == 0 {
		doSave()
	}
	// predictions of the saved states, made from the snapshots by A itself
	for i := range cks {
		c := &cks[i]
		rd := r.reader(stream[c.start:c.end])
		if err := a.load(r, rd); err != nil {
			r.Fail("load-error", "loading an intact checkpoint failed: %v", err)
		}
		if df := a.Snap().diff(c.p); df != "" {
			r.Fail("roundtrip", "loading into the network that saved: %s", df)
		}
		for _, x := range d.X[:2] {
			c.pred = append(c.pred, a.predict(r, x))
		}
	}
	// another network, perhaps in another process, reads the whole stream
	if r.Bool() {
		r.Sim.Restart()
	}
	b := newSys[T](r, spec)
	use := r.N(4)
	switch use {
	case 1:
		b.compile(r)
	case 2:
		b.train(r, d.X[0], d.Y[0], fracT[T](0.125))
	case 3:
		w := healthy(r)
		b.save(r, w)
	}
	tail := []byte("trailing data that belongs to somebody else")
	rd := r.reader(append(append([]byte(nil), stream...), tail...))
	if r.N(4) == 0 {
		rd = r.reader(stream)
	}
	if len(cks) > 1 {
		r.Nontrivial = true
	}
	for i, c := range cks {
		if err := b.load(r, rd); err != nil {
			r.Fail("load-error", "checkpoint %d of the stream does not load: %v", i, err)
		}
		if rd.Pos != c.end {
			r.Fail("consumed", "checkpoint %d ends at byte %d of the stream, but the load stopped at %d", i, c.end, rd.Pos)
		}
		if df := b.Snap().diff(c.p); df != "" {
			r.Fail("roundtrip", "checkpoint %d: %s", i, df)
		}
		for k, x := range d.X[:2] {
			if p := b.predict(r, x); eqBits(p, c.pred[k]) >= 0 {
				r.Fail("prediction", "checkpoint %d: the loaded network predicts differently from the saved one", i)
			}
		}
		if r.N(3) == 0 {
			b.train(r, d.X[0], d.Y[0], fracT[T](0.125))
			r.Op("train the reader in between")
		}
	}
	// what the reader saves now is what it loaded
	if n := len(cks); n > 0 {
		rd := r.reader(stream[cks[n-1].start:cks[n-1].end])
		b.load(r, rd)
		w := healthy(r)
		if err := b.save(r, w); err != nil {
			r.Fail("save-error", "saving to a healthy writer failed: %v", err)
		}
		c := newSys[T](r, spec)
		rd = r.reader(w.Got)
		if err := c.load(r, rd); err != nil {
			r.Fail("resave", "the checkpoint of a loaded network does not load: %v", err)
		}
		if df := c.Snap().diff(cks[n-1].p); df != "" {
			r.Fail("resave", "save of the loaded network, loaded again: %s", df)
		}
		if rd.Pos != len(w.Got) {
			r.Fail("consumed", "the load stopped at byte %d of %d", rd.Pos, len(w.Got))
		}
	}
}
