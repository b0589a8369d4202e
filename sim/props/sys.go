package props

import (
	"fmt"
	"strings"

	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif.local/sim/vsim"
)

// Spec describes a system under test: one network, a model composed from
// several, or a model used as a layer of another.
type Spec struct {
	Kind  string // "single", "composed", "nested"
	Archs []*Arch
}

func (s *Spec) String() string {
	var v []string
	for _, a := range s.Archs {
		v = append(v, "["+a.String()+"]")
	}
	return s.Kind + " " + strings.Join(v, " -> ")
}

func (s *Spec) In() []uint  { return s.Archs[0].InShape() }
func (s *Spec) Out() []uint { return s.Archs[len(s.Archs)-1].OutShape() }

// Sys is a built system.
type Sys[T types.Number] struct {
	Spec   *Spec
	M      *model.Model[T]
	Parts  []*Net[T]
	Layers []layer.Layer[T]
	Ctl    *ActCtl
}

func (r *Run) genSpec(o NetOpts) *Spec {
	s := &Spec{Kind: "single"}
	switch r.N(6) {
	case 4:
		s.Kind = "composed"
	case 5:
		s.Kind = "nested"
	}
	n := 1
	if s.Kind != "single" {
		n = r.Range(2, 3)
		o.MaxDepth = 2
		if r.N(10) == 9 {
			n, o.MaxDepth = r.Range(4, 5), 1
		}
	}
	for i := 0; i < n; i++ {
		oo := o
		oo.Bare = !o.Params || i < n-1
		if i > 0 {
			oo.In = s.Archs[i-1].OutShape()
		}
		s.Archs = append(s.Archs, r.genArch(oo))
	}
	return s
}

// buildSys must run in a task.
func buildSys[T types.Number](s *Spec) *Sys[T] { return buildSysAfter[T](s, nil) }

// buildSysAfter does something with the parts before they are put together.
func buildSysAfter[T types.Number](s *Spec, before func(y *Sys[T])) *Sys[T] {
	y := &Sys[T]{Spec: s, Ctl: &ActCtl{}}
	for i, a := range s.Archs {
		n := buildCtl[T](a, y.Ctl, i > 0)
		y.Parts = append(y.Parts, n)
		y.Layers = append(y.Layers, n.Layers...)
	}
	if before != nil {
		before(y)
	}
	switch s.Kind {
	case "single":
		y.M = y.Parts[0].M
	case "composed":
		var ms []*model.Model[T]
		for _, p := range y.Parts {
			ms = append(ms, p.M)
		}
		m, err := model.FromModels[T](ms...)
		if err != nil {
			panic(fmt.Sprintf("FromModels: %v", err))
		}
		y.M = m
	case "nested":
		m := model.NewModel[T]()
		for _, p := range y.Parts {
			m.Push(p.M)
		}
		y.M = m
	}
	return y
}

func (y *Sys[T]) Snap() Params { return snapLayers(y.Layers) }

func (y *Sys[T]) compiled() bool {
	for _, l := range y.Layers {
		if len(params(l)) > 0 {
			return true
		}
	}
	return false
}

// --- helpers that call the library inside tasks ---

func newSys[T types.Number](r *Run, s *Spec) *Sys[T] {
	var y *Sys[T]
	r.Must("building "+s.Kind, func() { y = buildSys[T](s) })
	return y
}

func (y *Sys[T]) compile(r *Run) {
	r.Must("Compile", func() {
		if err := y.M.Compile(); err != nil {
			r.Fail("compile", "Compile of a valid network failed: %v", err)
		}
	})
}

func (y *Sys[T]) predict(r *Run, x tensor.Tensor[T]) []uint64 {
	return bitsOf(y.predictT(r, x))
}

func (y *Sys[T]) predictT(r *Run, x tensor.Tensor[T]) tensor.Tensor[T] {
	var o tensor.Tensor[T]
	r.Must("Predict", func() {
		var err error
		o, err = y.M.Predict(x)
		if err != nil {
			r.Fail("predict-error", "Predict of a valid input failed: %v", err)
		}
	})
	r.noteAll(bitsOf(o))
	return o
}

func bitsOf[T types.Number](t tensor.Tensor[T]) []uint64 { return allBits(t.GetData()) }

func (y *Sys[T]) train(r *Run, x, t tensor.Tensor[T], alpha T) T {
	var l T
	r.Must("TrainOne", func() {
		var err error
		l, err = y.M.TrainOne(x, t, alpha, 0)
		if err != nil {
			r.Fail("train-error", "TrainOne on a valid sample failed: %v", err)
		}
	})
	r.Note(bits(l))
	return l
}

// data set of a run
type data[T types.Number] struct{ X, Y []tensor.Tensor[T] }

func genData[T types.Number](rng *vsim.Rng, in, out []uint, n int) data[T] {
	var d data[T]
	for i := 0; i < n; i++ {
		d.X = append(d.X, sample[T](rng, in))
		d.Y = append(d.Y, sample[T](rng, out))
	}
	return d
}
