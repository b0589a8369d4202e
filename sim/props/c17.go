package props

import (
	"bytes"
	"fmt"

	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/img"
	num "github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif.local/sim/vsim"
)

func init() {
	register(&Prop{ID: "C17", Quick: 110000, Deep: 1600000,
		Run: func(r *Run) {
			if r.Bool() {
				runC17[float64](r)
			} else {
				runC17[float32](r)
			}
		},
		Rule: "1-2 kinds of calls (completed, rejected or interrupted) on one object (a network, a graph, tensors, images) are repeated 40-400 times; the number of statements a call executes, the values reachable from the object and from package-level variables, the goroutines and the open files are measured at the start, half way and at the end; a violation is growth in both halves of at least one unit every four calls; non-trivial: a rejected or interrupted call was among them; distinct: hash of object, kinds and number of calls",
	})
}

// use is a kind of call that is repeated.
type use struct {
	name string
	// a call that fails on purpose
	fails bool
	fn    func()
}

func runC17[T types.Number](r *Run) {
	rng := newRng(r)
	var uses []use
	var object func() []any
	switch r.N(6) {
	case 0, 1, 2:
		uses, object = c17net[T](r, rng)
	case 3, 4:
		uses, object = c17graph[T](r, rng)
	case 5:
		uses, object = c17images[T](r, rng)
	}
	r.Sim.StepCap = 1e9
	var pick []use
	for i, n := 0, r.Range(1, 2); i < n; i++ {
		pick = append(pick, uses[r.N(len(uses))])
	}
	half := r.Range(20, 60)
	if r.N(10) == 9 {
		half = r.Range(60, 200)
	}
	cost := func(u use) int64 {
		o := r.Do(worker, r.Rng, u.fn)
		if o.Panic != nil && !o.Injected() {
			r.Fail("panic", "%s panicked: %v\n%s", u.name, o.Panic, trim(o.Stack))
		}
		if u.fails {
			r.Hit("fault.failed_call")
			r.Nontrivial = true
		}
		return o.Steps
	}
	for _, u := range pick {
		r.Op("%s, %d times", u.name, 2*half)
	}
	type mark struct {
		steps []int64
		reach int
		tasks int
		files int
	}
	measure := func() mark {
		var m mark
		for _, u := range pick {
			m.steps = append(m.steps, cost(u))
		}
		m.reach = r.Sim.Reach(object()...)
		m.tasks = r.Sim.Live()
		m.files = r.Sim.FS.OpenHandles()
		r.Note(uint64(m.reach))
		for _, s := range m.steps {
			r.Note(uint64(s))
		}
		return m
	}
	for i := 0; i < 3; i++ {
		for _, u := range pick {
			cost(u)
		}
	}
	m := []mark{measure()}
	for k := 0; k < 2; k++ {
		for i := 0; i < half; i++ {
			for _, u := range pick {
				cost(u)
			}
		}
		m = append(m, measure())
	}
	grows := func(a, b, c int64) bool {
		d := int64(half / 4)
		return b-a >= d && c-b >= d
	}
	for i, u := range pick {
		a, b, c := m[0].steps[i], m[1].steps[i], m[2].steps[i]
		// what is computed may take more or fewer branches as parameters change
		if grows(a, b, c) && b-a > a/5 && c-b > a/5 {
			r.Fail("cost", "%s executes %d statements, after %d calls %d and after %d calls %d", u.name, a, half, b, 2*half, c)
		}
	}
	if grows(int64(m[0].reach), int64(m[1].reach), int64(m[2].reach)) {
		r.Fail("memory", "%d values are reachable from the object and the package, after %d calls %d and after %d calls %d", m[0].reach, half, m[1].reach, 2*half, m[2].reach)
	}
	if grows(int64(m[0].tasks), int64(m[1].tasks), int64(m[2].tasks)) {
		r.Fail("goroutines", "%d goroutines, after %d calls %d and after %d calls %d", m[0].tasks, half, m[1].tasks, 2*half, m[2].tasks)
	}
	if grows(int64(m[0].files), int64(m[1].files), int64(m[2].files)) {
		r.Fail("files", "%d open files, after %d calls %d and after %d calls %d", m[0].files, half, m[1].files, 2*half, m[2].files)
	}
}

func c17net[T types.Number](r *Run, rng *vsim.Rng) ([]use, func() []any) {
	spec := r.genSpec(NetOpts{MaxDepth: 2, NoConv: r.N(8) > 0})
	r.Op("%s %T", spec, *new(T))
	y := newSys[T](r, spec)
	y.compile(r)
	d := genData[T](rng, spec.In(), spec.Out(), 2)
	x, t := d.X[0], d.Y[0]
	alpha := fracT[T](0.01)
	check := func(what string, err error) {
		if err != nil {
			r.Fail("error", "%s: %v", what, err)
		}
	}
	var ck []byte
	r.Must("preparing", func() {
		_, err := y.M.TrainOne(x, t, alpha, 0)
		check("TrainOne", err)
		var b bytes.Buffer
		y.M.ResetSave()
		check("Save", y.M.Save(&b))
		ck = b.Bytes()
	})
	badShape := append(append([]uint(nil), spec.In()...), 2)
	if r.Bool() {
		badShape = append([]uint(nil), spec.In()...)
		badShape[0]++
	}
	bad := sample[T](rng, badShape)
	badT := sample[T](rng, append(append([]uint(nil), spec.Out()...), 2))
	at := int64(r.Range(1, 6))
	uses := []use{
		{"Predict", false, func() { _, err := y.M.Predict(x); check("Predict", err) }},
		{"TrainOne", false, func() { _, err := y.M.TrainOne(x, t, alpha, fracT[T](0.1)); check("TrainOne", err) }},
		{"Train", false, func() { check("Train", y.M.Train(d.X, d.Y, 1, 2, alpha, 0)) }},
		{"Save", false, func() { var b bytes.Buffer; y.M.ResetSave(); check("Save", y.M.Save(&b)) }},
		{"Load", false, func() { y.M.ResetLoad(); check("Load", y.M.Load(bytes.NewReader(ck))) }},
		{"Compile", false, func() { check("Compile", y.M.Compile()) }},
		{"CompileBackPropagation", false, func() { check("CompileBackPropagation", y.M.CompileBackPropagation()) }},
		{"ResetIS", false, func() { check("ResetIS", y.M.ResetIS()) }},
		{"SetTrainable", false, func() { y.M.SetTrainable(false); y.M.SetTrainable(true) }},
		{"rejected Predict", true, func() { y.M.Predict(bad) }},
		{"rejected TrainOne", true, func() { y.M.TrainOne(bad, t, alpha, 0) }},
		{"TrainOne with a rejected target", true, func() { y.M.TrainOne(x, badT, alpha, 0) }},
		{"failed Save", true, func() { y.M.ResetSave(); y.M.Save(&limited{left: len(ck) / 2}) }},
		{"failed Load", true, func() { y.M.ResetLoad(); y.M.Load(bytes.NewReader(ck[:len(ck)/2])) }},
		{"interrupted Predict", true, func() { y.Ctl.Arm(at); defer y.Ctl.Arm(0); y.M.Predict(x) }},
		{"interrupted TrainOne", true, func() { y.Ctl.Arm(at); defer y.Ctl.Arm(0); y.M.TrainOne(x, t, alpha, 0) }},
		{"Train with a rejected sample", true, func() { y.M.Train([]tensor.Tensor[T]{bad}, d.Y[:1], 1, 1, alpha, 0) }},
	}
	if spec.Kind == "single" {
		uses = append(uses, use{"String", false, func() { _ = y.M.String() }})
	}
	return uses, func() []any {
		o := []any{y.M, x, t, bad, badT}
		for _, p := range y.Parts {
			o = append(o, p.M)
		}
		return o
	}
}

// limited takes so many bytes and then fails.
type limited struct{ left int }

func (w *limited) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		return n, ioErrs[0].err
	}
	w.left -= len(p)
	return len(p), nil
}

func c17graph[T types.Number](r *Run, rng *vsim.Rng) ([]use, func() []any) {
	w, h := uint(r.Range(1, 3)), uint(r.Range(1, 3))
	r.Op("tensors %dx%d %T", w, h, *new(T))
	a, b := sample[T](rng, []uint{w, h}), sample[T](rng, []uint{w, h})
	am := a.(*tensor.TensorMat[T])
	ctl := &ActCtl{}
	fn := func(x T) T { ctl.hit(); return userFn(1, x) }
	sc := &num.Scalar[T]{Value: 2}
	kind := r.N(8)
	grow := func() tensor.Tensor[T] {
		var t tensor.Tensor[T] = tensor.Activate[T](tensor.Add[T](a, b), fn)
		switch kind {
		case 0:
			t = tensor.Dot(t, tensor.Transpose(t))
		case 1:
			t = tensor.SoftMax(tensor.Flatten(t))
		case 2:
			t = tensor.Concat(t, tensor.Neg(t), 0)
		case 3:
			t = tensor.MulScalar(tensor.Abs(t), sc)
		case 4:
			t = tensor.DSum(t, 0)
		case 5:
			t = tensor.SubExtendedTensor(tensor.Reshape(t, h, w), 0, 0, h+1)
		case 6:
			t = tensor.Avg(t)
		case 7:
			t = tensor.Max(t)
		}
		return t
	}
	var t, u tensor.Tensor[T]
	var g, k *graph.Graph
	r.Must("building graphs", func() {
		var err error
		t, u = grow(), grow()
		if g, err = graph.NewGraph[T](t); err == nil {
			k, err = graph.NewGraph[T](u)
		}
		if err != nil {
			r.Fail("error", "building a valid graph: %v", err)
		}
	})
	c := graph.NewFromGraph[T](g)
	var saved bytes.Buffer
	r.Must("saving", func() {
		if err := am.SaveFull(&saved); err != nil {
			r.Fail("error", "SaveFull: %v", err)
		}
	})
	uses := []use{
		{"Exec", false, func() { g.Exec() }},
		{"Exec of a composed graph", false, func() { c.Exec() }},
		{"composing graphs", false, func() { z := graph.NewFromGraph[T](g); z.AddFromGraph(k); z.Exec() }},
		{"a new graph over the same inputs", false, func() {
			z, err := graph.NewGraph[T](grow())
			if err != nil {
				r.Fail("error", "building a valid graph: %v", err)
			}
			z.Exec()
		}},
		{"a rejected graph over the same inputs", true, func() {
			graph.NewGraph[T](tensor.Add[T](a, tensor.NewZeros[T](w+1, h)))
		}},
		{"interrupted Exec", true, func() { ctl.Arm(1); defer ctl.Arm(0); g.Exec() }},
		{"eager operations", false, func() {
			am.Add(b.(*tensor.TensorMat[T]))
			am.Transpose()
			am.SoftMax()
			am.Copy()
			am.Get(0, 0)
			_ = am.String()
		}},
		{"rejected eager operations", true, func() {
			am.Add(tensor.NewZeros[T](w+1, h))
			am.Get(w, h)
			am.Concat(tensor.NewZeros[T](w+1, h+1), 0)
		}},
		{"Set", false, func() { am.Set(T(1), 0, 0); am.FillData(2) }},
		{"SaveFull and LoadFull", false, func() {
			var o bytes.Buffer
			if err := am.SaveFull(&o); err != nil {
				r.Fail("error", "SaveFull: %v", err)
			}
			if err := am.LoadFull(&o); err != nil {
				r.Fail("error", "LoadFull: %v", err)
			}
		}},
		{"failed SaveFull", true, func() { am.SaveFull(&limited{left: 9}) }},
		{"failed LoadFull", true, func() { am.LoadFull(bytes.NewReader(saved.Bytes()[:saved.Len()-1])) }},
	}
	return uses, func() []any { return []any{a, b, t, u, g, k, c} }
}

func c17images[T types.Number](r *Run, rng *vsim.Rng) ([]use, func() []any) {
	w, h := r.Range(1, 4), r.Range(1, 4)
	r.Op("image %dx%d %T", w, h, *new(T))
	t := tensor.Tensor[T](tensor.NewFromValues(genPixels[T](rng, w, h, true), 4, uint(w), uint(h)))
	fs := r.Sim.FS
	path := "pic.png"
	r.Must("saving", func() {
		if err := img.PngSave(t, path); err != nil {
			r.Fail("error", "PngSave: %v", err)
		}
	})
	b, _ := fs.Get(path)
	fs.Put("half.png", b[:len(b)/2])
	ok := func(what string, err error) {
		if err != nil {
			r.Fail("error", "%s: %v", what, err)
		}
	}
	fail := func(op string, fn func()) func() {
		return func() {
			d := &diskFault{r: r, op: op, err: ioErrs[0].err}
			fs.Fault = d.ask
			defer func() { fs.Fault = nil }()
			fn()
		}
	}
	uses := []use{
		{"PngSave", false, func() { ok("PngSave", img.PngSave(t, path)) }},
		{"JpgSave", false, func() { ok("JpgSave", img.JpgSave(t, "pic.jpg", 70)) }},
		{"LoadImage", false, func() { _, err := img.LoadImage[T](path); ok("LoadImage", err) }},
		{"LoadSimpleScaled", false, func() { img.LoadSimpleScaled[T](path, 2, 3) }},
		{"SmoothScale", false, func() { img.SmoothScale(t, 2, 3) }},
		{"LoadImage of half a file", true, func() { img.LoadImage[T]("half.png") }},
		{"LoadImage of no file", true, func() { img.LoadImage[T]("nothing.png") }},
		{"LoadImage with a failing read", true, fail("read", func() { img.LoadImage[T](path) })},
		{"PngSave with a failing write", true, fail("write", func() { img.PngSave(t, fmt.Sprint("other", ".png")) })},
		{"JpgSave with a failing close", true, fail("close", func() { img.JpgSave(t, "other.jpg", 70) })},
	}
	return uses, func() []any { return []any{t} }
}
