package props

import (
	"bytes"
	"fmt"
	"hash/fnv"

	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/img"
	num "github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif.local/sim/vsim"
)

func init() {
	register(&Prop{ID: "C11", Quick: 500000, Deep: 7500000, Run: runC11,
		Rule: "2-4 callers, each with a drawn program over objects of its own (build, compile, train, predict, save, load, freeze, compose networks; build and execute tensor graphs; eager tensor operations; save, load and scale images; rejected and interrupted calls); each program is run alone and then all together under a drawn schedule with up to 600 preemptions between any two statements, in half of the runs all callers making their k-th call at the same time and up to 600 preemptions in each; transcripts must agree; non-trivial: at least one preemption inside the library; distinct: hash of programs, and of the interleaving",
	})
}

// script is what one caller does. Everything it draws comes from its own
// stream, so that it is the same alone and in company.
type script struct {
	rng  *vsim.Rng // what is done
	val  *vsim.Rng // with which numbers
	id   int
	log  []string
	late []func() string // observed again at the end
	meet func()          // before every call: wait for the others
}

func (s *script) next() {
	if s.meet != nil {
		s.meet()
	}
}

func (s *script) out(f string, a ...any) { s.log = append(s.log, fmt.Sprintf(f, a...)) }

func (s *script) data(what string, b []uint64) {
	h := fnv.New64a()
	for _, v := range b {
		for k := 0; k < 64; k += 8 {
			h.Write([]byte{byte(v >> k)})
		}
	}
	s.out("%s %d:%x", what, len(b), h.Sum64())
}

func keepT[T types.Number](s *script, what string, t tensor.Tensor[T], err error) {
	if err != nil {
		s.out("%s error %v", what, err)
		s.late = append(s.late, func() string { return err.Error() })
		return
	}
	s.out("%s shape %v", what, t.GetShape())
	s.data(what, bitsOf(t))
	s.late = append(s.late, func() string { return fmt.Sprint(t.GetShape(), bitsOf(t)) })
}

func (s *script) err(what string, err error) {
	s.out("%s error %v", what, err)
	if err != nil {
		s.late = append(s.late, func() string { return err.Error() })
	}
}

// guard runs fn and reports a panic of a user function, as a caller that
// recovers would.
func (s *script) guard(what string, fn func()) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(Injected); !ok {
				panic(p)
			}
			s.out("%s interrupted", what)
		}
	}()
	fn()
}

func (s *script) bad(sh []uint) []uint {
	b := append([]uint(nil), sh...)
	if s.rng.Intn(2) == 0 {
		b = append(b, 1)
	} else {
		b[s.rng.Intn(len(b))]++
	}
	return b
}

func netScript[T types.Number](s *script, spec *Spec, n int) {
	rng := s.rng
	y := buildSys[T](spec)
	d := genData[T](s.val, spec.In(), spec.Out(), 3)
	var ck []byte
	alpha := fracT[T](0.125)
	var calls int64
	if rng.Intn(2) == 0 {
		// what an earlier training has left
		var b bytes.Buffer
		z := buildSys[T](spec)
		s.err("earlier compile", z.M.Compile())
		s.err("earlier save", z.M.Save(&b))
		ck = b.Bytes()
	}
	for i := 0; i < n; i++ {
		s.next()
		x, t := d.X[rng.Intn(3)], d.Y[rng.Intn(3)]
		switch rng.Intn(14) {
		case 0, 1:
			p, err := y.M.Predict(x)
			keepT(s, "predict", p, err)
		case 2, 3:
			c := y.Ctl.Calls
			l, err := y.M.TrainOne(x, t, alpha, fracT[T](0.25))
			calls = y.Ctl.Calls - c
			s.out("train %x %v", bits(l), err)
		case 4:
			err := y.M.Train(d.X, d.Y, 1, uint(rng.Intn(3)), alpha, 0)
			s.err("train", err)
		case 5:
			var b bytes.Buffer
			y.M.ResetSave()
			err := y.M.Save(&b)
			ck = b.Bytes()
			s.err("save", err)
			h := fnv.New64a()
			h.Write(ck)
			s.out("saved %d:%x", len(ck), h.Sum64())
		case 6, 12, 13:
			if ck == nil {
				break
			}
			c := ck
			if rng.Intn(3) == 0 && len(c) > 0 {
				c = c[:rng.Intn(len(c))]
			}
			y.M.ResetLoad()
			s.err("load", y.M.Load(bytes.NewReader(c)))
		case 7:
			p, err := y.M.Predict(sample[T](s.val, s.bad(spec.In())))
			keepT(s, "bad predict", p, err)
		case 8:
			if calls == 0 {
				break
			}
			y.Ctl.Arm(1 + int64(rng.Intn(int(calls))))
			s.guard("step", func() { y.M.TrainOne(x, t, alpha, 0) })
			y.Ctl.Arm(0)
		case 9:
			k := rng.Intn(len(y.Layers))
			y.Layers[k].SetTrainable(rng.Intn(2) == 0)
		case 10:
			// a second network of the same kind
			z := buildSys[T](spec)
			p, err := z.M.Predict(x)
			keepT(s, "fresh predict", p, err)
		case 11:
			s.err("compile", y.M.CompileBackPropagation())
			if spec.Kind == "single" {
				s.out("%s", y.M.String())
			}
		}
		s.data("params", flat(y.Snap()))
	}
}

func flat(p Params) []uint64 {
	var v []uint64
	for _, l := range p {
		v = append(v, l...)
	}
	return v
}

func graphScript[T types.Number](s *script, n int) {
	rng := s.rng
	sh := []uint{uint(1 + rng.Intn(3)), uint(1 + rng.Intn(3))}
	if rng.Intn(12) == 0 {
		sh[rng.Intn(2)] = uint(20 + rng.Intn(120))
	}
	mat := func(sh ...uint) *tensor.TensorMat[T] {
		v := make([]T, size(sh))
		for i := range v {
			v[i] = T(s.val.Float()*4 - 2)
		}
		return tensor.NewFromValues(v, sh...)
	}
	a, b := mat(sh[0], sh[1]), mat(sh[0], sh[1])
	sc := &num.Scalar[T]{Value: 2}
	ctl := &ActCtl{}
	fn := func(x T) T { ctl.hit(); return userFn(1, x) }
	grow := func() tensor.Tensor[T] {
		var t tensor.Tensor[T] = tensor.Add[T](a, b)
		for k, m := 0, 1+rng.Intn(5); k < m; k++ {
			switch rng.Intn(12) {
			case 0:
				t = tensor.Mul[T](t, tensor.Abs(t))
			case 1:
				t = tensor.Activate(t, fn)
			case 2:
				t = tensor.AddScalar(t, sc)
			case 3:
				t = tensor.Transpose(tensor.Transpose(t))
			case 4:
				t = tensor.Neg(t)
			case 5:
				t = tensor.Dot(t, tensor.Transpose(t))
				return tensor.SoftMax(t)
			case 6:
				return tensor.Concat(t, t, uint(rng.Intn(2)))
			case 7:
				t = tensor.Sub[T](t, b)
			case 8:
				return tensor.DSum(t, uint(rng.Intn(2)))
			case 9:
				return tensor.SubExtendedTensor(t, 0, 0, sh[0]+1)
			case 10:
				return tensor.Max(tensor.Flatten(t))
			case 11:
				t = tensor.Reshape(t, sh[0], sh[1])
			}
		}
		return t
	}
	t := grow()
	g, err := graph.NewGraph[T](t)
	if err != nil {
		s.err("graph", err)
		return
	}
	var calls int64
	for i := 0; i < n; i++ {
		s.next()
		switch rng.Intn(9) {
		case 0, 1, 2:
			c := ctl.Calls
			g.Exec()
			calls = ctl.Calls - c
			keepT(s, "exec", t.Copy(), nil)
		case 3:
			a.Set(T(s.val.Float()), 0, 0)
			sc.Value = T(s.val.Float())
		case 4:
			if calls > 0 {
				ctl.Arm(1 + int64(rng.Intn(int(calls))))
				s.guard("exec", func() { g.Exec() })
				ctl.Arm(0)
			}
		case 5:
			u := grow()
			h, err := graph.NewGraph[T](u)
			if err != nil {
				s.err("graph", err)
				break
			}
			c := graph.NewFromGraph[T](g)
			c.AddFromGraph(h)
			c.Exec()
			keepT(s, "composed", t.Copy(), nil)
			keepT(s, "composed", u.Copy(), nil)
		case 6:
			_, err := graph.NewGraph[T](tensor.Add[T](a, mat(sh[0]+1, sh[1])))
			s.err("bad graph", err)
		case 7:
			// eager operations
			m, err := a.Add(b)
			keepT[T](s, "add", m, err)
			tr, err := a.Transpose()
			keepT[T](s, "transpose", tr, err)
			m, err = a.Dot(tr)
			keepT[T](s, "dot", m, err)
			m, err = a.Concat(b, 0)
			keepT[T](s, "concat", m, err)
			m, err = a.Add(mat(sh[0], sh[1]+1))
			if err != nil {
				s.err("bad add", err)
			}
			keepT[T](s, "avg", a.Avg(), nil)
			s.out("%s", a.String())
		case 8:
			var w bytes.Buffer
			s.err("save", b.SaveFull(&w))
			c := mat(1)
			s.err("load", c.LoadFull(&w))
			keepT[T](s, "loaded", c, nil)
			_, err := c.Get(9, 9)
			s.err("get", err)
		}
	}
}

// eagerScript uses the operations that compute at once, and plain numbers.
func eagerScript[T types.Number](s *script, n int) {
	rng := s.rng
	w, h := uint(1+rng.Intn(3)), uint(1+rng.Intn(4))
	if rng.Intn(12) == 0 {
		h = uint(20 + rng.Intn(120))
	}
	mat := func(sh ...uint) *tensor.TensorMat[T] {
		v := make([]T, size(sh))
		for i := range v {
			v[i] = T(s.val.Float()*4 - 2)
		}
		return tensor.NewFromValues(v, sh...)
	}
	a, b, v := mat(w, h), mat(w, h), mat(h)
	if rng.Intn(2) == 0 {
		a = tensor.NewRand[T](-2, 3, w, h)
	}
	keep := func(what string, t *tensor.TensorMat[T], err error) {
		if err != nil {
			s.err(what, err)
			return
		}
		keepT[T](s, what, t, nil)
	}
	for i := 0; i < n; i++ {
		s.next()
		for j := 0; j < 3; j++ {
			sc := &num.Scalar[T]{Value: T(1 + s.val.Float())}
			dim := uint(rng.Intn(3))
			switch rng.Intn(26) {
			case 0:
				t, err := a.Sub(b)
				keep("sub", t, err)
			case 1:
				t, err := a.Mul(b)
				keep("mul", t, err)
			case 2:
				t, err := a.Div(b)
				keep("div", t, err)
			case 3:
				keep("abs", a.Abs(), nil)
			case 4:
				keep("neg", a.Neg(), nil)
			case 5:
				keep("act", a.Activate(func(x T) T { return userFn(1, x) }), nil)
			case 6:
				keep("reshape", a.Reshape(h, w), nil)
			case 7:
				keep("softmax", a.SoftMax(), nil)
			case 8:
				t, err := a.SubTensor(dim%2, 0, 1)
				keep("part", t, err)
			case 9:
				t, err := a.FOSubTensor(dim%2, 0, 2, sc.Value)
				keep("part", t, err)
			case 10:
				t, err := a.DSum(dim)
				keep("dsum", t, err)
			case 11:
				t, err := a.DAvg(dim)
				keep("davg", t, err)
			case 12:
				t, err := a.DMax(dim)
				keep("dmax", t, err)
			case 13:
				t, err := a.DMin(dim)
				keep("dmin", t, err)
			case 14:
				keep("sum", a.Sum(), nil)
				keep("avg", a.Avg(), nil)
			case 15:
				keep("max", a.Max(), nil)
				keep("min", a.Min(), nil)
			case 16:
				t, err := v.DotVector(a.Reshape(w * h))
				keep("dot vector", t, err)
				t, err = v.Dot(v)
				keep("dot vector", t, err)
			case 17:
				t, err := a.DotAt(b, dim%2, dim%2)
				keep("dot at", t, err)
			case 18:
				keep("scalar", a.AddScalar(sc).SubScalar(sc), nil)
				keep("scalar", a.MulScalar(sc).DivScalar(sc), nil)
			case 19:
				a.FillData(sc.Value)
				b.Fill(sc)
				keep("filled", a, nil)
			case 20:
				s.out("numbers %x %x %x %x", bits(num.ScalarRand[T](-1, 1).Value), bits(num.ScalarNorm[T]().Value), bits(num.ScalarZero[T]().Value), bits(num.ScalarOne[T]().Value))
				keep("new", tensor.NewOnes[T](w, h), nil)
				keep("new", tensor.NewRand[T](0, 1, h), nil)
				keep("new", tensor.NewNormRand[T](2), nil)
			case 21:
				a = mat(w, h)
			case 22:
				s.err("data", a.LoadData(b.GetData()))
				keep("matrix", a.GetMatrix(), nil)
			case 23:
				s.err("bad data", a.LoadData(make([]T, 1+w*h)))
				s.out("%s %s", a.String(), v.String())
			case 24:
				t, err := a.Transpose()
				keep("transpose", t, err)
				if err == nil {
					t, err = t.Concat(t, 0)
					keep("concat", t, err)
					t, err = t.Dot(v)
					keep("dot", t, err)
				}
			case 25:
				for k := range actNames {
					f := libAct[T](k)
					s.out("%s %x %x", actNames[k], bits(f.Activate(sc.Value)), bits(f.Derive(-sc.Value)))
				}
			}
		}
	}
}

func imageScript[T types.Number](s *script, n int) {
	rng := s.rng
	path := fmt.Sprintf("caller%d/pic.png", s.id)
	fs := vsim.S.FS
	fs.Remove(path)
	w, h := 1+rng.Intn(5), 1+rng.Intn(5)
	t := tensor.Tensor[T](tensor.NewFromValues(genPixels[T](s.val, w, h, true), 4, uint(w), uint(h)))
	for i := 0; i < n; i++ {
		s.next()
		switch rng.Intn(8) {
		case 0, 1:
			s.err("png", img.PngSave(t, path))
		case 2:
			s.err("jpg", img.JpgSave(t, path, 80))
		case 3:
			l, err := img.LoadImage[T](path)
			keepT(s, "load", l, err)
			if err == nil {
				t = l
			}
		case 4:
			l, err := img.LoadSimpleScaled[T](path, 3, 2)
			keepT(s, "load simple", l, err)
		case 5:
			l, err := img.LoadSmoothScaled[T](path, 2, 3)
			keepT(s, "load smooth", l, err)
		case 6:
			l, err := img.SimpleScale(t, 2, 4)
			keepT(s, "scale", l, err)
		case 7:
			l, err := img.SmoothScale(t, 2, 2)
			keepT(s, "smooth", l, err)
		}
		b, ok := fs.Get(path)
		hh := fnv.New64a()
		hh.Write(b)
		s.out("file %v %d:%x", ok, len(b), hh.Sum64())
	}
}

// prog is the program of one caller.
type prog struct {
	seed uint64 // of what it does
	vals uint64 // of the numbers it does it with
	name string
	fn   func(s *script)
}

func (r *Run) genProg() prog {
	p := prog{seed: r.Seed(), vals: r.Seed()}
	f32 := r.Bool()
	m := r.Range(1, 5)
	switch r.N(7) {
	case 6:
		p.name = fmt.Sprintf("eager tensors for %d calls", 3*m)
		p.fn = func(s *script) { eagerScript[float64](s, m) }
		if f32 {
			p.fn = func(s *script) { eagerScript[float32](s, m) }
		}
	case 0, 1, 2:
		spec := r.genSpec(NetOpts{MaxDepth: 3, NoConv: r.N(3) > 0})
		p.name = fmt.Sprintf("%s for %d calls", spec, m)
		p.fn = func(s *script) { netScript[float64](s, spec, m) }
		if f32 {
			p.fn = func(s *script) { netScript[float32](s, spec, m) }
		}
	case 3, 4:
		p.name = fmt.Sprintf("tensors for %d calls", m)
		p.fn = func(s *script) { graphScript[float64](s, m) }
		if f32 {
			p.fn = func(s *script) { graphScript[float32](s, m) }
		}
	case 5:
		p.name = fmt.Sprintf("images for %d calls", m)
		p.fn = func(s *script) { imageScript[float64](s, m) }
		if f32 {
			p.fn = func(s *script) { imageScript[float32](s, m) }
		}
	}
	return p
}

// start makes the program a task with a random stream of its own.
func (p prog) start(r *Run, id int, meet, left func()) (*script, *vsim.Task) {
	s := &script{rng: vsim.NewRng(p.seed), val: vsim.NewRng(p.vals), id: id, meet: meet}
	t := r.Sim.Spawn(fmt.Sprintf("caller%d", id), worker, vsim.NewRng(p.vals^0x9e37), func() {
		if left != nil {
			defer left()
		}
		p.fn(s)
		for _, f := range s.late {
			s.out("%s", f())
		}
	})
	return s, t
}

func (s *script) finish(t *vsim.Task) {
	if v, ok := t.Panic.(*Violation); ok {
		panic(v)
	}
	if t.Panic != nil {
		s.out("panic %v", t.Panic)
	}
}

func runC11(r *Run) {
	var ps []prog
	alike := r.N(3) == 2
	for i, n := 0, r.Range(2, 4); i < n; i++ {
		var p prog
		if alike && i > 0 {
			// the same calls on other numbers
			p = ps[0]
			p.vals = r.Seed()
		} else {
			p = r.genProg()
		}
		r.Op("caller %d: %s", i, p.name)
		ps = append(ps, p)
	}
	var alone []*script
	for i := range ps {
		s, t := ps[i].start(r, i, nil, nil)
		r.Sim.Run()
		r.ended()
		s.finish(t)
		if t.Panic != nil {
			r.Fail("panic", "caller %d alone: a call panicked: %v\n%s", i, t.Panic, trim(t.Stack))
		}
		alone = append(alone, s)
	}
	if r.Bool() {
		// a new process: nothing that the library keeps for itself is left
		r.Sim.Restart()
	}
	gapSets := [][]int{{2}, {10}, {2, 50}, {300}, {10, 300}, {3000}, {2, 3000}, {1}}
	gaps, most := gapSets[r.N(len(gapSets))], []int{1, 3, 20, 100, 600}[r.N(5)]
	r.Sim.Sched(gaps, most)
	// callers that wait for each other before each call: all make their k-th
	// call at the same time, with preemptions in every call
	lockstep := r.Bool()
	at := make([]int, len(ps))
	round := 0
	meet := func(i int) func() {
		if !lockstep {
			return nil
		}
		return func() {
			at[i]++
			k := at[i]
			r.Sim.Block(func() bool {
				for _, v := range at {
					if v < k {
						return false
					}
				}
				return true
			})
			if k > round {
				round = k
				r.Sim.Sched(gaps, most)
			}
		}
	}
	var both []*script
	var ts []*vsim.Task
	before := r.Sim.Switches
	for i := range ps {
		s, t := ps[i].start(r, i, meet(i), func() { at[i] = 1 << 30 })
		both = append(both, s)
		ts = append(ts, t)
	}
	r.Sim.Run()
	r.ended()
	if sw := r.Sim.Switches - before; sw > len(ps) {
		r.Nontrivial = true
		r.Hits["fault.preemption"] += sw - len(ps)
	}
	for i := range ps {
		both[i].finish(ts[i])
		a, b := alone[i].log, both[i].log
		for k := range a {
			if k >= len(b) {
				r.Fail("interference", "caller %d stops after observation %d in company", i, k)
			}
			if a[k] != b[k] {
				r.Fail("interference", "caller %d (%s) observes %q in company and %q alone\n%s", i, ps[i].name, cut(b[k]), cut(a[k]), trim(ts[i].Stack))
			}
			h := fnv.New64a()
			h.Write([]byte(a[k]))
			r.Note(h.Sum64())
		}
		if len(b) > len(a) {
			r.Fail("interference", "caller %d (%s) in company: %q\n%s", i, ps[i].name, cut(b[len(a)]), trim(ts[i].Stack))
		}
	}
}

func cut(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}
