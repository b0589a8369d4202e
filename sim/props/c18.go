package props

import (
	"bytes"

	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	register(&Prop{ID: "C18", Quick: 5000000, Deep: 75000000,
		Run: func(r *Run) {
			if r.Bool() {
				runC18[float64](r)
			} else {
				runC18[float32](r)
			}
		},
		Rule: "a random network with one layer that cannot work where it stands (an image layer on something that is no image, a slice or a join that does not fit, a first layer that is no input), alone or as part of a composed or nested model, is used 2-7 times through drawn entry points; each must report an error, none may panic, and nothing but the error may come out; valid networks are built, and used, in between; non-trivial: a second use after a rejected one; distinct: hash of architecture and entry points",
	})
}

// spoil appends a layer that cannot work, and perhaps a layer after it. It
// reports what was done.
func (r *Run) spoil(a *Arch, first bool) string {
	add := func(n Node) int { a.Nodes = append(a.Nodes, n); return len(a.Nodes) - 1 }
	cur := len(a.Nodes) - 1
	sh := a.Nodes[cur].Shape
	what := ""
	sub := func() {
		d := uint(r.N(len(sh)))
		from, to := uint(0), sh[d]+uint(r.Range(1, 3))
		switch r.N(4) {
		case 1:
			d = uint(len(sh) + r.N(2))
			to = 1
		case 2:
			from, to = sh[d]+uint(r.N(2)), sh[d]+2
		case 3: // empty, or the wrong way round
			from = uint(r.Range(0, int(sh[d])))
			to = from
			if from > 0 && r.Bool() {
				to = uint(r.N(int(from)))
			}
		}
		what = "slice"
		cur = add(Node{Kind: "sub", In: []int{cur}, A: d, B: from, C: to, Shape: sh})
	}
	switch k := r.N(4); {
	case k == 0 && len(sh) != 3:
		kind := Pick3(r, "conv", "deconv", "maxpool", "upsample", "convwh", "deconvwh", "maxpoolxy")
		what = kind + " on no image"
		n := Node{Kind: kind, In: []int{cur}, A: 2, B: 2, C: 1, Shape: sh}
		if kind == "convwh" || kind == "deconvwh" {
			n.D, n.E = 1, 1
		}
		cur = add(n)
	case k == 0:
		// a kernel that is larger than the image
		what = "kernel"
		kw, kh := sh[1]+uint(r.Range(1, 2)), uint(1)
		switch r.N(3) {
		case 1:
			kw, kh = 1, sh[2]+uint(r.Range(1, 2))
		case 2:
			kh = sh[2] + 1
		}
		cur = add(Node{Kind: "convwh", In: []int{cur}, A: 1, B: kw, C: kh, D: uint(r.Range(1, 2)), E: 1, Shape: sh})
	case k <= 1:
		sub()
	case k == 2:
		// two branches that do not fit together
		a.Push = false
		what = "join"
		if r.N(4) == 3 {
			what = "join with nothing"
			in := []int{cur, -1}
			if r.Bool() {
				in = []int{-1, cur}
			}
			cur = add(Node{Kind: "concat", In: in, A: uint(r.N(len(sh))), Shape: sh})
			break
		}
		if len(sh) == 1 {
			x := add(Node{Kind: "dense", In: []int{cur}, A: 2, Act: r.N(3), Shape: []uint{2}})
			y := add(Node{Kind: "dense", In: []int{cur}, A: 3, Act: r.N(3), Shape: []uint{3}})
			cur = add(Node{Kind: "concat", In: []int{x, y}, A: uint(r.Range(1, 2)), Shape: []uint{5}})
			break
		}
		if len(sh) == 3 && r.Bool() {
			// images of different sizes
			x := add(Node{Kind: "norm", In: []int{cur}, Shape: sh})
			y := add(Node{Kind: "upsample", In: []int{cur}, A: 2, Shape: sh})
			if r.Bool() {
				x, y = y, x
			}
			cur = add(Node{Kind: "concat", In: []int{x, y}, A: uint(r.N(4)), Shape: sh})
			break
		}
		x := add(Node{Kind: "norm", In: []int{cur}, Shape: sh})
		y := add(Node{Kind: "flatten", In: []int{cur}, Shape: []uint{size(sh)}})
		if r.Bool() {
			x, y = y, x
		}
		cur = add(Node{Kind: "concat", In: []int{x, y}, A: uint(r.N(3)), Shape: sh})
	default:
		// the first layer is none that can be first
		if !first || a.Nodes[0].Kind != "input" {
			sub()
			break
		}
		kind := Pick3(r, "flatten", "norm", "enorm", "softmax", "sub", "maxpool", "upsample", "dense", "conv", "deconv")
		what = kind + " as first layer"
		n := Node{Kind: kind, A: 1, B: 1, C: 1, Shape: a.Nodes[0].Shape}
		if kind == "sub" {
			n.A, n.B = 0, 0
		}
		a.Nodes[0] = n
	}
	if r.Bool() {
		a.Nodes = append(a.Nodes, Node{Kind: "dense", In: []int{cur}, A: 2, Act: r.N(3), Shape: []uint{2}})
	}
	return what
}

func runC18[T types.Number](r *Run) {
	rng := newRng(r)
	kind := Pick3(r, "single", "single", "composed", "nested")
	n := 1
	if kind != "single" {
		n = r.Range(2, 3)
	}
	badAt := r.N(n)
	var archs []*Arch
	what := ""
	var in, out []uint
	for i := 0; i < n; i++ {
		o := NetOpts{MaxDepth: 2, NoConv: r.N(3) > 0}
		if i > 0 {
			o.In = out
		}
		a := r.genArch(o)
		if i == 0 && badAt == 0 && r.N(6) == 5 {
			// four dimensions, or two
			sh := []uint{uint(r.Range(1, 2)), 2, uint(r.Range(1, 2)), 2}
			if r.Bool() {
				sh = []uint{uint(r.Range(1, 3)), 2}
			}
			a = &Arch{Nodes: []Node{{Kind: "input", Shape: sh}}, Push: r.Bool()}
			if r.Bool() {
				a.Nodes = append(a.Nodes, Node{Kind: "norm", In: []int{0}, Shape: sh})
			}
		}
		if i == 0 {
			in = a.InShape()
		}
		if i == badAt {
			what = r.spoil(a, i == 0)
		}
		out = a.OutShape()
		archs = append(archs, a)
	}
	spec := &Spec{Kind: kind, Archs: archs}
	r.Op("%s: %s", what, spec)
	x, t := sample[T](rng, in), sample[T](rng, out)
	y := &Sys[T]{Spec: spec, Ctl: &ActCtl{}}
	r.Must("building", func() {
		for _, a := range archs {
			y.Parts = append(y.Parts, buildCtl[T](a, y.Ctl, len(y.Parts) > 0))
		}
	})
	// make gives the whole model
	compose := func() (*model.Model[T], error) {
		switch kind {
		case "composed":
			var ms []*model.Model[T]
			for _, p := range y.Parts {
				ms = append(ms, p.M)
			}
			return model.FromModels[T](ms...)
		}
		return y.M, nil
	}
	switch kind {
	case "single":
		y.M = y.Parts[0].M
	case "nested":
		r.Must("nesting", func() {
			y.M = model.NewModel[T]()
			for _, p := range y.Parts {
				y.M.Push(p.M)
			}
		})
	}
	for i, m := 0, r.Range(2, 7); i < m; i++ {
		if i > 0 {
			r.Fault("used_again_after_rejection")
		}
		var err error
		use := ""
		use = Pick3(r, "Predict", "TrainOne", "Train", "Compile", "CompileBackPropagation", "Save", "Load", "ResetIS")
		r.Op("%s", use)
		r.Must(use, func() {
			var w *model.Model[T]
			w, err = compose()
			if err != nil {
				return
			}
			switch use {
			case "Predict":
				_, err = w.Predict(x)
			case "TrainOne":
				_, err = w.TrainOne(x, t, fracT[T](0.1), 0)
			case "Train":
				d := genData[T](rng, in, out, 2)
				err = w.Train(d.X, d.Y, 1, 1, fracT[T](0.1), 0)
			case "Compile":
				err = w.Compile()
			case "CompileBackPropagation":
				err = w.CompileBackPropagation()
			case "Save":
				var b bytes.Buffer
				w.ResetSave()
				err = w.Save(&b)
			case "Load":
				w.ResetLoad()
				err = w.Load(bytes.NewReader(make([]byte, 4096)))
			case "ResetIS":
				err = w.ResetIS()
			}
		})
		if err == nil {
			r.Fail("accepted", "%s succeeded on a network that cannot work (%s), attempt %d", use, what, i+1)
		}
	}
}
