package props

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/julioguillermo/godeep/activation"
	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif.local/sim/vsim"
)

// Node is one layer of an architecture; its inputs are earlier nodes.
type Node struct {
	Kind          string
	In            []int
	A, B, C, D, E uint
	Act           int
	Shape         []uint // output shape
}

// Arch describes a network independently of the library.
type Arch struct {
	Nodes []Node
	Push  bool // a chain, built with Model.Push
}

func (a *Arch) InShape() []uint {
	n := a.Nodes[0]
	if n.Kind == "indense" || n.Kind == "firstdense" {
		return []uint{n.A}
	}
	return n.Shape
}
func (a *Arch) OutShape() []uint { return a.Nodes[len(a.Nodes)-1].Shape }

func (a *Arch) String() string {
	var s []string
	for i, n := range a.Nodes {
		in := ""
		if len(n.In) > 0 && !(len(n.In) == 1 && n.In[0] == i-1) {
			in = fmt.Sprint(n.In)
		}
		act := ""
		switch n.Kind {
		case "dense", "indense", "firstdense", "conv", "deconv", "convwh", "deconvwh":
			act = "/" + actNames[n.Act]
		}
		s = append(s, fmt.Sprintf("%s%s(%s)%s->%v", n.Kind, in, n.args(), act, n.Shape))
	}
	return strings.Join(s, " ")
}

func size(sh []uint) uint {
	n := uint(1)
	for _, s := range sh {
		n *= s
	}
	return n
}

var actNames = []string{"linear", "sigmoid", "tanh", "sin", "gelu", "swish", "relu", "elu", "selu"}

func libAct[T types.Number](k int) activation.Activation[T] {
	switch actNames[k] {
	case "sigmoid":
		return activation.Sigmoid[T]{}
	case "tanh":
		return activation.Tanh[T]{}
	case "sin":
		return activation.Sin[T]{}
	case "gelu":
		return activation.GELU[T]{}
	case "swish":
		return activation.Swish[T]{}
	case "relu":
		return activation.Relu[T]{Alpha: fracT[T](0.125)}
	case "elu":
		return activation.ELU[T]{Alpha: 1}
	case "selu":
		return activation.SELU[T]{ELU: activation.ELU[T]{Alpha: fracT[T](1.5)}, Lambda: 1}
	}
	return activation.Linear[T]{}
}

func fracT[T types.Number](f float64) T { return T(f) }

// ActCtl watches all activation calls of a network and can make one panic.
type ActCtl struct {
	Calls   int64
	PanicAt int64 // the call that panics, counted from Arm; 0: none
	armed   int64
	Hook    func() // called before every call
}

func (c *ActCtl) Arm(k int64) { c.armed, c.PanicAt = c.Calls, k }
func (c *ActCtl) hit() {
	c.Calls++
	if c.Hook != nil {
		c.Hook()
	}
	if c.PanicAt > 0 && c.Calls-c.armed == c.PanicAt {
		c.PanicAt = 0
		panic(Injected{c.Calls})
	}
}

type spyAct[T types.Number] struct {
	in  activation.Activation[T]
	ctl *ActCtl
}

func (a *spyAct[T]) Activate(v T) T { a.ctl.hit(); return a.in.Activate(v) }
func (a *spyAct[T]) Derive(v T) T   { a.ctl.hit(); return a.in.Derive(v) }

// Net is a network built from an Arch.
type Net[T types.Number] struct {
	A      *Arch
	M      *model.Model[T]
	Layers []layer.Layer[T]
	Ctl    *ActCtl
}

// build constructs the network (not yet compiled). It must run in a task.
func build[T types.Number](a *Arch) *Net[T] { return buildCtl[T](a, &ActCtl{}, false) }

// joined: the network will follow another one.
func buildCtl[T types.Number](a *Arch, ctl *ActCtl, joined bool) *Net[T] {
	n := &Net[T]{A: a, Ctl: ctl}
	act := func(k int) activation.Activation[T] { return &spyAct[T]{libAct[T](k), n.Ctl} }
	if a.Push {
		n.M = model.NewModel[T]()
	}
	for _, d := range a.Nodes {
		var l layer.Layer[T]
		switch d.Kind {
		case "input":
			l = layer.NewInput[T](append([]uint(nil), d.Shape...)...)
		case "indense":
			l = layer.NewInDense[T](d.A, d.B, act(d.Act))
		case "firstdense":
			if joined {
				l = layer.NewDense[T](d.B, act(d.Act))
			} else {
				l = layer.NewInDense[T](d.A, d.B, act(d.Act))
			}
		case "dense":
			l = layer.NewDense[T](d.A, act(d.Act))
		case "conv":
			l = layer.NewConv2D[T](d.A, d.B, d.C, act(d.Act))
		case "deconv":
			l = layer.NewDeconv2D[T](d.A, d.B, d.C, act(d.Act))
		case "convwh":
			l = layer.NewConv2Dwh[T](d.A, d.B, d.C, d.D, d.E, act(d.Act))
		case "deconvwh":
			l = layer.NewDeconv2Dwh[T](d.A, d.B, d.C, d.D, d.E, act(d.Act))
		case "maxpoolxy":
			l = layer.NewMaxPool2Dxy[T](d.A, d.B)
		case "maxpool":
			l = layer.NewMaxPool2D[T](d.A)
		case "upsample":
			l = layer.NewUpSampling2D[T](d.A)
		case "flatten":
			l = layer.NewFlatten[T]()
		case "norm":
			l = layer.NewNorm[T]()
		case "enorm":
			l = layer.NewENorm[T]()
		case "softmax":
			l = layer.NewSoftMax[T]()
		case "sub":
			l = layer.NewSubTensor[T](d.A, d.B, d.C)
		case "concat":
			var in [2]layer.Layer[T]
			for i, k := range d.In {
				if k >= 0 { // else the layer is missing
					in[i] = n.Layers[k]
				}
			}
			l = layer.NewConcat[T](in[0], in[1], d.A)
		default:
			panic("kind " + d.Kind)
		}
		if a.Push {
			n.M.Push(l)
		} else if len(d.In) == 1 {
			l.Connect(n.Layers[d.In[0]])
		}
		n.Layers = append(n.Layers, l)
	}
	if !a.Push {
		n.M, _ = model.FromInOut[T](n.Layers[0], n.Layers[len(n.Layers)-1])
	}
	return n
}

func baseOf[T types.Number](l layer.Layer[T]) *layer.Base[T] {
	return reflect.ValueOf(l).Elem().FieldByName("Base").Addr().Interface().(*layer.Base[T])
}

// params lists the parameter tensors of a layer (nil before compiling).
func params[T types.Number](l layer.Layer[T]) []tensor.Tensor[T] {
	b := baseOf(l)
	var v []tensor.Tensor[T]
	if b.Weights != nil {
		v = append(v, b.Weights)
	}
	if b.Bias != nil {
		v = append(v, b.Bias)
	}
	return v
}

// Params is a snapshot of all parameters, bit by bit, layer by layer.
type Params [][]uint64

func snapLayers[T types.Number](ls []layer.Layer[T]) Params {
	p := make(Params, len(ls))
	for i, l := range ls {
		for _, t := range params(l) {
			for _, o := range t.GetOperands() {
				p[i] = append(p[i], bits(o.Value))
			}
		}
	}
	return p
}

func (n *Net[T]) Snap() Params { return snapLayers(n.Layers) }

func (p Params) Count() int {
	n := 0
	for _, l := range p {
		n += len(l)
	}
	return n
}

// finite reports whether all parameters, floating-point numbers of w bytes,
// are finite.
func (p Params) finite(w int) bool {
	for _, l := range p {
		for _, b := range l {
			if w == 8 && b&0x7ff0000000000000 == 0x7ff0000000000000 || w == 4 && b&0x7f800000 == 0x7f800000 {
				return false
			}
		}
	}
	return true
}

// diff names the first difference, "" if there is none.
func (p Params) diff(q Params) string {
	for i := range p {
		if i >= len(q) {
			return "layer count"
		}
		if len(p[i]) != len(q[i]) {
			return fmt.Sprintf("layer %d has %d parameters instead of %d", i, len(p[i]), len(q[i]))
		}
		if k := eqBits(p[i], q[i]); k >= 0 {
			return fmt.Sprintf("layer %d parameter %d: bits %#x instead of %#x", i, k, p[i][k], q[i][k])
		}
	}
	return ""
}

// setParams copies the values of one network's parameters into another of the
// same architecture, without going through Save and Load.
func setParams[T types.Number](from, to []layer.Layer[T]) {
	for i := range from {
		a, b := params(from[i]), params(to[i])
		for j := range a {
			x, y := a[j].GetOperands(), b[j].GetOperands()
			for k := range x {
				y[k].Value = x[k].Value
			}
		}
	}
}

// tame gives the network moderate parameters so that activations do not
// saturate.
func tame[T types.Number](ls []layer.Layer[T], rng *vsim.Rng) {
	for _, l := range ls {
		for _, t := range params(l) {
			for _, o := range t.GetOperands() {
				o.Value = T(rng.Float()*1.2 - 0.6)
			}
		}
	}
}

// sample makes a tensor with values in [-1,1].
func sample[T types.Number](rng *vsim.Rng, shape []uint) tensor.Tensor[T] {
	v := make([]T, size(shape))
	for i := range v {
		v[i] = T(rng.Float()*2 - 1)
	}
	return tensor.NewFromValues[T](v, append([]uint(nil), shape...)...)
}

// NetOpts limits what genArch may produce.
type NetOpts struct {
	MaxDepth int
	Smooth   bool // only layers and activations through which gradients flow
	In       []uint
	NoBranch bool
	NoConv   bool
	Bare     bool // now and then a network without parameters
	Params   bool // (genSpec) with parameters in any case
	Big      bool // now and then a layer with many parameters
}

// spice gives some parameters values that are easily spoilt on the way.
func spice[T types.Number](ls []layer.Layer[T], rng *vsim.Rng) {
	for _, l := range ls {
		for _, t := range params(l) {
			for _, o := range t.GetOperands() {
				if rng.Intn(4) == 0 {
					o.Value = special[T](rng)
				}
			}
		}
	}
}

func special[T types.Number](rng *vsim.Rng) T {
	switch p := any(new(T)).(type) {
	case *float32:
		v := []uint32{0x80000000, 0x7fc00001, 0xffc12345, 0x7f800000, 0xff800000, 1, 0x807fffff, 0x7f7fffff, 0x00800000, 0x3f800001, 0}
		*p = math.Float32frombits(v[rng.Intn(len(v))])
		return any(*p).(T)
	case *float64:
		v := []uint64{1 << 63, 0x7ff8000000000001, 0xfff8123456789abc, 0x7ff0000000000000, 0xfff0000000000000, 1, 0x800fffffffffffff, 0x7fefffffffffffff, 0x0010000000000000, 0x3ff0000000000001, 0, 0x3fb999999999999a}
		*p = math.Float64frombits(v[rng.Intn(len(v))])
		return any(*p).(T)
	}
	u := rng.Uint64()
	switch rng.Intn(4) {
	case 0:
		return T(int16(u))
	case 1:
		return T(int8(u))
	case 2:
		return 0 - 1
	}
	var m T = 1
	for i, n := 0, int(u%64); i < n; i++ {
		if m+m > m {
			m += m
		}
	}
	if u>>32&1 == 0 {
		return -m
	}
	return m
}

func (r *Run) genAct(o NetOpts) int {
	if o.Smooth {
		return r.N(4)
	}
	return r.N(len(actNames))
}

// genArch draws an architecture.
func (r *Run) genArch(o NetOpts) *Arch {
	if o.MaxDepth == 0 {
		o.MaxDepth = 4
	}
	a := &Arch{}
	add := func(n Node) int { a.Nodes = append(a.Nodes, n); return len(a.Nodes) - 1 }
	kind := r.N(4)
	img := kind == 2 && !o.NoConv
	switch {
	case len(o.In) == 1 && kind == 3:
		out := uint(r.Range(1, 4))
		add(Node{Kind: Pick3(r, "indense", "firstdense"), A: o.In[0], B: out, Act: r.genAct(o), Shape: []uint{out}})
		img = false
	case o.In != nil:
		add(Node{Kind: "input", Shape: o.In})
		img = len(o.In) == 3
	case img:
		w := uint(r.Range(2, 4))
		h := w
		if r.Bool() {
			h = uint(r.Range(2, 4))
		}
		add(Node{Kind: "input", Shape: []uint{uint(r.Range(1, 2)), w, h}})
	case kind == 0:
		in, out := uint(r.Range(1, 4)), uint(r.Range(1, 4))
		if o.Big && r.N(12) == 11 {
			in, out = uint(r.Range(8, 70)), uint(r.Range(8, 40))
		}
		add(Node{Kind: "indense", A: in, B: out, Act: r.genAct(o), Shape: []uint{out}})
	default:
		sh := []uint{uint(r.Range(1, 4))}
		if kind == 3 && !o.Smooth && r.N(4) == 3 {
			sh = []uint{uint(r.Range(1, 3)), uint(r.Range(1, 3))}
		}
		add(Node{Kind: "input", Shape: sh})
	}
	cur := 0
	// split cuts along a dimension and joins the pieces again
	split := func(cur int, sh []uint) int {
		d := r.N(len(sh))
		if sh[d] < 2 {
			// nothing to cut: twice the same, side by side
			to := append([]uint(nil), sh...)
			to[d] *= 2
			x := add(Node{Kind: "norm", In: []int{cur}, Shape: sh})
			y := add(Node{Kind: "softmax", In: []int{cur}, Shape: sh})
			return add(Node{Kind: "concat", In: []int{x, y}, A: uint(d), Shape: to})
		}
		at := uint(r.Range(1, int(sh[d])-1))
		a, b := append([]uint(nil), sh...), append([]uint(nil), sh...)
		a[d], b[d] = at, sh[d]-at
		x := add(Node{Kind: "sub", In: []int{cur}, A: uint(d), B: 0, C: at, Shape: a})
		y := add(Node{Kind: "sub", In: []int{cur}, A: uint(d), B: at, C: sh[d], Shape: b})
		if r.Bool() {
			x, y = y, x
		}
		return add(Node{Kind: "concat", In: []int{x, y}, A: uint(d), Shape: sh})
	}
	depth := r.Range(1, o.MaxDepth)
	chain := true
	hasParams := a.Nodes[0].Kind != "input"
	if hasParams && r.N(6) == 5 {
		depth = 0 // a network of one layer
	}
	bare := o.Bare && !hasParams && r.N(6) == 5
	if bare && r.Bool() {
		depth = 0
	}
	for d := 0; d < depth; d++ {
		sh := a.Nodes[cur].Shape
		k := r.N(13)
		if o.NoBranch && k >= 7 && k <= 10 {
			k = 0
		}
		if len(sh) == 2 {
			switch {
			case k <= 2:
				cur = add(Node{Kind: "flatten", In: []int{cur}, Shape: []uint{size(sh)}})
			case k <= 4:
				cur = add(Node{Kind: Pick3(r, "norm", "enorm", "softmax"), In: []int{cur}, Shape: sh})
			case k <= 6 && !o.NoBranch:
				chain = false
				cur = split(cur, sh)
			default:
				n := uint(r.Range(1, 3))
				cur = add(Node{Kind: "dense", In: []int{cur}, A: n, Act: r.genAct(o), Shape: []uint{n}})
				hasParams = true
			}
			continue
		}
		if len(sh) == 3 {
			switch {
			case k == 8 && !o.Smooth:
				chain = false
				cur = split(cur, sh)
			case k == 9 && !o.Smooth:
				cur = add(Node{Kind: Pick3(r, "norm", "enorm", "softmax"), In: []int{cur}, Shape: sh})
			case k == 10 && !o.Smooth && sh[1] >= 2 && sh[2] >= 2 && size(sh) <= 64:
				f, sx, sy := uint(r.Range(1, 2)), uint(r.Range(1, 2)), uint(r.Range(1, 2))
				kw, kh := uint(r.Range(1, int(sh[1]))), uint(r.Range(1, int(sh[2])))
				cur = add(Node{Kind: "convwh", In: []int{cur}, A: f, B: kw, C: kh, D: sx, E: sy, Act: r.genAct(o),
					Shape: []uint{f, (sh[1]-kw)/sx + 1, (sh[2]-kh)/sy + 1}})
				hasParams = true
			case k == 11 && !o.Smooth && sh[1] >= 2 && sh[2] >= 2:
				x, y := uint(r.Range(2, 3)), uint(r.Range(2, 3))
				cur = add(Node{Kind: "maxpoolxy", In: []int{cur}, A: x, B: y, Shape: []uint{sh[0], (sh[1] + 1) / x, (sh[2] + 1) / y}})
			case k == 12 && !o.Smooth && size(sh) <= 16:
				f, kw, kh, sx, sy := uint(r.Range(1, 2)), uint(r.Range(1, 2)), uint(r.Range(1, 2)), uint(r.Range(1, 2)), uint(r.Range(1, 2))
				cur = add(Node{Kind: "deconvwh", In: []int{cur}, A: f, B: kw, C: kh, D: sx, E: sy, Act: r.genAct(o),
					Shape: []uint{f, (sh[1]-1)*sx + kw, (sh[2]-1)*sy + kh}})
				hasParams = true
			case k <= 2 && sh[1] >= 2 && sh[2] >= 2 && size(sh) <= 64:
				f, ks := uint(r.Range(1, 2)), uint(2)
				mn := min(sh[1], sh[2])
				if mn >= 3 && r.Bool() {
					ks = 3
				}
				st := uint(r.Range(1, 2))
				cur = add(Node{Kind: "conv", In: []int{cur}, A: f, B: ks, C: st, Act: r.genAct(o),
					Shape: []uint{f, (sh[1]-ks)/st + 1, (sh[2]-ks)/st + 1}})
				hasParams = true
			case k == 3 && size(sh) <= 16:
				f, ks, st := uint(r.Range(1, 2)), uint(r.Range(1, 2)), uint(r.Range(1, 2))
				cur = add(Node{Kind: "deconv", In: []int{cur}, A: f, B: ks, C: st, Act: r.genAct(o),
					Shape: []uint{f, (sh[1]-1)*st + ks, (sh[2]-1)*st + ks}})
				hasParams = true
			case k == 4 && !o.Smooth && sh[1] >= 2 && sh[2] >= 2:
				cur = add(Node{Kind: "maxpool", In: []int{cur}, A: 2, Shape: []uint{sh[0], (sh[1] + 1) / 2, (sh[2] + 1) / 2}})
			case k == 5 && size(sh) <= 8:
				cur = add(Node{Kind: "upsample", In: []int{cur}, A: 2, Shape: []uint{sh[0], sh[1] * 2, sh[2] * 2}})
			case k == 6:
				cur = add(Node{Kind: "flatten", In: []int{cur}, Shape: []uint{size(sh)}})
			case k == 7 && size(sh) <= 32:
				chain = false
				f1, f2 := uint(r.Range(1, 2)), uint(r.Range(1, 2))
				x := add(Node{Kind: "conv", In: []int{cur}, A: f1, B: 1, C: 1, Act: r.genAct(o), Shape: []uint{f1, sh[1], sh[2]}})
				y := add(Node{Kind: "conv", In: []int{cur}, A: f2, B: 1, C: 1, Act: r.genAct(o), Shape: []uint{f2, sh[1], sh[2]}})
				cur = add(Node{Kind: "concat", In: []int{x, y}, A: 0, Shape: []uint{f1 + f2, sh[1], sh[2]}})
				hasParams = true
			default:
				n := uint(r.Range(1, 3))
				cur = add(Node{Kind: "dense", In: []int{cur}, A: n, Act: r.genAct(o), Shape: []uint{n}})
				hasParams = true
			}
			continue
		}
		n := sh[0]
		switch {
		case k == 4 && !o.Smooth:
			cur = add(Node{Kind: Pick3(r, "norm", "enorm", "softmax"), In: []int{cur}, Shape: []uint{n}})
		case k == 5 && !o.Smooth:
			cur = add(Node{Kind: "flatten", In: []int{cur}, Shape: []uint{n}})
		case k == 6 && n >= 2 && !o.Smooth:
			to := uint(r.Range(1, int(n)-1))
			cur = add(Node{Kind: "sub", In: []int{cur}, A: 0, B: 0, C: to, Shape: []uint{to}})
		case k == 7 || k == 8:
			// two branches, of one or two layers each, joined again
			chain = false
			var end [2]int
			for b := range end {
				e := cur
				for i, m := 0, r.Range(1, 2); i < m; i++ {
					w := uint(r.Range(1, 3))
					e = add(Node{Kind: "dense", In: []int{e}, A: w, Act: r.genAct(o), Shape: []uint{w}})
				}
				end[b] = e
			}
			cur = add(Node{Kind: "concat", In: []int{end[0], end[1]}, A: 0,
				Shape: []uint{a.Nodes[end[0]].Shape[0] + a.Nodes[end[1]].Shape[0]}})
			hasParams = true
		case k == 10:
			// a connection around a layer
			chain = false
			w := uint(r.Range(1, 3))
			e := add(Node{Kind: "dense", In: []int{cur}, A: w, Act: r.genAct(o), Shape: []uint{w}})
			in := []int{cur, e}
			if r.Bool() {
				in = []int{e, cur}
			}
			cur = add(Node{Kind: "concat", In: in, A: 0, Shape: []uint{n + w}})
			hasParams = true
		case k == 11 && !o.NoBranch && n <= 4 && r.Bool():
			// the same twice
			chain = false
			cur = add(Node{Kind: "concat", In: []int{cur, cur}, A: 0, Shape: []uint{2 * n}})
		case k == 9 && n >= 2:
			// split, treat the halves, join
			chain = false
			at := uint(r.Range(1, int(n)-1))
			x := add(Node{Kind: "sub", In: []int{cur}, A: 0, B: 0, C: at, Shape: []uint{at}})
			y := add(Node{Kind: "sub", In: []int{cur}, A: 0, B: at, C: n, Shape: []uint{n - at}})
			w := uint(r.Range(1, 3))
			x = add(Node{Kind: "dense", In: []int{x}, A: w, Act: r.genAct(o), Shape: []uint{w}})
			w2 := uint(r.Range(1, 3))
			y = add(Node{Kind: "dense", In: []int{y}, A: w2, Act: r.genAct(o), Shape: []uint{w2}})
			cur = add(Node{Kind: "concat", In: []int{x, y}, A: 0, Shape: []uint{w + w2}})
			hasParams = true
		default:
			w := uint(r.Range(1, 4))
			cur = add(Node{Kind: "dense", In: []int{cur}, A: w, Act: r.genAct(o), Shape: []uint{w}})
			hasParams = true
		}
	}
	if !bare && !hasParams || (o.Smooth && len(a.Nodes[cur].Shape) == 3) || r.N(3) == 0 {
		w := uint(r.Range(1, 3))
		add(Node{Kind: "dense", In: []int{cur}, A: w, Act: r.genAct(o), Shape: []uint{w}})
	}
	a.Push = chain && r.Bool()
	return a
}

func Pick3(r *Run, s ...string) string { return s[r.N(len(s))] }

func (n Node) args() string {
	if n.D > 0 {
		return fmt.Sprintf("%d,%d,%d,%d,%d", n.A, n.B, n.C, n.D, n.E)
	}
	return fmt.Sprintf("%d,%d,%d", n.A, n.B, n.C)
}
