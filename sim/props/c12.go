package props

import (
	"fmt"
	"math"

	"github.com/julioguillermo/godeep/graph"
	num "github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/operation"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif.local/sim/vsim"
)

func init() {
	register(&Prop{ID: "C12", Quick: 4000000, Deep: 60000000,
		Run: func(r *Run) {
			switch r.N(4) {
			case 0, 1:
				runC12[float64](r)
			case 2:
				runC12[float32](r)
			case 3:
				runC12[int32](r)
			}
		},
		Rule: "1-3 random tensor expressions over shared leaves and scalars, each in a graph of its own; history of input updates, executions, interrupted executions, interleaved executions, compositions and rejected expressions; after each step every result is compared with an independent evaluator that tracks rounding errors; non-trivial: an execution was interrupted or interleaved or an expression rejected; distinct: hash of expressions, history and fault places",
	})
}

// val is a value of the reference evaluator: the values and, for each, a bound
// on its rounding error (infinite: not comparable; isNaN: not a number).
type val[T types.Number] struct {
	sh []uint
	v  []T
	e  []float64
}

func newVal[T types.Number](sh []uint) val[T] {
	n := size(sh)
	return val[T]{append([]uint(nil), sh...), make([]T, n), make([]float64, n)}
}

// ex is an expression, independent of the library.
type ex[T types.Number] struct {
	op     string
	a, b   *ex[T]
	n      []uint // numeric arguments
	fn     int
	s      int // scalar
	leaf   int
	sh     []uint
	memo   val[T]
	gen    int
	built  tensor.Tensor[T]
	view   bool // shares storage with an input
	userFn bool
}

func (e *ex[T]) String() string {
	switch {
	case e.op == "leaf":
		return fmt.Sprintf("t%d%v", e.leaf, e.sh)
	case e.b != nil:
		return fmt.Sprintf("%s%v(%v,%v)", e.op, e.n, e.a, e.b)
	}
	return fmt.Sprintf("%s%v(%v)", e.op, e.n, e.a)
}

type exWorld[T types.Number] struct {
	r      *Run
	rng    *vsim.Rng
	leaves []*tensor.TensorMat[T]
	lv     []val[T] // what they must contain
	sc     []*num.Scalar[T]
	sv     []T
	ctl    *ActCtl
	isInt  bool
	gen    int
	nans   bool
	cap    uint // largest tensor
}

var errInf = math.Inf(1)

const isNaN = -1.0

// marked notes which of the values are not numbers.
func (v val[T]) marked() val[T] {
	for i, x := range v.v {
		if x != x {
			v.e[i] = isNaN
		}
	}
	return v
}

func epsOf[T types.Number]() float64 {
	switch any(*new(T)).(type) {
	case float32:
		return 0x1p-23
	case float64:
		return 0x1p-52
	}
	return 0
}

func userFn[T types.Number](k int, x T) T {
	switch k {
	case 1:
		return x/2 + 1
	case 2:
		if x < 0 {
			return -x
		}
		return x
	case 3:
		return 1 - x
	}
	return x + x
}

func (w *exWorld[T]) fix(v *val[T]) {
	if w.isInt {
		return
	}
	for i := range v.v {
		if v.e[i] == isNaN {
			continue
		}
		if a := math.Abs(float64(v.v[i])); !(a < 1e18) || !(v.e[i] < 1e-3*(1+a)) {
			v.e[i] = errInf
		}
	}
}

// eval computes e from the contents of the leaves and scalars.
func (w *exWorld[T]) eval(e *ex[T]) val[T] {
	if e.gen == w.gen && e.memo.v != nil {
		return e.memo
	}
	out := w.eval1(e)
	w.fix(&out)
	e.memo, e.gen = out, w.gen
	return out
}

func (w *exWorld[T]) eval1(e *ex[T]) val[T] {
	eps := epsOf[T]()
	ab := func(x T) float64 { return math.Abs(float64(x)) }
	var a, b val[T]
	if e.a != nil {
		a = w.eval(e.a)
	}
	if e.b != nil {
		b = w.eval(e.b)
	}
	out := newVal[T](e.sh)
	two := func(i int, op string, x T, xe float64, y T, ye float64) {
		if xe == isNaN || ye == isNaN {
			out.v[i], out.e[i] = x+y, isNaN
			return
		}
		switch op {
		case "add":
			out.v[i] = x + y
			out.e[i] = xe + ye
		case "sub":
			out.v[i] = x - y
			out.e[i] = xe + ye
		case "mul":
			out.v[i] = x * y
			out.e[i] = xe*(ab(y)+ye) + ye*ab(x)
		case "div":
			if !(ab(y) > 1e-3+16*ye) {
				out.e[i] = errInf
				return
			}
			out.v[i] = x / y
			out.e[i] = (xe + ab(out.v[i])*ye) / (ab(y) - ye)
		}
		out.e[i] += eps * (ab(x) + ab(y) + ab(out.v[i]))
	}
	red := func(op string, v []T, e []float64) (T, float64) {
		for i := range e {
			if e[i] == isNaN {
				if op == "sum" || op == "avg" {
					return v[i], isNaN
				}
				return 0, errInf
			}
		}
		x, ee, mag := v[0], e[0], ab(v[0])
		for i := 1; i < len(v); i++ {
			switch op {
			case "sum", "avg":
				x += v[i]
			case "max":
				if v[i] > x {
					x = v[i]
				}
			case "min":
				if v[i] < x {
					x = v[i]
				}
			}
			mag += ab(v[i])
			if op == "sum" || op == "avg" {
				ee += e[i]
			} else {
				ee = math.Max(ee, e[i])
			}
		}
		if op == "sum" || op == "avg" {
			ee += eps * float64(len(v)+1) * mag
		}
		if op == "avg" {
			x /= T(len(v))
		}
		return x, ee
	}
	switch e.op {
	case "leaf":
		return w.lv[e.leaf]
	case "add", "sub", "mul", "div":
		for i := range out.v {
			two(i, e.op, a.v[i], a.e[i], b.v[i], b.e[i])
		}
	case "adds", "subs", "muls", "divs":
		for i := range out.v {
			two(i, e.op[:3], a.v[i], a.e[i], w.sv[e.s], 0)
		}
	case "abs":
		for i := range out.v {
			out.v[i], out.e[i] = a.v[i], a.e[i]
			if out.v[i] < 0 {
				out.v[i] = -out.v[i]
			}
		}
	case "neg":
		for i := range out.v {
			out.v[i], out.e[i] = -a.v[i], a.e[i]
		}
	case "act":
		for i := range out.v {
			out.v[i] = userFn(e.fn, a.v[i])
			if a.e[i] == isNaN {
				out.e[i] = isNaN
				continue
			}
			out.e[i] = 2*a.e[i] + 4*eps*(1+ab(a.v[i]))
		}
	case "sum", "avg", "max", "min":
		out.v[0], out.e[0] = red(e.op, a.v, a.e)
	case "dsum", "davg", "dmax", "dmin":
		m := len(a.v) / len(out.v)
		for i := range out.v {
			out.v[i], out.e[i] = red(e.op[1:], a.v[i*m:(i+1)*m], a.e[i*m:(i+1)*m])
		}
	case "softmax":
		for i := range a.e {
			if a.e[i] == isNaN {
				for j := range out.e {
					out.e[j] = errInf
				}
				return out
			}
		}
		mn, me := red("min", a.v, a.e)
		d, de := make([]T, len(a.v)), make([]float64, len(a.v))
		for i := range d {
			d[i] = a.v[i] - mn
			de[i] = a.e[i] + me + eps*(ab(a.v[i])+ab(mn))
		}
		s, se := red("sum", d, de)
		for i := range d {
			two(i, "div", d[i], de[i], s, se)
		}
	case "reshape", "flatten":
		copy(out.v, a.v)
		copy(out.e, a.e)
	case "transpose":
		each(a.sh, func(idx []uint, i int) {
			j := make([]uint, len(idx))
			for k := range idx {
				j[len(idx)-1-k] = idx[k]
			}
			o := at(out.sh, j)
			out.v[o], out.e[o] = a.v[i], a.e[i]
		})
	case "concat":
		d := e.n[0]
		each(out.sh, func(idx []uint, i int) {
			src := a
			j := append([]uint(nil), idx...)
			if j[d] >= a.sh[d] {
				j[d] -= a.sh[d]
				src = b
			}
			o := at(src.sh, j)
			out.v[i], out.e[i] = src.v[o], src.e[o]
		})
	case "subt", "subx":
		d, from := e.n[0], e.n[1]
		each(out.sh, func(idx []uint, i int) {
			j := append([]uint(nil), idx...)
			j[d] += from
			if j[d] >= a.sh[d] {
				return
			}
			o := at(a.sh, j)
			out.v[i], out.e[i] = a.v[o], a.e[o]
		})
	case "dot", "dotat":
		da, db := e.n[0], e.n[1]
		na := len(a.sh) - 1
		each(out.sh, func(idx []uint, i int) {
			if na == 0 && len(b.sh) == 1 {
				idx = nil // two vectors give a single number
			}
			ia := insert(idx[:na], da)
			ib := insert(idx[na:], db)
			var s T
			var se, mag float64
			for k := uint(0); k < a.sh[da]; k++ {
				ia[da], ib[db] = k, k
				oa, ob := at(a.sh, ia), at(b.sh, ib)
				if a.e[oa] == isNaN || b.e[ob] == isNaN {
					out.v[i], out.e[i] = a.v[oa]+b.v[ob], isNaN
					return
				}
				x := a.v[oa] * b.v[ob]
				s += x
				mag += ab(x)
				se += a.e[oa]*(ab(b.v[ob])+b.e[ob]) + b.e[ob]*ab(a.v[oa])
			}
			out.v[i] = s
			out.e[i] = se + eps*float64(a.sh[da]+2)*mag
		})
	case "copyto":
		copy(out.v, a.v)
		copy(out.e, a.e)
	case "fill":
		for i := range out.v {
			out.v[i] = w.sv[e.s]
		}
	default:
		panic("op " + e.op)
	}
	return out
}

func each(sh []uint, fn func(idx []uint, i int)) {
	n := int(size(sh))
	for i := 0; i < n; i++ {
		idx, k := make([]uint, len(sh)), uint(i)
		for d := len(sh) - 1; d >= 0; d-- {
			idx[d] = k % sh[d]
			k /= sh[d]
		}
		fn(idx, i)
	}
}

func at(sh, idx []uint) int {
	n := uint(0)
	for d := range sh {
		n = n*sh[d] + idx[d]
	}
	return int(n)
}

func insert(idx []uint, d uint) []uint {
	v := append([]uint(nil), idx[:d]...)
	v = append(v, 0)
	return append(v, idx[d:]...)
}

func eqShape(a, b []uint) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// gen draws an expression over the leaves; pool holds the nodes drawn so far.
func (w *exWorld[T]) genExpr(leaves []int, depth int) *ex[T] {
	r := w.r
	var pool []*ex[T]
	for _, l := range leaves {
		pool = append(pool, &ex[T]{op: "leaf", leaf: l, sh: w.lv[l].sh, view: true})
	}
	var last *ex[T]
	for d := 0; d < depth; d++ {
		// the newest node is preferred, so that expressions grow deep
		pick := func() *ex[T] {
			if last != nil && r.N(3) > 0 {
				return last
			}
			return pool[r.N(len(pool))]
		}
		a := pick()
		n := w.genNode(pool, a)
		if size(n.sh) > w.cap || size(n.sh) == 0 {
			n = &ex[T]{op: "sum", a: a, sh: []uint{1}}
		}
		pool = append(pool, n)
		last = n
	}
	return last
}

func (w *exWorld[T]) genNode(pool []*ex[T], a *ex[T]) *ex[T] {
	r := w.r
	dims := len(a.sh)
	n := &ex[T]{a: a, sh: append([]uint(nil), a.sh...)}
	same := func() *ex[T] {
		var v []*ex[T]
		for _, p := range pool {
			if eqShape(p.sh, a.sh) {
				v = append(v, p)
			}
		}
		return v[r.N(len(v))]
	}
	k := r.N(16)
	switch k {
	case 0:
		n.op = Pick3(r, "abs", "neg")
	case 1, 2:
		n.op, n.fn, n.userFn = "act", r.N(4), true
	case 3, 4, 5:
		n.op = Pick3(r, "add", "sub", "mul", "div")
		if w.isInt && n.op == "div" {
			n.op = "sub"
		}
		n.b = same()
	case 6, 7:
		n.op = Pick3(r, "adds", "subs", "muls", "divs")
		n.s = r.N(len(w.sc))
		if w.isInt && n.op == "divs" {
			n.op = "subs"
		}
	case 8:
		n.op, n.sh = Pick3(r, "sum", "avg", "max", "min"), []uint{1}
	case 9:
		d := r.N(dims)
		n.op, n.n, n.sh = Pick3(r, "dsum", "davg", "dmax", "dmin"), []uint{uint(d)}, n.sh[:d+1]
	case 10:
		// concat along a dimension in which alone they differ
		type cand struct {
			b *ex[T]
			d int
		}
		var v []cand
		for _, p := range pool {
			if len(p.sh) != dims {
				continue
			}
			for d := range a.sh {
				x := append([]uint(nil), p.sh...)
				x[d] = a.sh[d]
				if eqShape(x, a.sh) {
					v = append(v, cand{p, d})
				}
			}
		}
		c := v[r.N(len(v))]
		n.op, n.b, n.n = "concat", c.b, []uint{uint(c.d)}
		n.sh[c.d] += c.b.sh[c.d]
		n.view = a.view || c.b.view
	case 11, 12:
		type cand struct {
			b      *ex[T]
			da, db int
		}
		var v []cand
		def := r.Bool()
		for _, p := range pool {
			for da := range a.sh {
				for db := range p.sh {
					dd := max(len(p.sh)-2, 0)
					if a.sh[da] == p.sh[db] && (!def || da == dims-1 && db == dd) {
						v = append(v, cand{p, da, db})
					}
				}
			}
		}
		if len(v) == 0 {
			n.op = "neg"
			return n
		}
		c := v[r.N(len(v))]
		n.op, n.b, n.n = "dotat", c.b, []uint{uint(c.da), uint(c.db)}
		if def {
			n.op = "dot"
		}
		n.sh = append(append([]uint(nil), a.sh[:c.da]...), a.sh[c.da+1:]...)
		n.sh = append(n.sh, c.b.sh[:c.db]...)
		n.sh = append(n.sh, c.b.sh[c.db+1:]...)
		if len(n.sh) == 0 {
			n.sh = []uint{1}
		}
	case 13:
		n.view = a.view
		switch r.N(3) {
		case 0:
			n.op, n.sh = "flatten", []uint{size(a.sh)}
		case 1:
			n.op = "transpose"
			for i := range n.sh {
				n.sh[i] = a.sh[dims-1-i]
			}
		case 2:
			n.op, n.sh = "reshape", nil
			for i, m := 0, r.Range(1, 3); i < m; i++ {
				n.sh = append(n.sh, uint(r.Range(1, 4)))
			}
			if s := size(a.sh); r.Bool() && s%2 == 0 {
				n.sh = []uint{s / 2, 2}
			}
			n.n = n.sh
		}
	case 14:
		n.view = a.view
		d := uint(r.N(dims))
		from := uint(r.N(int(a.sh[d])))
		to := from + 1 + uint(r.N(int(a.sh[d]-from)))
		n.op = "subt"
		if r.Bool() {
			n.op = "subx"
			from = uint(r.N(int(a.sh[d]) + 2))
			to = from + 1 + uint(r.N(4))
		}
		n.n = []uint{d, from, to}
		n.sh[d] = to - from
	case 15:
		if w.isInt || size(a.sh) < 2 {
			n.op = "neg"
			break
		}
		n.op = "softmax"
	}
	return n
}

// lib builds the library's expression. It must run in a task.
func (w *exWorld[T]) lib(e *ex[T]) tensor.Tensor[T] {
	if e.built != nil {
		return e.built
	}
	var a, b tensor.Tensor[T]
	if e.a != nil {
		a = w.lib(e.a)
	}
	if e.b != nil {
		b = w.lib(e.b)
	}
	var t tensor.Tensor[T]
	switch e.op {
	case "leaf":
		t = w.leaves[e.leaf]
	case "add":
		t = tensor.Add(a, b)
	case "sub":
		t = tensor.Sub(a, b)
	case "mul":
		t = tensor.Mul(a, b)
	case "div":
		t = tensor.Div(a, b)
	case "adds":
		t = tensor.AddScalar(a, w.sc[e.s])
	case "subs":
		t = tensor.SubScalar(a, w.sc[e.s])
	case "muls":
		t = tensor.MulScalar(a, w.sc[e.s])
	case "divs":
		t = tensor.DivScalar(a, w.sc[e.s])
	case "abs":
		t = tensor.Abs(a)
	case "neg":
		t = tensor.Neg(a)
	case "act":
		k := e.fn
		ctl := w.ctl
		t = tensor.Activate(a, func(x T) T { ctl.hit(); return userFn(k, x) })
	case "sum":
		t = tensor.Sum(a)
	case "avg":
		t = tensor.Avg(a)
	case "max":
		t = tensor.Max(a)
	case "min":
		t = tensor.Min(a)
	case "dsum":
		t = tensor.DSum(a, e.n[0])
	case "davg":
		t = tensor.DAvg(a, e.n[0])
	case "dmax":
		t = tensor.DMax(a, e.n[0])
	case "dmin":
		t = tensor.DMin(a, e.n[0])
	case "concat":
		t = tensor.Concat(a, b, e.n[0])
	case "dot":
		t = tensor.Dot(a, b)
	case "dotat":
		t = tensor.DotAt(a, b, e.n[0], e.n[1])
	case "flatten":
		t = tensor.Flatten(a)
	case "transpose":
		t = tensor.Transpose(a)
	case "reshape":
		t = tensor.Reshape(a, append([]uint(nil), e.n...)...)
	case "subt":
		t = tensor.SubTensor(a, e.n[0], e.n[1], e.n[2])
	case "subx":
		t = tensor.SubExtendedTensor(a, e.n[0], e.n[1], e.n[2])
	case "softmax":
		t = tensor.SoftMax(a)
	case "copyto":
		t = tensor.CopyTo(a, b)
	case "fill":
		t = tensor.FillWith(a, w.sc[e.s])
	default:
		panic("op " + e.op)
	}
	e.built = t
	return t
}

func (w *exWorld[T]) num() T {
	if w.isInt {
		return T(w.rng.Intn(19) - 9)
	}
	return T(w.rng.Float()*4 - 2)
}

func (w *exWorld[T]) nums(n uint) []T {
	v := make([]T, n)
	for i := range v {
		v[i] = w.num()
		if w.nans && w.rng.Intn(12) == 0 {
			v[i] = special[T](w.rng)
			if v[i] == v[i] {
				v[i] = w.num()
			}
		}
	}
	return v
}

func (w *exWorld[T]) addLeaf(sh []uint) int {
	v := newVal[T](sh)
	copy(v.v, w.nums(size(sh)))
	w.lv = append(w.lv, v.marked())
	w.r.Must("NewFromValues", func() {
		w.leaves = append(w.leaves, tensor.NewFromValues(append([]T(nil), v.v...), append([]uint(nil), sh...)...))
	})
	return len(w.leaves) - 1
}

// bad draws an expression whose operands do not fit.
func (w *exWorld[T]) bad() *ex[T] {
	r := w.r
	leaf := func(sh ...uint) *ex[T] {
		i := w.addLeaf(sh)
		return &ex[T]{op: "leaf", leaf: i, sh: sh}
	}
	a := uint(r.Range(1, 3))
	b := a + uint(r.Range(1, 2))
	n := &ex[T]{}
	switch r.N(10) {
	case 0:
		n.op = Pick3(r, "add", "sub", "mul", "div")
		switch r.N(5) {
		case 0:
			n.a, n.b = leaf(a), leaf(b)
		case 1:
			n.a, n.b = leaf(a, b), leaf(b, a)
		case 2:
			n.a, n.b = leaf(a), leaf(a, 1)
		case 3:
			n.a, n.b = leaf(b, a), leaf(a, a)
		case 4:
			n.a, n.b = leaf(2, a), leaf(2*a)
		}
	case 1:
		n.op = "concat"
		switch r.N(5) {
		case 0:
			n.a, n.b, n.n = leaf(2, a), leaf(2, b), []uint{0}
		case 1:
			n.a, n.b, n.n = leaf(a, 2), leaf(b, 2), []uint{1}
		case 2:
			n.a, n.b, n.n = leaf(a), leaf(a, 1), []uint{0}
		case 3:
			n.a, n.b, n.n = leaf(a, 2), leaf(a, 2), []uint{2 + uint(r.N(2))}
		case 4:
			n.a, n.b, n.n = leaf(2, b, 2), leaf(2, a, 2), []uint{2 * uint(r.N(2))}
		}
	case 2:
		n.op = "dot"
		switch r.N(4) {
		case 0:
			n.a, n.b = leaf(a), leaf(b)
		case 1:
			n.a, n.b = leaf(2, a), leaf(b, 2)
		case 2:
			n.a, n.b = leaf(b, a), leaf(b)
		case 3:
			n.a, n.b = leaf(2, a), leaf(a, b, 2)
		}
	case 3:
		n.op = "dotat"
		switch r.N(4) {
		case 0:
			n.a, n.b, n.n = leaf(a, 2), leaf(b, 2), []uint{0, 0}
		case 1:
			n.a, n.b, n.n = leaf(a, b), leaf(a, b), []uint{1, 0}
		case 2:
			n.a, n.b, n.n = leaf(a, 2), leaf(a, 2), []uint{2, 0}
		case 3:
			n.a, n.b, n.n = leaf(a, 2), leaf(a, 2), []uint{0, 2}
		}
	case 4:
		n.op = Pick3(r, "dsum", "davg", "dmax", "dmin")
		if r.Bool() {
			n.a, n.n = leaf(a), []uint{1}
		} else {
			n.a, n.n = leaf(a, b), []uint{2 + uint(r.N(3))}
		}
	case 5:
		n.op = "subt"
		switch r.N(4) {
		case 0:
			n.a, n.n = leaf(a, b), []uint{0, 0, a + 1}
		case 1:
			n.a, n.n = leaf(a, b), []uint{1, a, a}
		case 2:
			n.a, n.n = leaf(a, b), []uint{2, 0, 1}
		case 3:
			n.a, n.n = leaf(a), []uint{0, a, a + 1}
		}
	case 6:
		n.op = "subx"
		switch r.N(2) {
		case 0:
			n.a, n.n = leaf(a, b), []uint{0, 1, 1}
		case 1:
			n.a, n.n = leaf(a), []uint{1, 0, 1}
		}
	case 7:
		n.op, n.a, n.b = "copyto", leaf(a), leaf(b)
	case 8:
		n.op, n.a, n.b = "copyto", leaf(b, a), leaf(a, a)
	case 9:
		// the mismatch is known only when the operand has been built
		n.op, n.b = Pick3(r, "add", "mul"), leaf(a, b)
		n.a = &ex[T]{op: "transpose", a: leaf(a, b)}
	}
	// wrapped, so that every operation has to pass the error on
	for i, m := 0, r.N(3); i < m; i++ {
		p := &ex[T]{a: n}
		switch r.N(18) {
		case 0:
			p.op = Pick3(r, "abs", "neg")
		case 1:
			p.op, p.fn = "act", 1
		case 2:
			p.op = Pick3(r, "adds", "subs", "muls", "divs")
		case 3:
			p.op = Pick3(r, "sum", "avg", "max", "min")
		case 4:
			p.op, p.n = Pick3(r, "dsum", "davg", "dmax", "dmin"), []uint{0}
		case 5:
			p.op, p.b, p.n = "concat", n, []uint{0}
		case 6:
			p.op, p.b = "dot", leaf(a, b)
		case 7:
			p.op, p.b, p.a = "dot", n, leaf(a, b)
		case 8:
			p.op = "flatten"
		case 9:
			p.op = "transpose"
		case 10:
			p.op, p.n = "reshape", []uint{2, 2}
		case 11:
			p.op, p.n = "subt", []uint{0, 0, 1}
		case 12:
			p.op, p.n = "subx", []uint{0, 0, 1}
		case 13:
			p.op = "softmax"
		case 14:
			p.op, p.b = Pick3(r, "add", "sub", "mul", "div"), leaf(a)
		case 15:
			p.op, p.b, p.a = Pick3(r, "add", "sub", "mul", "div"), n, leaf(a)
		case 16:
			p.op, p.b, p.a = "copyto", n, leaf(a)
		case 17:
			p.op = "fill"
		}
		n = p
	}
	return n
}

type root[T types.Number] struct {
	e     *ex[T]
	t     tensor.Tensor[T]
	g     *graph.Graph
	known bool
	want  val[T] // the value at its last execution
	calls int64  // user function calls of one execution
	dep   bool   // reads what another graph writes
}

func runC12[T types.Number](r *Run) {
	w := &exWorld[T]{r: r, rng: newRng(r), ctl: &ActCtl{}}
	switch any(*new(T)).(type) {
	case float32, float64:
	default:
		w.isInt = true
	}
	r.Op("%T", *new(T))
	w.cap = 80
	w.nans = !w.isInt && r.N(6) == 5
	shapes := [][]uint{{uint(r.Range(1, 4))}, {uint(r.Range(1, 3)), uint(r.Range(1, 4))}}
	if r.Bool() {
		shapes = append(shapes, []uint{uint(r.Range(1, 3)), uint(r.Range(1, 3)), uint(r.Range(1, 3))})
	}
	shapes = append(shapes, []uint{shapes[1][1], uint(r.Range(1, 3))}, shapes[r.N(len(shapes))], shapes[r.N(len(shapes))])
	if r.N(50) == 49 {
		w.cap = 700
		shapes = append(shapes, []uint{uint(r.Range(20, 300))}, []uint{uint(r.Range(5, 20)), uint(r.Range(5, 20))})
	}
	var ids []int
	for i, n := 0, r.Range(2, 5); i < n; i++ {
		ids = append(ids, w.addLeaf(shapes[r.N(len(shapes))]))
	}
	for i := 0; i < 2; i++ {
		s := w.num()
		w.sc = append(w.sc, &num.Scalar[T]{Value: s})
		w.sv = append(w.sv, s)
	}
	var roots []*root[T]
	var outs []int
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		in, dep := ids, false
		if len(outs) > 0 && r.N(3) > 0 {
			// a later graph may read what an earlier one writes
			in, dep = append(append([]int(nil), outs...), ids[:r.N(len(ids)+1)]...), true
		}
		e := w.genExpr(in, r.Range(1, 7))
		switch r.N(8) {
		case 5, 6:
			l := w.addLeaf(e.sh)
			e = &ex[T]{op: "copyto", a: e, b: &ex[T]{op: "leaf", leaf: l, sh: e.sh}, sh: e.sh}
			if !dep {
				outs = append(outs, l)
			}
		case 7:
			l := w.addLeaf(e.sh)
			e = &ex[T]{op: "fill", a: &ex[T]{op: "leaf", leaf: l, sh: e.sh}, s: 0, sh: e.sh}
		}
		roots = append(roots, &root[T]{e: e, dep: dep})
	}
	build := func(x *root[T]) {
		r.Must("building a graph", func() {
			x.t = w.lib(x.e)
			g, err := graph.NewGraph[T](x.t)
			if err != nil {
				r.Fail("rejected", "the valid expression %v was rejected: %v", x.e, err)
			}
			x.g = g
		})
		r.Op("graph of %v", x.e)
	}
	writes := func(x *root[T]) int { // the leaf an execution writes to
		switch x.e.op {
		case "copyto":
			return x.e.b.leaf
		case "fill":
			return x.e.a.leaf
		}
		return -1
	}
	// the results of expressions that share storage with an input, and
	// nothing else, follow an update at once
	touched := func() {
		for _, x := range roots {
			if x.e.view {
				x.known = false
			}
		}
	}
	executed := func(x *root[T]) {
		w.gen++
		x.want = w.eval(x.e)
		x.known = true
		if l := writes(x); l >= 0 {
			w.lv[l] = x.want
			w.gen++
			touched()
		}
	}
	spoilt := func(x *root[T]) {
		x.known = false
		if l := writes(x); l >= 0 { // may or may not have been written
			v := newVal[T](w.lv[l].sh)
			for i := range v.e {
				v.e[i] = errInf
			}
			w.lv[l] = v
			w.gen++
			touched()
		}
	}
	same := func(got, want T, e float64) bool {
		if math.IsInf(e, 1) || math.IsNaN(e) {
			return true
		}
		if e == isNaN {
			return got != got
		}
		if w.isInt {
			return got == want
		}
		return math.Abs(float64(got)-float64(want)) <= 32*e+1e-300
	}
	cmp := func(t tensor.Tensor[T], want val[T]) string {
		if !eqShape(t.GetShape(), want.sh) {
			return fmt.Sprintf("has shape %v instead of %v", t.GetShape(), want.sh)
		}
		d := t.GetData()
		if len(d) != len(want.v) {
			return fmt.Sprintf("has %d elements instead of %d", len(d), len(want.v))
		}
		for i := range d {
			if !same(d[i], want.v[i], want.e[i]) {
				return fmt.Sprintf("element %d is %v instead of %v (+-%g)", i, d[i], want.v[i], 32*want.e[i])
			}
			r.Note(bits(d[i]))
		}
		// and by index
		if len(d) > 0 {
			i := len(d) - 1
			idx, k := make([]uint, len(want.sh)), uint(i)
			for j := len(idx) - 1; j >= 0; j-- {
				idx[j] = k % want.sh[j]
				k /= want.sh[j]
			}
			x, err := t.Get(idx...)
			if err != nil {
				return "cannot be read by index: " + err.Error()
			}
			if !same(x, want.v[i], want.e[i]) {
				return "access by index is out of step with the data"
			}
		}
		return ""
	}
	check := func(what string) {
		r.Must("reading results", func() {
			for i, x := range roots {
				if !x.known {
					continue
				}
				if df := cmp(x.t, x.want); df != "" {
					r.Fail("value", "after %s the result of expression %d %s: %v", what, i, df, x.e)
				}
			}
			for i := range w.leaves {
				if df := cmp(w.leaves[i], w.lv[i]); df != "" {
					r.Fail("input-changed", "after %s input %d %s", what, i, df)
				}
			}
			for i := range w.sc {
				if w.sc[i].Value != w.sv[i] {
					r.Fail("input-changed", "after %s scalar %d is %v instead of %v", what, i, w.sc[i].Value, w.sv[i])
				}
			}
		})
	}
	exec := func(x *root[T]) {
		n := w.ctl.Calls
		r.Must("Exec", func() { x.g.Exec() })
		x.calls = w.ctl.Calls - n
		executed(x)
	}
	type comp struct {
		g  *graph.Graph
		of []*root[T]
	}
	var comps []comp
	build(roots[0])
	nb := 1
	if r.N(3) > 0 {
		for ; nb < len(roots); nb++ {
			build(roots[nb])
		}
	}
	live := func() []*root[T] { return roots[:nb] }
	steps := r.Range(1, 8)
	if r.Long() {
		steps = r.Many()
	}
	for i, n := 0, steps; i < n; i++ {
		x := live()[r.N(nb)]
		what := ""
		switch r.N(14) {
		case 0, 1, 2:
			exec(x)
			what = "an execution"
		case 3, 4:
			l := r.N(len(w.leaves))
			how := r.N(3)
			v := w.nums(uint(len(w.lv[l].v)))
			nv := newVal[T](w.lv[l].sh)
			copy(nv.v, v)
			k := 0
			if len(v) > 0 {
				k = w.rng.Intn(len(v))
			}
			r.Must("updating an input", func() {
				var err error
				switch how {
				case 0:
					err = w.leaves[l].LoadData(append([]T(nil), v...))
				case 1:
					err = w.leaves[l].LoadFromTensor(tensor.NewFromValues(append([]T(nil), v...), append([]uint(nil), nv.sh...)...))
				case 2:
					idx, m := make([]uint, len(nv.sh)), uint(k)
					for j := len(idx) - 1; j >= 0; j-- {
						idx[j] = m % nv.sh[j]
						m /= nv.sh[j]
					}
					err = w.leaves[l].Set(v[k], idx...)
					copy(nv.v, w.lv[l].v)
					copy(nv.e, w.lv[l].e)
					nv.v[k], nv.e[k] = v[k], 0
				}
				if err != nil {
					r.Fail("update", "updating an input failed: %v", err)
				}
			})
			w.lv[l] = nv.marked()
			w.gen++
			touched()
			for _, y := range live() {
				if writes(y) == l {
					y.known = false
				}
			}
			what = fmt.Sprintf("an update (%d) of input %d", how, l)
		case 5:
			s := r.N(len(w.sc))
			w.sv[s] = w.num()
			w.sc[s].Value = w.sv[s]
			w.gen++
			what = "an update of a scalar"
		case 6, 7:
			if x.calls == 0 {
				exec(x)
			}
			if x.calls == 0 {
				break
			}
			k := int64(1 + r.N(int(x.calls)))
			w.ctl.Arm(k)
			if !r.Try("an interrupted execution", func() { x.g.Exec() }) {
				// fewer calls this time: a complete execution like any other
				w.ctl.Arm(0)
				executed(x)
				r.Hit("interruption_did_not_surface")
				what = "an execution"
				break
			}
			w.ctl.Arm(0)
			r.Fault("panicking_function")
			r.Sim.Tracef("call %d of %d of the user function panics", k, x.calls)
			spoilt(x)
			if r.Bool() {
				exec(x)
			}
			what = "an interrupted execution"
		case 8, 9:
			// all graphs at once, executed by their own callers
			var gaps = []int{2, 10, 50}
			r.Sim.Sched(gaps[:r.Range(1, 3)], 200)
			var ts []*vsim.Task
			for j, y := range live() {
				if y.dep {
					continue
				}
				y := y
				ts = append(ts, r.Sim.Spawn(fmt.Sprintf("caller%d", j), worker, vsim.NewRng(uint64(j)), func() {
					for k, m := 0, 1+j%2; k < m; k++ {
						y.g.Exec()
					}
				}))
			}
			sw := r.Sim.Switches
			r.Sim.Run()
			r.ended()
			for _, t := range ts {
				if t.Panic != nil {
					r.Fail("panic", "Exec panicked: %v\n%s", t.Panic, trim(t.Stack))
				}
			}
			if len(ts) > 1 && r.Sim.Switches-sw > len(ts) {
				r.Fault("preemption")
			}
			for _, y := range live() {
				if !y.dep {
					executed(y)
				}
			}
			what = "interleaved executions"
		case 10:
			if nb < 2 {
				break
			}
			// two compositions that start with the same graph
			m := r.Range(1, 2)
			for j := 0; j < m; j++ {
				c := comp{of: []*root[T]{x}}
				how := r.N(3)
				y := live()[r.N(nb)]
				r.Must("composing graphs", func() {
					switch how {
					case 0:
						c.g = graph.NewFromGraph[T](x.g)
						c.g.AddFromGraph(y.g)
					case 1:
						c.g = graph.NewEmptyGraph[T]()
						c.g.AddFromGraph(x.g)
						c.g.AddFromGraph(y.g)
					case 2:
						c.g = graph.NewFromGraph[T](x.g)
						c.g.PushOperations(append([]operation.Operation(nil), y.g.Operations...)...)
					}
				})
				c.of = append(c.of, y)
				if r.Bool() { // a third, often one that is in it already
					z := x
					if r.Bool() {
						z = live()[r.N(nb)]
					}
					r.Must("AddFromGraph", func() { c.g.AddFromGraph(z.g) })
					c.of = append(c.of, z)
				}
				comps = append(comps, c)
			}
			what = "a composition"
			if r.Bool() {
				c := comps[len(comps)-1]
				r.Must("Exec", func() { c.g.Exec() })
				for _, y := range c.of {
					executed(y)
				}
				what = "the execution of a new composition"
			}
		case 11:
			if len(comps) == 0 {
				break
			}
			c := comps[r.N(len(comps))]
			grow := -1
			if len(comps) > 1 && r.N(3) == 0 {
				grow = r.N(len(comps))
			}
			r.Must("Exec", func() { c.g.Exec() })
			for _, y := range c.of {
				executed(y)
			}
			if grow >= 0 {
				z := live()[r.N(nb)]
				r.Must("AddFromGraph", func() { comps[grow].g.AddFromGraph(z.g) })
				comps[grow].of = append(append([]*root[T](nil), comps[grow].of...), z)
			}
			what = "the execution of a composition"
		case 12:
			b := w.bad()
			parent := r.N(3) == 2
			r.Must("building an expression that does not fit", func() {
				t := w.lib(b)
				for k := 0; k < 2; k++ {
					if parent && k == 1 {
						t = tensor.Abs(t)
					}
					g, err := graph.NewGraph[T](t)
					if err == nil {
						r.Fail("accepted", "build %d of an expression with incompatible operands succeeded: %v", k+1, b)
					}
					if g != nil {
						g.Exec()
					}
				}
			})
			r.Fault("rejected_expression")
			what = fmt.Sprintf("the rejected expression %v", b)
		case 13:
			if nb < len(roots) {
				build(roots[nb])
				nb++
				what = "building another graph"
			}
		}
		r.Op("%s", what)
		check(what)
	}
	for _, x := range live() {
		exec(x)
	}
	check("a last execution of every graph")
}
