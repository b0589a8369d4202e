package props

import (
	"encoding/binary"
	"math"

	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif.local/sim/vsim"
)

func init() {
	register(&Prop{ID: "C04", Quick: 3000000, Deep: 45000000,
		Run: func(r *Run) {
			switch r.N(5) {
			case 0:
				runC04[float64](r)
			case 1:
				runC04[float32](r)
			case 2:
				runC04[int16](r)
			case 3:
				runC04[int32](r)
			case 4:
				runC04[int64](r)
			}
		},
		Rule: "tensor of a drawn number type, shape and contents (also results of graphs), 1-4 saves and loads with or without shape over healthy, fragmented, failing and truncated streams and streams with damaged headers; non-trivial: a fault fired, a header was damaged or a read was fragmented; distinct: hash of shapes, faults and outcomes",
	})
}

func (r *Run) genShape() []uint {
	n := r.Range(1, 4)
	if r.N(20) == 19 {
		n = 0
	}
	sh := make([]uint, n)
	for i := range sh {
		sh[i] = uint(r.Range(1, 4))
		if r.N(40) == 39 {
			sh[i] = 0
		}
	}
	if n > 0 && size(sh) > 0 && r.N(60) == 59 {
		sh[0] = uint(r.Range(5, 60))
		switch r.N(100) {
		case 99:
			sh = [][]uint{{70000}, {1, 66000}, {300, 230}, {33000, 2, 1}}[r.N(4)]
		case 98, 97, 96, 95, 94, 93:
			sh = [][]uint{{260}, {1, 300}, {20, 200}, {1030, 2}}[r.N(4)]
		case 92, 91, 90, 89, 88, 87:
			// many dimensions
			for k := r.Range(1, 14); k > 0; k-- {
				sh = append(sh, 1)
			}
			sh[len(sh)-1] = 2
		}
	}
	return sh
}

func rawT[T types.Number](rng *vsim.Rng) T {
	if rng.Intn(3) == 0 {
		return special[T](rng)
	}
	return T(rng.Float()*2000 - 1000)
}

// genTensor makes a tensor, plain or the result of a graph. It returns what it
// must contain.
func genTensor[T types.Number](r *Run, rng *vsim.Rng, sh []uint) (t tensor.Tensor[T], shape []uint, data []T) {
	v := make([]T, size(sh))
	for i := range v {
		v[i] = rawT[T](rng)
	}
	kind := r.N(5)
	r.Must("making a tensor", func() {
		m := tensor.NewFromValues[T](append([]T(nil), v...), append([]uint(nil), sh...)...)
		t, shape, data = m, sh, v
		switch {
		case kind == 3 && len(sh) == 2 && size(sh) > 0:
			t = tensor.Transpose[T](m)
			shape = []uint{sh[1], sh[0]}
			data = make([]T, len(v))
			for i := uint(0); i < sh[0]; i++ {
				for j := uint(0); j < sh[1]; j++ {
					data[j*sh[0]+i] = v[i*sh[1]+j]
				}
			}
		case kind == 4 && size(sh) > 0:
			t = tensor.Activate[T](m, func(x T) T { return x })
		default:
			return
		}
		g, err := graph.NewGraph[T](t)
		if err != nil {
			r.Fail("graph", "building a graph failed: %v", err)
		}
		g.Exec()
	})
	return
}

// isTensor says how t differs from a tensor of that shape and contents.
func isTensor[T types.Number](r *Run, t tensor.Tensor[T], sh []uint, v []T) string {
	diff := ""
	r.Must("reading a tensor", func() {
		got := t.GetShape()
		if len(got) != len(sh) {
			diff = "other number of dimensions"
			return
		}
		for i := range sh {
			if got[i] != sh[i] {
				diff = "other shape"
				return
			}
		}
		if int(t.GetSize()) != len(v) {
			diff = "size out of step with the shape"
			return
		}
		if eqBits(allBits(t.GetData()), allBits(v)) >= 0 {
			diff = "other values"
			return
		}
		if len(sh) > 0 && len(v) > 0 {
			// access by index agrees with the shape
			for n := 0; n < 3; n++ {
				i := (n * (len(v) - 1) / 2)
				idx, k := make([]uint, len(sh)), uint(i)
				for d := len(sh) - 1; d >= 0; d-- {
					idx[d] = k % sh[d]
					k /= sh[d]
				}
				x, err := t.Get(idx...)
				if err != nil {
					diff = "an index inside the shape is rejected: " + err.Error()
					return
				}
				if bits(x) != bits(v[i]) {
					diff = "access by index is out of step with the shape"
					return
				}
			}
		}
	})
	return diff
}

func width[T types.Number]() int {
	switch any(*new(T)).(type) {
	case int16:
		return 2
	case int32, float32:
		return 4
	}
	return 8
}

func decodeT[T types.Number](b []byte) T {
	var z T
	switch p := any(&z).(type) {
	case *int16:
		*p = int16(binary.LittleEndian.Uint16(b))
	case *int32:
		*p = int32(binary.LittleEndian.Uint32(b))
	case *float32:
		*p = math.Float32frombits(binary.LittleEndian.Uint32(b))
	case *int64:
		*p = int64(binary.LittleEndian.Uint64(b))
	case *float64:
		*p = math.Float64frombits(binary.LittleEndian.Uint64(b))
	}
	return z
}

func runC04[T types.Number](r *Run) {
	rng := newRng(r)
	r.Op("%T", *new(T))
	var stream []byte
	type saved struct {
		start, end int
		full       bool
		sh         []uint
		v          []T
	}
	var all []saved
	call := func(what string, fn func() error) error {
		var err error
		r.Must(what, func() { err = fn() })
		return err
	}
	for i, n := 0, r.Range(1, 4); i < n; i++ {
		sh := r.genShape()
		t, sh, v := genTensor[T](r, rng, sh)
		full := r.N(3) > 0
		save := t.Save
		if full {
			save = t.SaveFull
		}
		w := healthy(r)
		if err := call("Save", func() error { return w.with(save) }); err != nil {
			r.Fail("save-error", "saving a tensor of shape %v to a healthy writer failed: %v", sh, err)
		}
		if df := isTensor(r, t, sh, v); df != "" {
			r.Fail("save-changes", "saving changed the tensor: %s", df)
		}
		s := saved{len(stream), len(stream) + len(w.Got), full, sh, v}
		r.Op("save shape %v full %v: %d bytes", sh, full, len(w.Got))
		total := len(w.Got)
		// the receiver
		var rt tensor.Tensor[T]
		var rsh []uint
		var rv []T
		recv := func() {
			if full {
				rt, rsh, rv = genTensor[T](r, rng, r.genShape())
			} else {
				k := []uint{uint(len(v))}
				if r.Bool() {
					k = sh
				}
				rt, rsh, rv = genTensor[T](r, rng, k)
			}
		}
		load := func(rd *simReader) error {
			return call("Load", func() error {
				if full {
					return rd.with(rt.LoadFull)
				}
				return rd.with(rt.Load)
			})
		}
		// good says how the receiver differs from the saved tensor
		good := func() string {
			if full {
				return isTensor(r, rt, sh, v)
			}
			return isTensor(r, rt, rsh, v)
		}
		keep := func(what string) {
			if full {
				if df := isTensor(r, rt, rsh, rv); df != "" {
					r.Fail("failed-load-changes", "%s changed the receiver: %s", what, df)
				}
			} else {
				var got []uint
				r.Must("GetShape", func() { got = rt.GetShape() })
				if len(got) != len(rsh) {
					r.Fail("failed-load-changes", "%s changed the shape of the receiver", what)
				}
			}
		}
		for k, m := 0, r.N(3); k < m; k++ {
			switch r.N(4) {
			case 0: // write fault
				if total == 0 {
					continue
				}
				fw := &simWriter{r: r, FailAt: r.N(total), Transient: r.Bool(), Partial: r.Bool(), Dress: r.N(5)}
				e := ioErrs[r.N(len(ioErrs))]
				fw.Err = e.err
				err := call("Save", func() error { return fw.with(save) })
				r.Op("save failing at %d/%d with %s: %v", fw.FailAt, total, e.name, err != nil)
				r.Sim.Tracef("write fails at byte %d with %s", fw.FailAt, e.name)
				if df := isTensor(r, t, sh, v); df != "" {
					r.Fail("save-changes", "a failing save changed the tensor: %s", df)
				}
				if err == nil {
					recv()
					rd := r.reader(fw.Got)
					if err := load(rd); err != nil {
						r.Fail("false-success", "a save reported success but what was accepted does not load: %v", err)
					}
					if df := good(); df != "" {
						r.Fail("false-success", "a save reported success but what was accepted loads as a tensor with %s", df)
					}
				}
			case 1: // truncated
				if total == 0 {
					continue
				}
				at := r.N(total)
				recv()
				rd := r.reader(w.Got[:at])
				err := load(rd)
				r.Fault("truncation")
				r.Op("load of %d of %d bytes: %v", at, total, err != nil)
				if err == nil {
					r.Fail("false-success", "a load of %d of %d bytes reported success", at, total)
				}
				keep("a load of a truncated source")
			case 2: // read fault
				if total == 0 {
					continue
				}
				recv()
				rd := r.reader(w.Got)
				e := ioErrs[r.N(len(ioErrs))]
				rd.FailAt, rd.Err, rd.Sticky = r.N(total), e.err, r.Bool()
				err := load(rd)
				r.Op("load failing at %d of %d with %s sticky %v: %v", rd.FailAt, total, e.name, rd.Sticky, err != nil)
				if err == nil {
					if rd.Sticky {
						r.Fail("false-success", "a load whose source failed at byte %d of %d reported success", rd.FailAt, total)
					}
					if df := good(); df != "" {
						r.Fail("false-success", "a load reported success with %s", df)
					}
				} else {
					keep("a load from a failing source")
				}
			case 3: // damaged header
				if !full {
					continue
				}
				recv()
				bad := append([]byte(nil), w.Got...)
				hl := 8 * (1 + len(sh))
				field := r.N(1 + len(sh))
				val := []uint64{0, 1, 2, 3, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 40, 1 << 62, 1 << 63, math.MaxUint64, math.MaxUint64 - 1, 1<<63 + 1, 1<<61 + 1, 5}[r.N(16)]
				if r.Bool() {
					binary.LittleEndian.PutUint64(bad[8*field:], val)
				} else {
					at := r.N(hl)
					bad[at] ^= 1 << r.N(8)
				}
				if len(sh) >= 2 && r.N(4) == 3 {
					// two fields whose product wraps around
					binary.LittleEndian.PutUint64(bad[8:], 1<<32)
					binary.LittleEndian.PutUint64(bad[16:], 1<<32)
				}
				r.Fault("header")
				rd := r.reader(bad)
				err := load(rd)
				r.Op("load with damaged header %x: %v", bad[:hl], err != nil)
				r.Sim.Tracef("the header of the saved tensor reads %x", bad[:hl])
				if err != nil {
					keep("a load with a damaged header")
					continue
				}
				// what the bytes say
				ok := len(bad) >= 8
				var bsh []uint
				pos := 8
				if ok {
					d := binary.LittleEndian.Uint64(bad)
					for j := uint64(0); j < d && ok; j++ {
						if pos+8 > len(bad) {
							ok = false
							break
						}
						bsh = append(bsh, uint(binary.LittleEndian.Uint64(bad[pos:])))
						pos += 8
					}
				}
				cnt, zero := uint64(1), false
				for _, s := range bsh {
					zero = zero || s == 0
				}
				for _, s := range bsh {
					if zero {
						cnt = 0
						break
					}
					if uint64(s) > uint64(len(bad)) || cnt*uint64(s) > uint64(len(bad)) {
						ok = false
						break
					}
					cnt *= uint64(s)
				}
				if !ok || pos+int(cnt)*width[T]() > len(bad) {
					r.Fail("false-success", "a load whose header promises more than the source holds reported success")
				}
				bv := make([]T, cnt)
				for j := range bv {
					bv[j] = decodeT[T](bad[pos+j*width[T]():])
				}
				if df := isTensor(r, rt, bsh, bv); df != "" {
					r.Fail("header", "a load with a damaged header reported success with %s", df)
				}
			}
		}
		if r.N(4) > 0 {
			recv()
			rd := r.reader(append(append([]byte(nil), w.Got...), 1, 2, 3, 4, 5, 6, 7, 8, 9))
			if r.Bool() {
				rd = r.reader(w.Got)
			}
			if err := load(rd); err != nil {
				r.Fail("load-error", "loading an intact tensor of shape %v failed: %v", sh, err)
			}
			if df := good(); df != "" {
				r.Fail("roundtrip", "a saved tensor of shape %v loads with %s", sh, df)
			}
			if rd.Pos != total {
				r.Fail("consumed", "%d bytes were saved but the load took %d", total, rd.Pos)
			}
			if full && r.Bool() {
				// the loaded tensor is a proper tensor: it saves and loads again
				w2 := healthy(r)
				if err := call("Save", func() error { return w2.with(rt.SaveFull) }); err != nil {
					r.Fail("save-error", "saving a loaded tensor failed: %v", err)
				}
				rd := r.reader(w2.Got)
				recv()
				if err := load(rd); err != nil {
					r.Fail("load-error", "loading an intact tensor of shape %v failed: %v", sh, err)
				}
				if df := good(); df != "" {
					r.Fail("roundtrip", "a tensor saved after loading loads with %s", df)
				}
			}
		}
		stream = append(stream, w.Got...)
		all = append(all, s)
	}
	// everything again from one stream
	rd := r.reader(stream)
	for _, s := range all {
		sh := []uint{2, 2}
		if !s.full {
			sh = []uint{uint(len(s.v))}
		}
		rt, rsh, _ := genTensor[T](r, rng, sh)
		err := call("Load", func() error {
			if s.full {
				return rd.with(rt.LoadFull)
			}
			return rd.with(rt.Load)
		})
		if err != nil {
			r.Fail("load-error", "a tensor in a stream of several does not load: %v", err)
		}
		if rd.Pos != s.end {
			r.Fail("consumed", "the load stopped at byte %d instead of %d", rd.Pos, s.end)
		}
		want := s.sh
		if !s.full {
			want = rsh
		}
		if df := isTensor(r, rt, want, s.v); df != "" {
			r.Fail("roundtrip", "a tensor in a stream of several loads with %s", df)
		}
	}
}
