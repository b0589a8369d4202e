package props

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/gif"
	"image/jpeg"
	"image/png"
	"io"
	"math"

	"github.com/julioguillermo/godeep/img"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif.local/sim/vsim"
)

func init() {
	register(&Prop{ID: "C13", Quick: 360000, Deep: 5400000,
		Run: func(r *Run) {
			if r.Bool() {
				runC13[float64](r)
			} else {
				runC13[float32](r)
			}
		},
		Rule: "1-4 saves of random images as PNG or JPEG to new and existing files of a simulated disk with a failure of a drawn kind at a drawn create, write (any byte) or close, or a full disk; saved files are decoded and loaded back; non-trivial: a fault fired; distinct: hash of sizes, formats, faults and outcomes",
	})
	register(&Prop{ID: "C14", Quick: 800000, Deep: 12000000,
		Run: func(r *Run) {
			if r.Bool() {
				runC14[float64](r)
			} else {
				runC14[float32](r)
			}
		},
		Rule: "1-4 loads, plain or scaled, of random PNG, JPEG and GIF files that are intact, missing, cut short or damaged at a drawn byte, on a simulated disk whose open or any read may fail, with reads fragmented; non-trivial: a fault fired or the file was not intact; distinct: hash of sizes, formats, faults and outcomes",
	})
}

// diskFault makes one operation fail. kind: the operations that count; at: how
// many of them (or, for bytes, how many bytes) go well first.
type diskFault struct {
	r      *Run
	op     string
	at     int
	bytes  bool
	sticky bool
	err    error
	seen   int
	Fired  int
	opened int // files opened when it fired
}

func (d *diskFault) ask(op, name string, want int) (int, error) {
	if op != d.op && !(d.op == "any") {
		return want, nil
	}
	if d.Fired > 0 {
		if d.sticky && op == d.op {
			d.Fired++
			return 0, d.err
		}
		return want, nil
	}
	if d.bytes {
		if d.seen+want <= d.at {
			d.seen += want
			return want, nil
		}
		d.Fired++
		d.r.Fault("fs_" + op)
		return d.at - d.seen, d.err
	}
	if d.seen == d.at {
		d.Fired++
		d.opened = d.r.Sim.FS.Opened
		d.r.Fault("fs_" + op)
		return 0, d.err
	}
	d.seen++
	return want, nil
}

func (d *diskFault) String() string {
	if d == nil {
		return "healthy"
	}
	u := "operation"
	if d.bytes {
		u = "byte"
	}
	return fmt.Sprintf("%s fails at %s %d with %v (sticky %v)", d.op, u, d.at, d.err, d.sticky)
}

func (r *Run) imgSize() (int, int) {
	w, h := r.Range(1, 6), r.Range(1, 6)
	if r.N(12) == 11 {
		w, h = r.Range(10, 60), r.Range(10, 60)
		switch r.N(150) {
		case 149: // files of several hundred kilobytes
			w, h = r.Range(150, 260), r.Range(150, 260)
		case 148, 147:
			w, h = r.Range(1, 3), r.Range(250, 900)
		case 146, 145:
			w, h = r.Range(250, 900), r.Range(1, 3)
		}
	}
	return w, h
}

// pixels in [0,1], the last channel opaque or not; colours never exceed alpha,
// as in every image that has been loaded.
func genPixels[T types.Number](rng *vsim.Rng, w, h int, opaque bool) []T {
	n := w * h
	v := make([]T, 4*n)
	mode := rng.Intn(3)
	// gray, few colours, all alike, or all alike but for one pixel
	plain := rng.Intn(12)
	var few [4][3]float64
	for i := range few {
		for c := range few[i] {
			few[i][c] = float64(rng.Intn(256)) / 255
		}
	}
	odd := rng.Intn(n)
	for i := 0; i < n; i++ {
		a := 1.0
		if !opaque {
			a = rng.Float()
			if rng.Intn(4) == 0 {
				a = float64(rng.Intn(2))
			}
		}
		for c := 0; c < 3; c++ {
			x := rng.Float()
			switch mode {
			case 1:
				x = float64(rng.Intn(256)) / 255
			case 2:
				x = float64(i%w) / float64(w)
			}
			if rng.Intn(16) == 0 {
				x = float64(rng.Intn(2))
			}
			switch {
			case plain == 0 && c > 0:
				v[c*n+i] = v[i]
				continue
			case plain == 1:
				x = few[(i/3)%4][c]
			case plain == 2, plain == 3 && i != odd:
				x = few[0][c]
			case plain == 4 && i != odd:
				x = few[0][0]
			}
			v[c*n+i] = T(x * a)
		}
		v[3*n+i] = T(a)
	}
	return v
}

func runC13[T types.Number](r *Run) {
	rng := newRng(r)
	fs := r.Sim.FS
	r.Op("%T", *new(T))
	paths := []string{"a.png", "b.jpg", "dir/c.png"}
	for k, m := 0, r.Range(1, 4); k < m; k++ {
		if r.N(14) == 13 {
			r.notAnImage(rng, paths[r.N(len(paths))])
			continue
		}
		w, h := r.imgSize()
		opaque := r.N(3) > 0
		px := genPixels[T](rng, w, h, opaque)
		isPng := r.N(3) > 0
		q := Pick3i(r, 75, 1, 100, 50)
		p := paths[r.N(len(paths))]
		var d *diskFault
		switch r.N(7) {
		case 6:
			d = &diskFault{op: Pick3(r, "rename", "rename", "sync", "remove", "truncate", "open")}
		case 1:
			d = &diskFault{op: "create"}
		case 2:
			d = &diskFault{op: "close"}
		case 3:
			d = &diskFault{op: "write", at: r.N(12)}
		case 4:
			d = &diskFault{op: "write", bytes: true, at: r.N(40 + 3*w*h)}
		case 5:
			d = &diskFault{op: "write", bytes: true, at: r.N(300), sticky: true}
		}
		if d != nil {
			d.r = r
			d.err = ioErrs[r.N(len(ioErrs))].err
			d.sticky = d.sticky || r.Bool()
		}
		t := tensor.Tensor[T](tensor.NewFromValues(append([]T(nil), px...), 4, uint(w), uint(h)))
		save := func(p string) error {
			var err error
			r.Must("saving an image", func() {
				if isPng {
					err = img.PngSave(t, p)
				} else {
					err = img.JpgSave(t, p, q)
				}
			})
			if n := fs.OpenHandles(); n != 0 {
				r.Fail("leak", "saving an image left %d files open", n)
			}
			return err
		}
		if d != nil {
			fs.Fault = d.ask
		}
		err := save(p)
		fs.Fault = nil
		fired := d != nil && d.Fired > 0
		if fired && d.op == "close" && err == nil && fs.Opened == d.opened {
			r.Fail("close", "a failure to close the saved file (%v) was not reported", d.err)
		}
		r.Op("save %dx%d png %v quality %d to %s, disk: %v -> fired %v, error %v", w, h, isPng, q, p, d, fired, err != nil)
		if err != nil && !fired {
			r.Fail("save-error", "saving a valid image to a healthy disk failed: %v", err)
		}
		if eqBits(allBits(t.GetData()), allBits(px)) >= 0 {
			r.Fail("changed", "saving changed the image")
		}
		if err != nil && r.Bool() {
			if err := save(p); err != nil {
				r.Fail("save-error", "saving again after a failure, to a healthy disk, failed: %v", err)
			}
			r.Op("saved again")
			fired = false
		} else if err != nil {
			continue
		}
		// success was reported: the file must be complete
		b, ok := fs.Get(p)
		if !ok {
			r.Fail("no-file", "success was reported but there is no file (a fault fired: %v)", fired)
		}
		if err := save("fresh"); err != nil {
			r.Fail("save-error", "saving a valid image to a healthy disk failed: %v", err)
		}
		f, _ := fs.Get("fresh")
		fs.Remove("fresh")
		if !bytes.Equal(b, f) {
			r.Fail("incomplete", "success was reported but the file (%d bytes) is not the encoded image (%d bytes); a fault fired: %v", len(b), len(f), fired)
		}
		m, _, derr := image.Decode(bytes.NewReader(b))
		if derr != nil {
			r.Fail("undecodable", "success was reported but the file cannot be decoded: %v", derr)
		}
		if s := m.Bounds().Size(); s.X != w || s.Y != h {
			r.Fail("size", "an image of %dx%d was saved as %dx%d", w, h, s.X, s.Y)
		}
		r.Note(uint64(len(b)))
		n := w * h
		tol := 1.001 / 255
		if !opaque {
			tol = 2.002 / 255
		}
		if isPng {
			for i := 0; i < w; i++ {
				for j := 0; j < h; j++ {
					var c [4]uint32
					c[0], c[1], c[2], c[3] = m.At(m.Bounds().Min.X+i, m.Bounds().Min.Y+j).RGBA()
					for k := range c {
						if x := float64(px[k*n+i*h+j]); math.Abs(float64(c[k])/65535-x) > tol {
							r.Fail("pixels", "channel %d of pixel (%d,%d) was %v and is saved as %v", k, i, j, x, float64(c[k])/65535)
						}
					}
				}
			}
			var l tensor.Tensor[T]
			r.Must("loading an image", func() {
				var err error
				if l, err = img.LoadImage[T](p); err != nil {
					r.Fail("load-error", "a saved image cannot be loaded: %v", err)
				}
			})
			if sh := l.GetShape(); !eqShape(sh, []uint{4, uint(w), uint(h)}) {
				r.Fail("size", "an image of shape [4 %d %d] is loaded back with shape %v", w, h, sh)
			}
			for i, x := range l.GetData() {
				if math.Abs(float64(x)-float64(px[i])) > tol {
					r.Fail("pixels", "value %d of the image was %v and is loaded back as %v", i, px[i], x)
				}
			}
			if n := fs.OpenHandles(); n != 0 {
				r.Fail("leak", "loading an image left %d files open", n)
			}
		} else {
			// the same image encoded independently
			ref := image.NewRGBA(image.Rect(0, 0, w, h))
			for i := 0; i < w; i++ {
				for j := 0; j < h; j++ {
					at := func(k int) uint8 { return uint8(px[k*n+i*h+j] * 255) }
					ref.SetRGBA(i, j, color.RGBA{at(0), at(1), at(2), at(3)})
				}
			}
			var rb bytes.Buffer
			jpeg.Encode(&rb, ref, &jpeg.Options{Quality: q})
			rm, err := jpeg.Decode(&rb)
			if err != nil {
				r.Fail("reference", "the reference does not decode: %v", err)
			}
			var sum float64
			for i := 0; i < w; i++ {
				for j := 0; j < h; j++ {
					a, b, c, _ := m.At(i, j).RGBA()
					x, y, z, _ := rm.At(i, j).RGBA()
					sum += math.Abs(float64(a)-float64(x)) + math.Abs(float64(b)-float64(y)) + math.Abs(float64(c)-float64(z))
				}
			}
			if avg := sum / float64(3*n) / 65535; avg > 4.0/255 {
				r.Fail("pixels", "the saved JPEG differs by %.3f on average from the image encoded independently", avg)
			}
		}
	}
}

// notAnImage saves a tensor that is not an image with four channels. It may be
// rejected; if it is not, there must be a file with an image of that size.
func (r *Run) notAnImage(rng *vsim.Rng, p string) {
	fs := r.Sim.FS
	sh := [][]uint{{3}, {2, 3}, {1, 2, 3}, {3, 2, 2}, {4, 2, 2, 1}}[r.N(5)]
	t := sample[float64](rng, sh)
	fs.Remove(p)
	isPng := r.Bool()
	var err error
	r.Must("saving a tensor that is not an image", func() {
		if isPng {
			err = img.PngSave(t, p)
		} else {
			err = img.JpgSave(t, p, 80)
		}
	})
	r.Op("saving a tensor of shape %v -> error %v", sh, err != nil)
	if n := fs.OpenHandles(); n != 0 {
		r.Fail("leak", "saving a tensor of shape %v left %d files open", sh, n)
	}
	if err != nil {
		return
	}
	b, _ := fs.Get(p)
	c, _, err := image.DecodeConfig(bytes.NewReader(b))
	if err != nil {
		r.Fail("undecodable", "success was reported for a tensor of shape %v but the file cannot be decoded: %v", sh, err)
	}
	if len(sh) == 3 && (c.Width != int(sh[1]) || c.Height != int(sh[2])) {
		r.Fail("size", "a tensor of shape %v was saved as %dx%d", sh, c.Width, c.Height)
	}
}

func Pick3i(r *Run, s ...int) int { return s[r.N(len(s))] }

// encoded draws an image file.
func (r *Run) encoded(rng *vsim.Rng) (string, []byte) {
	w, h := r.imgSize()
	rect := image.Rect(0, 0, w, h)
	var m image.Image
	kind := r.N(4)
	fill := func(b []uint8) {
		for i := range b {
			b[i] = uint8(rng.Uint64())
		}
	}
	switch kind {
	case 0:
		i := image.NewNRGBA(rect)
		fill(i.Pix)
		m = i
	case 1:
		i := image.NewGray(rect)
		fill(i.Pix)
		m = i
	case 2:
		i := image.NewNRGBA64(rect)
		fill(i.Pix)
		m = i
	case 3:
		pal := make(color.Palette, 0, 16)
		for k := 0; k < 16; k++ {
			v := rng.Uint64()
			pal = append(pal, color.RGBA{uint8(v), uint8(v >> 8), uint8(v >> 16), 255})
		}
		i := image.NewPaletted(rect, pal)
		for k := range i.Pix {
			i.Pix[k] = uint8(rng.Intn(16))
		}
		m = i
	}
	var b bytes.Buffer
	f := Pick3(r, "png", "png", "jpeg", "gif")
	switch f {
	case "png":
		lv := []png.CompressionLevel{png.DefaultCompression, png.NoCompression, png.BestSpeed}
		(&png.Encoder{CompressionLevel: lv[r.N(3)]}).Encode(&b, m)
	case "jpeg":
		jpeg.Encode(&b, m, &jpeg.Options{Quality: 80})
	case "gif":
		gif.Encode(&b, m, nil)
	}
	return fmt.Sprintf("%s kind %d %dx%d", f, kind, w, h), b.Bytes()
}

func runC14[T types.Number](r *Run) {
	rng := newRng(r)
	fs := r.Sim.FS
	r.Op("%T", *new(T))
	for k, m := 0, r.Range(1, 4); k < m; k++ {
		name, full := r.encoded(rng)
		b := full
		state := "intact"
		missing := false
		switch r.N(6) {
		case 2:
			b = full[:r.N(len(full))]
			state = fmt.Sprintf("cut at byte %d of %d", len(b), len(full))
			r.Fault("truncated_file")
		case 3:
			b = append([]byte(nil), full...)
			at := r.N(len(b))
			b[at] ^= 1 << r.N(8)
			state = fmt.Sprintf("bit flipped in byte %d of %d", at, len(full))
			r.Fault("damaged_file")
		case 4:
			if r.N(4) == 0 {
				missing = true
				state = "missing"
				r.Fault("missing_file")
			}
		case 5:
			if r.N(3) == 0 {
				// the last block was never written
				b = append([]byte(nil), full...)
				at := r.N(len(b))
				for i := at; i < len(b) && i < at+512; i++ {
					b[i] = 0
				}
				state = fmt.Sprintf("zeroes from byte %d of %d", at, len(full))
				r.Fault("damaged_file")
			}
		}
		p := Pick3(r, "x.png", "dir/y.jpg", "z")
		if missing {
			fs.Remove(p)
		} else {
			fs.Put(p, b)
		}
		var d *diskFault
		if r.N(3) == 0 {
			switch r.N(4) {
			case 0:
				d = &diskFault{op: "open"}
			case 1:
				d = &diskFault{op: "read", at: r.N(4)}
			case 2:
				d = &diskFault{op: "read", bytes: true, at: r.N(len(full) + 1)}
			case 3:
				d = &diskFault{op: "close"}
			}
			d.r, d.err = r, ioErrs[r.N(len(ioErrs))].err
			if d.err == io.EOF || d.err == io.ErrUnexpectedEOF || d.err == io.ErrShortWrite {
				d.err = ioErrs[1].err // a failing read, not an end
			}
			d.sticky = r.Bool()
		}
		frag := r.N(4)
		switch frag {
		case 1:
			fs.Frag = func(int) int { return 1 }
		case 2:
			fs.Frag = func(int) int { return 1 + rng.Intn(9) }
		case 3:
			fs.Frag = func(int) int { return 1 + rng.Intn(700) }
		}
		mode := Pick3(r, "plain", "simple", "smooth")
		// what a complete read of these bytes gives
		var ref image.Image
		refErr := error(io.ErrUnexpectedEOF)
		if !missing {
			ref, _, refErr = image.Decode(bytes.NewReader(b))
		}
		var sz image.Point
		if refErr == nil {
			sz = ref.Bounds().Size()
			if sz.X*sz.Y > 70000 || ref.Bounds().Min != (image.Point{}) {
				fs.Frag = nil
				continue // damage made it huge
			}
		} else if c, _, err := image.DecodeConfig(bytes.NewReader(b)); err == nil && c.Width*c.Height > 70000 {
			fs.Frag = nil
			continue
		}
		w, h := uint(r.Range(1, 6)), uint(r.Range(1, 6))
		if r.N(3) == 0 && refErr == nil {
			w, h = uint(sz.X), uint(sz.Y)
		}
		var t tensor.Tensor[T]
		var err error
		if d != nil {
			fs.Fault = d.ask
		}
		r.Must("loading an image", func() {
			switch mode {
			case "plain":
				t, err = img.LoadImage[T](p)
			case "simple":
				t, err = img.LoadSimpleScaled[T](p, w, h)
			case "smooth":
				t, err = img.LoadSmoothScaled[T](p, w, h)
			}
		})
		fs.Fault, fs.Frag = nil, nil
		fired := d != nil && d.Fired > 0
		if frag > 0 {
			r.Hit("fault.fragmented_reads")
		}
		r.Op("%s load of %s (%s), %dx%d, disk: %v -> fired %v, error %v", mode, name, state, w, h, d, fired, err != nil)
		if n := fs.OpenHandles(); n != 0 {
			r.Fail("leak", "loading an image left %d files open", n)
		}
		if err != nil {
			if t != nil {
				r.Fail("tensor-and-error", "a failed load returned a tensor")
			}
			if !fired && state == "intact" {
				r.Fail("load-error", "an intact file on a healthy disk was not loaded: %v", err)
			}
			continue
		}
		if t == nil {
			r.Fail("no-tensor", "a load succeeded without a tensor")
		}
		if refErr != nil {
			r.Fail("accepted", "a file that is %s was loaded; decoding it gives: %v", state, refErr)
		}
		if fired && d.op == "open" {
			r.Fail("accepted", "a file that could not be opened was loaded")
		}
		if fired && d.op == "read" {
			// what was read before the failure must have been enough
			got := d.seen
			if d.bytes {
				got = d.at
			}
			if d.bytes && d.sticky && got < len(b) {
				if _, _, e := image.Decode(bytes.NewReader(b[:got])); e != nil {
					r.Fail("accepted", "a file whose reading fails at byte %d of %d was loaded", got, len(b))
				}
			}
		}
		px := func(x, y, c int) float64 {
			var v [4]uint32
			v[0], v[1], v[2], v[3] = ref.At(x, y).RGBA()
			return float64(v[c]) / 65535
		}
		W, H := sz.X, sz.Y
		if mode != "plain" {
			W, H = int(w), int(h)
		}
		if !eqShape(t.GetShape(), []uint{4, uint(W), uint(H)}) {
			r.Fail("size", "loading gave shape %v instead of [4 %d %d]", t.GetShape(), W, H)
		}
		data := t.GetData()
		sx, sy := float64(sz.X)/float64(W), float64(sz.Y)/float64(H)
		for c := 0; c < 4; c++ {
			for i := 0; i < W; i++ {
				for j := 0; j < H; j++ {
					got := float64(data[(c*W+i)*H+j])
					x, y := int(float64(i)*sx), int(float64(j)*sy)
					ok := false
					switch mode {
					case "plain":
						ok = math.Abs(got-px(i, j, c)) < 1e-6
					case "simple":
						// the nearest pixel; an exact boundary may go either way
						for _, a := range []int{x, i * sz.X / W} {
							for _, b := range []int{y, j * sz.Y / H} {
								ok = ok || math.Abs(got-px(a, b, c)) < 1e-6
							}
						}
					case "smooth":
						dx, dy := float64(i)*sx-float64(x), float64(j)*sy-float64(y)
						if (x+1 >= sz.X && dx > 0) || (y+1 >= sz.Y && dy > 0) {
							ok = true // how the edge is treated is not part of this property
							break
						}
						e := (1-dx)*(1-dy)*px(x, y, c) + dx*(1-dy)*px(x+1, y, c) + (1-dx)*dy*px(x, y+1, c) + dx*dy*px(x+1, y+1, c)
						ok = math.Abs(got-e) < 1e-4
					}
					if !ok {
						r.Fail("pixels", "%s load of %s (%s): channel %d of pixel (%d,%d) is %v", mode, name, state, c, i, j, got)
					}
				}
			}
		}
		for _, v := range data {
			r.Note(bits(v))
		}
	}
}
