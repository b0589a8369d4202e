package props

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"syscall"

	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"

	"verif.local/sim/vsim"
)

func init() {
	register(&Prop{ID: "C05", Quick: 900000, Deep: 13500000,
		Run: func(r *Run) {
			if r.Bool() {
				runC05[float64](r)
			} else {
				runC05[float32](r)
			}
		},
		Rule: "a trainer process with checkpoints on the simulated file system (temporary file and rename, one file per checkpoint, or an append-only log; synced or not), killed up to three times at a drawn statement, half of the time inside a save or load, unsynced data lost from a drawn byte, sometimes a failing write during a checkpoint; non-trivial: the process was killed; distinct: hash of architecture, plan, crash points and what survived",
	})
}

// trainer is the program of the user whose process is killed.
type trainer[T types.Number] struct {
	r     *Run
	spec  *Spec
	d     data[T]
	steps int
	every int
	store int // 0 temporary file and rename, 1 a file per checkpoint, 2 log
	sync  bool
	batch bool // uses Train instead of TrainOne
	alpha T

	y      *Sys[T]
	saves  [][2]int64
	full   int // bytes of a checkpoint with its header
	loaded string
	torn   int
}

var errNone = errors.New("no checkpoint")

func (t *trainer[T]) name(step int) string {
	switch t.store {
	case 0:
		return "ck"
	case 1:
		return fmt.Sprintf("ck-%04d", step)
	}
	return "log"
}

// checkpoint writes one checkpoint; failures of the file system are survived.
func (t *trainer[T]) checkpoint(step int) {
	fs := t.r.Sim.FS
	name := t.name(step)
	file, flag := name, syscall.O_RDWR|syscall.O_CREAT
	switch t.store {
	case 0:
		file += ".tmp"
		flag |= syscall.O_TRUNC
	case 1:
		flag |= syscall.O_TRUNC
	case 2:
		flag |= syscall.O_APPEND
	}
	vsim.Y()
	if t.store == 0 || t.store == 1 {
		fs.Remove(file) // a leftover of an earlier life must not be overwritten in place
	}
	f, err := fs.Open(file, flag)
	if err != nil {
		return
	}
	start := f.Size()
	undo := func() {
		if t.store == 2 {
			f.Truncate(start)
			f.Sync()
			f.Close()
			return
		}
		f.Close()
		fs.Remove(file)
	}
	vsim.Y()
	if _, err := f.Write(binary.LittleEndian.AppendUint64(nil, uint64(step))); err != nil {
		undo()
		return
	}
	vsim.Y()
	begin := t.r.Sim.Now()
	t.y.M.ResetSave()
	err = t.y.M.Save(f)
	t.saves = append(t.saves, [2]int64{begin, t.r.Sim.Now()})
	if err != nil {
		undo()
		return
	}
	if t.full == 0 {
		t.full = int(f.Size() - start)
	}
	vsim.Y()
	if t.sync {
		if f.Sync() != nil {
			undo()
			return
		}
	}
	vsim.Y()
	f.Close()
	if t.store == 0 {
		vsim.Y()
		fs.Rename(file, name)
		vsim.Y()
		if t.sync {
			fs.SyncDir()
		}
	}
}

// restore loads the newest usable checkpoint and returns the step after it.
func (t *trainer[T]) restore() (int, error) {
	fs := t.r.Sim.FS
	names := fs.List()
	begin := t.r.Sim.Now()
	defer func() { t.saves = append(t.saves, [2]int64{begin, t.r.Sim.Now()}) }()
	for i := len(names) - 1; i >= 0; i-- {
		n := names[i]
		if len(n) > 4 && n[len(n)-4:] == ".tmp" {
			continue
		}
		if t.store == 2 {
			return t.restoreLog(n)
		}
		f, err := fs.Open(n, syscall.O_RDONLY)
		if err != nil {
			continue
		}
		step, err := t.one(f, int(f.Size()))
		f.Close()
		if err == nil {
			return step, nil
		}
	}
	return 0, errNone
}

func (t *trainer[T]) one(f io.Reader, left int) (int, error) {
	var h [8]byte
	if _, err := io.ReadFull(f, h[:]); err != nil {
		return 0, err
	}
	vsim.Y()
	t.y.M.ResetLoad()
	err := t.y.M.Load(f)
	if err == nil && left < t.full {
		t.r.Fail("torn-accepted", "a checkpoint torn after %d of %d bytes was loaded without an error", left, t.full)
	}
	if err != nil {
		if left >= t.full {
			t.r.Fail("intact-rejected", "a complete checkpoint was rejected: %v", err)
		}
		t.torn++
		t.r.Hit("torn_checkpoint_recognised")
		return 0, err
	}
	return int(binary.LittleEndian.Uint64(h[:])), nil
}

// restoreLog reads the log to its end. A torn last entry spoils the network,
// so the last good one is loaded again.
func (t *trainer[T]) restoreLog(n string) (int, error) {
	fs := t.r.Sim.FS
	f, err := fs.Open(n, syscall.O_RDWR)
	if err != nil {
		return 0, err
	}
	defer f.Close()
	size := int(f.Size())
	good, pos, step := -1, 0, 0
	for pos < size {
		s, err := t.one(f, size-pos)
		if err != nil {
			break
		}
		good, step = pos, s
		pos += t.full
		if at, _ := f.Seek(0, io.SeekCurrent); int(at) != pos {
			t.r.Fail("consumed", "after loading the checkpoint at %d the log is at %d instead of %d", good, at, pos)
		}
	}
	if good < 0 {
		f.Truncate(0)
		return 0, errNone
	}
	if pos < size {
		// cut the torn entry off and go back to the last good one
		f.Truncate(int64(pos))
		f.Sync()
		f.Seek(int64(good), io.SeekStart)
		if _, err := t.one(f, size-good); err != nil {
			t.r.Fail("intact-rejected", "the last good checkpoint no longer loads: %v", err)
		}
	}
	return step, nil
}

// life is one incarnation of the process.
func (t *trainer[T]) life(first bool) {
	t.y = buildSys[T](t.spec)
	step := 0
	if !first {
		s, err := t.restore()
		if err != nil {
			t.loaded = "nothing"
			panic(errNone)
		}
		step = s
		t.loaded = fmt.Sprintf("step %d", s)
	}
	for step < t.steps {
		i := step % len(t.d.X)
		var err error
		if t.batch {
			err = t.y.M.Train([]tensor.Tensor[T]{t.d.X[i]}, []tensor.Tensor[T]{t.d.Y[i]}, 1, 1, t.alpha, 0)
		} else {
			_, err = t.y.M.TrainOne(t.d.X[i], t.d.Y[i], t.alpha, 0)
		}
		if err != nil {
			t.r.Fail("train-error", "training on a valid sample failed: %v", err)
		}
		step++
		if step%t.every == 0 {
			t.checkpoint(step)
		}
		vsim.Y()
	}
}

func runC05[T types.Number](r *Run) {
	long := r.Long()
	o0 := NetOpts{MaxDepth: 3}
	steps, every := r.Range(2, 8), r.Range(1, 3)
	if long {
		o0 = small
		steps = r.Many()
		every = r.Range(3, steps)
	}
	spec := r.genSpec(o0)
	rng := newRng(r)
	t := &trainer[T]{r: r, spec: spec, steps: steps, every: every, store: r.N(3), sync: r.N(4) > 0, batch: r.N(3) == 2}
	t.alpha = fracT[T](0.125)
	if long {
		t.alpha = fracT[T](0.03125)
	}
	t.d = genData[T](rng, spec.In(), spec.Out(), r.Range(1, 3))
	seed := r.Seed()
	r.Op("%s %T steps %d every %d store %d sync %v batch %v", spec, *new(T), t.steps, t.every, t.store, t.sync, t.batch)
	run := func(name string, rng *vsim.Rng, first bool, crash int64) Out {
		p := &vsim.Proc{Name: name}
		if crash >= 0 {
			r.Sim.CrashAfter(p, crash)
		}
		o := r.Do(p, rng, func() { t.life(first) })
		if o.Panic != nil && o.Panic != error(errNone) {
			r.Fail("panic", "the training process panicked: %v\n%s", o.Panic, trim(o.Stack))
		}
		return o
	}
	// the run that is never interrupted
	o := run("reference", vsim.NewRng(seed), true, -1)
	want := t.y.Snap()
	if !want.finite(width[T]()) {
		// see C06: an infinity in the momentum terms is not checkpointed
		r.Hit("overflow")
		return
	}
	for _, l := range want {
		r.noteAll(l)
	}
	wantP := t.y.predict(r, t.d.X[0])
	saves, base := t.saves, r.Sim.Steps
	_ = base
	r.Sim.FS = vsim.NewFS(r.Sim)
	fs := r.Sim.FS
	if r.N(3) == 2 {
		// the disk is full now and then
		at, k := r.N(40*len(saves)+1), 0
		n := r.Range(1, 3)
		fs.Fault = func(op, name string, want int) (int, error) {
			if op != "write" {
				return want, nil
			}
			k++
			if k > at && k <= at+n {
				r.Nontrivial = true
				return want / 2, syscall.ENOSPC
			}
			return want, nil
		}
	}
	max := o.Steps
	first := true
	fresh := true
	crashes := r.Range(1, 3)
	start := int64(0)
	for life := 0; ; life++ {
		crash := int64(-1)
		if life < crashes {
			crash = int64(r.N(int(max) + 1))
			if len(saves) > 0 && r.Bool() {
				w := saves[r.N(len(saves))]
				crash = w[0] - start + int64(r.N(int(w[1]-w[0])+1))
			}
		}
		t.saves = nil
		src := vsim.NewRng(seed)
		if !first {
			src = vsim.NewRng(seed + 977*uint64(life))
		}
		start = r.Sim.Steps
		o := run(fmt.Sprintf("trainer %d", life), src, first, crash)
		saves = t.saves
		if o.Crashed {
			r.Nontrivial = true
			r.Sim.Tracef("process %d killed before its statement %d", life, crash+1)
			fs.Crash(func(n int) int {
				if n == 0 {
					return 0
				}
				return r.N(n + 1)
			})
			r.Op("life %d from %s killed; files %v", life, t.loaded, fs.List())
			first = false
			fresh = false
			continue
		}
		if o.Panic == error(errNone) {
			// nothing durable yet: the user starts over
			r.Op("life %d finds no checkpoint", life)
			first = true
			fs = vsim.NewFS(r.Sim)
			fs.Fault = r.Sim.FS.Fault
			r.Sim.FS = fs
			continue
		}
		break
	}
	_ = fresh
	r.Op("finished, loaded %s, torn %d", t.loaded, t.torn)
	if df := t.y.Snap().diff(want); df != "" {
		r.Fail("differs", "the interrupted and resumed training ended with other parameters: %s", df)
	}
	if eqBits(t.y.predict(r, t.d.X[0]), wantP) >= 0 {
		r.Fail("differs", "the interrupted and resumed training ended with another prediction")
	}
}
