// Package simsync stands in for sync in the code under test: waiting hands
// over to the simulator, which decides who runs next.
package simsync

import "verif.local/sim/vsim"

type Locker interface {
	Lock()
	Unlock()
}

func wait(cond func() bool) {
	if vsim.S == nil {
		if !cond() {
			panic("simsync: would block outside a simulation")
		}
		return
	}
	vsim.S.Block(cond)
}

func point() {
	if vsim.S != nil {
		vsim.Y()
	}
}

// A package-level lock starts afresh in every simulated process.
type Mutex struct {
	locked bool
	epoch  int64
}

func (m *Mutex) fresh() {
	if m.epoch != vsim.Epoch {
		*m = Mutex{epoch: vsim.Epoch}
	}
}

func (m *Mutex) Lock() {
	point()
	m.fresh()
	wait(func() bool { return !m.locked })
	m.locked = true
}
func (m *Mutex) TryLock() bool {
	point()
	m.fresh()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	point()
}

type RWMutex struct {
	w     bool
	r     int
	epoch int64
}

func (m *RWMutex) fresh() {
	if m.epoch != vsim.Epoch {
		*m = RWMutex{epoch: vsim.Epoch}
	}
}

func (m *RWMutex) Lock() {
	point()
	m.fresh()
	wait(func() bool { return !m.w && m.r == 0 })
	m.w = true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	point()
}
func (m *RWMutex) RLock() {
	point()
	m.fresh()
	wait(func() bool { return !m.w })
	m.r++
}
func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	point()
}
func (m *RWMutex) TryLock() bool {
	m.fresh()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	m.fresh()
	if m.w {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	n     int
	epoch int64
}

func (w *WaitGroup) Add(d int) {
	if w.epoch != vsim.Epoch {
		*w = WaitGroup{epoch: vsim.Epoch}
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1); point() }
func (w *WaitGroup) Wait() {
	point()
	wait(func() bool { return w.n == 0 })
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsim.Go(func() {
		defer w.Done()
		f()
	})
}

// Once starts afresh in every simulation, which stands for a fresh process.
type Once struct {
	m     Mutex
	done  bool
	epoch int64
}

func (o *Once) Do(f func()) {
	point()
	if o.epoch != vsim.Epoch {
		*o = Once{epoch: vsim.Epoch}
	}
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

type Cond struct {
	L Locker
	q []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	w := new(bool)
	c.q = append(c.q, w)
	c.L.Unlock()
	wait(func() bool { return *w })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}
func (c *Cond) Broadcast() {
	for _, w := range c.q {
		*w = true
	}
	c.q = nil
}

// Pool keeps everything and gives it back last in, first out, in every run
// alike; it starts empty in every simulation.
type Pool struct {
	New   func() any
	v     []any
	epoch int64
}

func (p *Pool) Get() any {
	point()
	if p.epoch != vsim.Epoch {
		p.v, p.epoch = nil, vsim.Epoch
	}
	if n := len(p.v); n > 0 {
		x := p.v[n-1]
		p.v = p.v[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	point()
	if x == nil {
		return
	}
	if p.epoch != vsim.Epoch {
		p.v, p.epoch = nil, vsim.Epoch
	}
	p.v = append(p.v, x)
}
