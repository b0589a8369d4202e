package vsim

// Rng is a small self-contained generator (splitmix64), so that a seed means
// the same run with every toolchain.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: seed} }

func (r *Rng) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) Int63() int64    { return int64(r.Uint64() >> 1) }
func (r *Rng) Seed(seed int64) { r.s = uint64(seed) }

func (r *Rng) Intn(n int) int {
	if n <= 0 {
		panic("vsim: Intn of a non-positive number")
	}
	return int(r.Uint64() % uint64(n))
}

func (r *Rng) Float() float64 { return float64(r.Uint64()>>11) / (1 << 53) }

// State lets a check compare how far two random streams have been used.
func (r *Rng) State() uint64 { return r.s }

// Src is the single source of decisions of a run. Every structural decision
// (architecture, operations, schedule, faults) is one call of N; the results
// form the vector that a replay file stores. 0 is always the simplest choice,
// and a vector that is too short is continued with zeros.
type Src struct {
	rng    *Rng
	replay []uint32
	isRep  bool
	Log    []uint32
	Max    int // abort a run that asks for more choices than this
}

func NewSrc(seed uint64) *Src       { return &Src{rng: NewRng(seed), Max: 200000} }
func NewReplay(v []uint32) *Src     { return &Src{replay: v, isRep: true, Max: 200000} }
func (s *Src) Bool() bool           { return s.N(2) == 1 }
func (s *Src) Range(lo, hi int) int { return lo + s.N(hi-lo+1) }
func (s *Src) P(num, den int) bool  { return s.N(den) >= den-num }
func (s *Src) Seed() uint64         { return uint64(s.N(1 << 30)) }
func Pick[T any](s *Src, v []T) T   { return v[s.N(len(v))] }

// Overrun is the panic value for runs that need too many choices.
type Overrun struct{}

func (s *Src) N(n int) int {
	if n <= 1 {
		return 0
	}
	if len(s.Log) >= s.Max {
		panic(Overrun{})
	}
	var v uint32
	if s.isRep {
		if i := len(s.Log); i < len(s.replay) {
			v = s.replay[i] % uint32(n)
		}
	} else {
		v = uint32(s.rng.Uint64() % uint64(n))
	}
	s.Log = append(s.Log, v)
	return int(v)
}
