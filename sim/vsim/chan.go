package vsim

import "reflect"

// Channels of the code under test. Operations on them become calls of the
// functions below, so that waiting hands over to the simulator. Buffered
// values stay in the real channel; an unbuffered send waits in the state kept
// here until a receiver has taken its value.

type offer struct {
	v     any
	taken bool
}

type chanState struct {
	closed  bool
	offers  []*offer
	waiting int // receivers waiting, selects included
}

func (s *Sim) state(c any) (*chanState, bool) {
	v := reflect.ValueOf(c)
	if v.IsNil() {
		return nil, false
	}
	k := v.Pointer()
	st := s.chans[k]
	if st == nil {
		st = &chanState{}
		if s.chans == nil {
			s.chans = map[uintptr]*chanState{}
		}
		s.chans[k] = st
		s.keep = append(s.keep, c) // the address must not be reused
	}
	return st, true
}

func forever() { S.Block(func() bool { return false }) }

// Send is "c <- v".
func Send[E any](c chan<- E) func(E) {
	return func(v E) {
		if S == nil {
			c <- v
			return
		}
		Y()
		st, ok := S.state(c)
		if !ok {
			forever()
			return
		}
		if cap(c) > 0 {
			S.Block(func() bool { return st.closed || len(c) < cap(c) })
			c <- v // panics when closed, as it must
			return
		}
		if st.closed {
			c <- v
		}
		o := &offer{v: v}
		st.offers = append(st.offers, o)
		S.Block(func() bool { return o.taken || st.closed })
		if !o.taken {
			c <- v
		}
	}
}

// Recv2 is "v, ok := <-c".
func Recv2[E any](c <-chan E) (v E, ok bool) {
	if S == nil {
		v, ok = <-c
		return
	}
	Y()
	st, good := S.state(c)
	if !good {
		forever()
		return
	}
	st.waiting++
	S.Block(func() bool { return len(c) > 0 || len(st.offers) > 0 || st.closed })
	st.waiting--
	if len(c) > 0 {
		v, ok = <-c
		return
	}
	if len(st.offers) > 0 {
		o := st.offers[0]
		st.offers = st.offers[1:]
		o.taken = true
		v, _ = o.v.(E)
		return v, true
	}
	return v, false
}

// Recv is "<-c".
func Recv[E any](c <-chan E) E {
	v, _ := Recv2(c)
	return v
}

// Close is "close(c)".
func Close[E any](c chan<- E) {
	close(c)
	if S != nil {
		if st, ok := S.state(c); ok {
			st.closed = true
		}
		Y()
	}
}

// Case is one communication of a select statement.
type Case struct {
	ready func() bool
	st    *chanState
	recv  bool
}

func R[E any](c <-chan E) Case {
	if S == nil {
		panic("vsim: select outside a simulation")
	}
	st, ok := S.state(c)
	if !ok {
		return Case{ready: func() bool { return false }}
	}
	return Case{st: st, recv: true, ready: func() bool { return len(c) > 0 || len(st.offers) > 0 || st.closed }}
}

func W[E any](c chan<- E) Case {
	if S == nil {
		panic("vsim: select outside a simulation")
	}
	st, ok := S.state(c)
	if !ok {
		return Case{ready: func() bool { return false }}
	}
	return Case{st: st, ready: func() bool {
		if st.closed {
			return true
		}
		if cap(c) > 0 {
			return len(c) < cap(c)
		}
		return st.waiting > len(st.offers)
	}}
}

// Select waits until a case is ready and returns its number, -1 for default.
func Select(def bool, cs ...Case) int {
	Y()
	var ready []int
	cond := func() bool {
		ready = ready[:0]
		for i, c := range cs {
			if c.ready() {
				ready = append(ready, i)
			}
		}
		return len(ready) > 0
	}
	if !cond() {
		if def {
			return -1
		}
		for _, c := range cs {
			if c.recv {
				c.st.waiting++
			}
		}
		S.Block(cond)
		for _, c := range cs {
			if c.recv {
				c.st.waiting--
			}
		}
		cond()
	}
	return ready[S.Src.N(len(ready))]
}
