package vsim

import "reflect"

// MapW and MapR stand before statements that write or read a map which callers
// may share. Go ends the program when a map is used while another goroutine
// writes it; so does the simulator, which may hand over while a map is in use.
func MapW(f func() any) { mapUse(f, true) }
func MapR(f func() any) { mapUse(f, false) }

func mapUse(f func() any, write bool) {
	s := S
	if s == nil || s.cur == s.Main || s.cur.Killed || s.cur.Proc.Dead {
		return
	}
	p := mapPtr(f)
	if p == 0 {
		return
	}
	if s.maps == nil {
		s.maps = map[uintptr]*Task{}
	}
	t := s.cur
	if w := s.maps[p]; w != nil && w != t && w.st != done && !w.Killed {
		if write {
			panic("fatal error: concurrent map writes")
		}
		panic("fatal error: concurrent map read and map write")
	}
	if write {
		s.maps[p] = t
		defer delete(s.maps, p)
	}
	s.Gosched()
}

func mapPtr(f func() any) (p uintptr) {
	defer func() {
		if recover() != nil {
			p = 0
		}
	}()
	v := reflect.ValueOf(f())
	if v.Kind() != reflect.Map {
		return 0
	}
	return v.Pointer()
}
