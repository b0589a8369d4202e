package vsim

import "reflect"

// roots are the package-level variables of the code under test.
var roots []any

// Root is called by what the build overlay adds to packages with package-level
// variables.
func Root(p ...any) { roots = append(roots, p...) }

// Reach counts the values reachable from the given objects and from the
// package-level variables of the code under test. What functions capture is
// not seen.
func (s *Sim) Reach(objs ...any) int {
	w := walk{seen: map[place]bool{}}
	for _, o := range objs {
		w.value(reflect.ValueOf(o))
	}
	for _, o := range roots {
		w.value(reflect.ValueOf(o))
	}
	for len(w.todo) > 0 {
		v := w.todo[len(w.todo)-1]
		w.todo = w.todo[:len(w.todo)-1]
		w.value(v)
	}
	return w.n
}

type place struct {
	p uintptr
	t reflect.Type
	n int
}

type walk struct {
	n    int
	seen map[place]bool
	todo []reflect.Value
}

func (w *walk) value(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		k := place{v.Pointer(), v.Type(), 0}
		if v.IsNil() || w.seen[k] {
			return
		}
		w.seen[k] = true
		w.n++
		w.todo = append(w.todo, v.Elem())
	case reflect.Interface:
		if !v.IsNil() {
			w.value(v.Elem())
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		k := place{v.Pointer(), v.Type(), v.Len()}
		if w.seen[k] {
			return
		}
		w.seen[k] = true
		w.items(v)
	case reflect.Array:
		w.items(v)
	case reflect.String:
		w.n += 1 + v.Len()/16
	case reflect.Map:
		if v.IsNil() || w.seen[place{v.Pointer(), v.Type(), 0}] {
			return
		}
		w.seen[place{v.Pointer(), v.Type(), 0}] = true
		for it := v.MapRange(); it.Next(); {
			w.n++
			w.value(it.Key())
			w.value(it.Value())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			w.value(v.Field(i))
		}
	case reflect.Chan:
		if !v.IsNil() {
			w.n += 1 + v.Len()
		}
	default:
		w.n++
	}
}

func (w *walk) items(v reflect.Value) {
	switch v.Type().Elem().Kind() {
	case reflect.Pointer, reflect.Interface, reflect.Slice, reflect.Array, reflect.String, reflect.Map, reflect.Struct, reflect.Chan:
		for i := 0; i < v.Len(); i++ {
			w.value(v.Index(i))
		}
	}
	w.n += v.Len()
}
