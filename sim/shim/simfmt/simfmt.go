// Package simfmt stands in for fmt in the code under test: what goes to the
// standard output goes to the simulated one.
package simfmt

import (
	"fmt"

	"verif.local/sim/vsim"
)

type out struct{}

func (out) Write(p []byte) (int, error) {
	if vsim.S == nil {
		return len(p), nil
	}
	return vsim.S.Env.Write(p)
}

func Print(a ...any) (int, error)            { return fmt.Fprint(out{}, a...) }
func Println(a ...any) (int, error)          { return fmt.Fprintln(out{}, a...) }
func Printf(f string, a ...any) (int, error) { return fmt.Fprintf(out{}, f, a...) }
