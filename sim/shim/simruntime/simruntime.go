// Package simruntime stands in for runtime in the code under test: how many
// processors there are is part of the simulated environment.
package simruntime

import (
	"runtime"

	"verif.local/sim/vsim"
)

func NumCPU() int {
	if vsim.S == nil || vsim.S.Env.CPUs == 0 {
		return 4
	}
	return vsim.S.Env.CPUs
}

func GOMAXPROCS(n int) int { return NumCPU() }

func NumGoroutine() int {
	if vsim.S == nil {
		return 1
	}
	return vsim.S.Live()
}

func Gosched() {
	if vsim.S != nil {
		vsim.S.Gosched()
	}
}

func GC() {}

// SetFinalizer: an object may always be collected late, so finalizers never run.
func SetFinalizer(obj any, finalizer any) {}

func Goexit() { runtime.Goexit() }
