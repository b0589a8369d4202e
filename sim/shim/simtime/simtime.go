// Package simtime stands in for time in the code under test.
package simtime

import (
	"time"

	"verif.local/sim/vsim"
)

func Now() time.Time {
	if vsim.S == nil {
		return time.Unix(1700000000, 0)
	}
	return vsim.S.Env.Now()
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration) {
	if vsim.S != nil {
		vsim.S.Env.Clock += d
		vsim.S.Gosched()
	}
}
