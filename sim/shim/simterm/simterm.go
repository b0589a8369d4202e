// Package simterm stands in for golang.org/x/crypto/ssh/terminal and
// golang.org/x/term in the code under test.
package simterm

import (
	"syscall"

	"verif.local/sim/vsim"
)

func GetSize(fd int) (int, int, error) {
	if vsim.S == nil {
		return 0, 0, syscall.ENOTTY
	}
	e := vsim.S.Env
	c := e.TermUses
	e.TermUses++
	if e.Term == nil {
		return 0, 0, syscall.ENOTTY
	}
	return e.Term(c)
}

func IsTerminal(fd int) bool {
	_, _, err := GetSize(fd)
	return err == nil
}
