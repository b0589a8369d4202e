package simos

import "verif.local/sim/vsim"

func Getpid() int {
	if vsim.S == nil || vsim.S.Env.Pid == 0 {
		return 1000
	}
	return vsim.S.Env.Pid
}

func Getppid() int { return 1 }

func Hostname() (string, error) {
	if vsim.S == nil || vsim.S.Env.Host == "" {
		return "localhost", nil
	}
	return vsim.S.Env.Host, nil
}
