// Code generated by genshim. DO NOT EDIT.

package simruntime

import orig "runtime"

const (
	Compiler = orig.Compiler
	GOARCH = orig.GOARCH
	GOOS = orig.GOOS
)

type (
	BlockProfileRecord = orig.BlockProfileRecord
	Cleanup = orig.Cleanup
	Error = orig.Error
	Frame = orig.Frame
	Frames = orig.Frames
	Func = orig.Func
	MemProfileRecord = orig.MemProfileRecord
	MemStats = orig.MemStats
	PanicNilError = orig.PanicNilError
	Pinner = orig.Pinner
	StackRecord = orig.StackRecord
	TypeAssertionError = orig.TypeAssertionError
)

var (
	BlockProfile = orig.BlockProfile
	Breakpoint = orig.Breakpoint
	CPUProfile = orig.CPUProfile
	Caller = orig.Caller
	Callers = orig.Callers
	CallersFrames = orig.CallersFrames
	FuncForPC = orig.FuncForPC
	GOROOT = orig.GOROOT
	GoroutineProfile = orig.GoroutineProfile
	KeepAlive = orig.KeepAlive
	LockOSThread = orig.LockOSThread
	MemProfile = orig.MemProfile
	MemProfileRate = orig.MemProfileRate
	MutexProfile = orig.MutexProfile
	NumCgoCall = orig.NumCgoCall
	ReadMemStats = orig.ReadMemStats
	ReadTrace = orig.ReadTrace
	SetBlockProfileRate = orig.SetBlockProfileRate
	SetCPUProfileRate = orig.SetCPUProfileRate
	SetCgoTraceback = orig.SetCgoTraceback
	SetDefaultGOMAXPROCS = orig.SetDefaultGOMAXPROCS
	SetMutexProfileFraction = orig.SetMutexProfileFraction
	Stack = orig.Stack
	StartTrace = orig.StartTrace
	StopTrace = orig.StopTrace
	ThreadCreateProfile = orig.ThreadCreateProfile
	UnlockOSThread = orig.UnlockOSThread
	Version = orig.Version
)

