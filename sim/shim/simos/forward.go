// Code generated by genshim. DO NOT EDIT.

package simos

import orig "os"

const (
	DevNull = orig.DevNull
	ModeAppend = orig.ModeAppend
	ModeCharDevice = orig.ModeCharDevice
	ModeDevice = orig.ModeDevice
	ModeDir = orig.ModeDir
	ModeExclusive = orig.ModeExclusive
	ModeIrregular = orig.ModeIrregular
	ModeNamedPipe = orig.ModeNamedPipe
	ModePerm = orig.ModePerm
	ModeSetgid = orig.ModeSetgid
	ModeSetuid = orig.ModeSetuid
	ModeSocket = orig.ModeSocket
	ModeSticky = orig.ModeSticky
	ModeSymlink = orig.ModeSymlink
	ModeTemporary = orig.ModeTemporary
	ModeType = orig.ModeType
	O_APPEND = orig.O_APPEND
	O_CREATE = orig.O_CREATE
	O_EXCL = orig.O_EXCL
	O_RDONLY = orig.O_RDONLY
	O_RDWR = orig.O_RDWR
	O_SYNC = orig.O_SYNC
	O_TRUNC = orig.O_TRUNC
	O_WRONLY = orig.O_WRONLY
	PathListSeparator = orig.PathListSeparator
	PathSeparator = orig.PathSeparator
	SEEK_CUR = orig.SEEK_CUR
	SEEK_END = orig.SEEK_END
	SEEK_SET = orig.SEEK_SET
)

type (
	DirEntry = orig.DirEntry
	FileInfo = orig.FileInfo
	FileMode = orig.FileMode
	LinkError = orig.LinkError
	PathError = orig.PathError
	Signal = orig.Signal
	SyscallError = orig.SyscallError
)

var (
	Args = orig.Args
	Environ = orig.Environ
	ErrClosed = orig.ErrClosed
	ErrDeadlineExceeded = orig.ErrDeadlineExceeded
	ErrExist = orig.ErrExist
	ErrInvalid = orig.ErrInvalid
	ErrNoDeadline = orig.ErrNoDeadline
	ErrNoHandle = orig.ErrNoHandle
	ErrNotExist = orig.ErrNotExist
	ErrPermission = orig.ErrPermission
	ErrProcessDone = orig.ErrProcessDone
	Expand = orig.Expand
	ExpandEnv = orig.ExpandEnv
	Getegid = orig.Getegid
	Getenv = orig.Getenv
	Geteuid = orig.Geteuid
	Getgid = orig.Getgid
	Getgroups = orig.Getgroups
	Getpagesize = orig.Getpagesize
	Getuid = orig.Getuid
	Getwd = orig.Getwd
	Interrupt = orig.Interrupt
	IsExist = orig.IsExist
	IsNotExist = orig.IsNotExist
	IsPathSeparator = orig.IsPathSeparator
	IsPermission = orig.IsPermission
	IsTimeout = orig.IsTimeout
	Kill = orig.Kill
	LookupEnv = orig.LookupEnv
	NewSyscallError = orig.NewSyscallError
	UserCacheDir = orig.UserCacheDir
	UserConfigDir = orig.UserConfigDir
	UserHomeDir = orig.UserHomeDir
)

