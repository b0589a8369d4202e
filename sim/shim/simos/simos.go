// Package simos stands in for os in the code under test: files live in the
// simulated file system, the standard output is the simulated one.
package simos

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/vsim"
)

// File is an open simulated file or a standard stream.
type File struct {
	h   *vsim.Handle
	fd  int
	std bool
}

var (
	Stdin  = &File{fd: 0, std: true}
	Stdout = &File{fd: 1, std: true}
	Stderr = &File{fd: 2, std: true}
)

func perr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

func sfs() *vsim.FS {
	if vsim.S == nil {
		panic("simos: file access outside a simulation")
	}
	return vsim.S.FS
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	h, err := sfs().Open(name, flag)
	if err != nil {
		return nil, err
	}
	return &File{h: h, fd: 3 + vsim.S.FS.Opened}, nil
}
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	if !strings.Contains(pattern, "*") {
		pattern += "*"
	}
	for i := 0; ; i++ {
		f, err := OpenFile(dir+"/"+strings.Replace(pattern, "*", fmt.Sprint(i), 1), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
		if err == nil || i > 10000 {
			return f, err
		}
	}
}

func (f *File) Fd() uintptr {
	if f == nil {
		return ^uintptr(0)
	}
	return uintptr(f.fd)
}
func (f *File) Name() string {
	if f.std {
		return []string{"/dev/stdin", "/dev/stdout", "/dev/stderr"}[f.fd]
	}
	return f.h.Name()
}
func (f *File) Write(p []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.std {
		if vsim.S == nil {
			return len(p), nil
		}
		return vsim.S.Env.Write(p)
	}
	n, err := f.h.Write(p)
	if err == nil && n < len(p) {
		err = io.ErrShortWrite
	}
	return n, err
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Read(p []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.std {
		return 0, io.EOF
	}
	return f.h.Read(p)
}
func (f *File) ReadAt(p []byte, off int64) (int, error) {
	cur, err := f.h.Seek(0, io.SeekCurrent)
	if err != nil {
		return 0, err
	}
	defer f.h.Seek(cur, io.SeekStart)
	f.h.Seek(off, io.SeekStart)
	n := 0
	for n < len(p) {
		m, err := f.h.Read(p[n:])
		n += m
		if err != nil {
			return n, err
		}
	}
	return n, nil
}
func (f *File) WriteAt(p []byte, off int64) (int, error) {
	cur, err := f.h.Seek(0, io.SeekCurrent)
	if err != nil {
		return 0, err
	}
	defer f.h.Seek(cur, io.SeekStart)
	f.h.Seek(off, io.SeekStart)
	return f.Write(p)
}
func (f *File) Seek(off int64, whence int) (int64, error) {
	if f.std {
		return 0, syscall.ESPIPE
	}
	return f.h.Seek(off, whence)
}
func (f *File) Sync() error {
	if f.std {
		return nil
	}
	return f.h.Sync()
}
func (f *File) Truncate(n int64) error { return f.h.Truncate(n) }
func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.std {
		return nil
	}
	return f.h.Close()
}
func (f *File) Chmod(FileMode) error { return nil }
func (f *File) Stat() (FileInfo, error) {
	if f.std {
		return info{name: f.Name()}, nil
	}
	return info{name: f.h.Name(), size: f.h.Size()}, nil
}

type info struct {
	name string
	size int64
}

func (i info) Name() string       { return i.name[strings.LastIndex(i.name, "/")+1:] }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return 0o644 }
func (i info) ModTime() time.Time { return time.Unix(1700000000, 0) }
func (i info) IsDir() bool        { return false }
func (i info) Sys() any           { return nil }

func Stat(name string) (FileInfo, error) {
	d, ok := sfs().Get(name)
	if !ok {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{name: name, size: int64(len(d))}, nil
}
func Lstat(name string) (FileInfo, error) { return Stat(name) }
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}
func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}
func Rename(a, b string) error        { return sfs().Rename(a, b) }
func Remove(a string) error           { return sfs().Remove(a) }
func Mkdir(string, FileMode) error    { return nil }
func MkdirAll(string, FileMode) error { return nil }
func Chmod(string, FileMode) error    { return nil }
func TempDir() string                 { return "/tmp" }
func MkdirTemp(dir, pattern string) (string, error) {
	return dir + "/" + strings.Replace(pattern, "*", "0", 1), nil
}
func RemoveAll(p string) error {
	for _, n := range sfs().List() {
		if n == strings.TrimPrefix(p, "/") || strings.HasPrefix("/"+n, strings.TrimSuffix(p, "/")+"/") {
			sfs().Remove(n)
		}
	}
	return nil
}

type dirent struct{ info }

func (d dirent) Type() fs.FileMode          { return 0 }
func (d dirent) Info() (fs.FileInfo, error) { return d.info, nil }

func ReadDir(dir string) ([]DirEntry, error) {
	var v []DirEntry
	dir = strings.Trim(dir, "/")
	for _, n := range sfs().List() {
		if i := strings.LastIndex(n, "/"); (i < 0 && (dir == "" || dir == ".")) || (i >= 0 && n[:i] == dir) {
			d, _ := sfs().Get(n)
			v = append(v, dirent{info{name: n, size: int64(len(d))}})
		}
	}
	sort.Slice(v, func(i, j int) bool { return v[i].Name() < v[j].Name() })
	return v, nil
}
func Exit(code int) { panic(fmt.Sprintf("os.Exit(%d) called", code)) }
