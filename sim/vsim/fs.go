package vsim

import (
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// FS is the simulated file system. Every file has the contents the processes
// see (page cache) and the contents that would survive a crash. Directory
// changes (create, rename, remove) are journalled: a crash keeps a prefix of
// the ones that no sync has made durable.
type FS struct {
	sim     *Sim
	names   map[string]*inode
	durable map[string]*inode
	journal []func(map[string]*inode)
	open    map[*Handle]bool
	Opened  int
	Closed  int
	// Fault is asked before every operation. n is the number of bytes the
	// operation still transfers (reads and writes); err nil means no fault.
	Fault func(op, name string, want int) (n int, err error)
	// Limit bounds the bytes of one read (fragmentation); 0: as asked.
	Frag func(want int) int
	// EOFWithData lets a read that reaches the end report it at once.
	Log []string
}

type inode struct {
	data    []byte
	durable []byte
	mtime   time.Duration
}

// Handle is an open file.
type Handle struct {
	fs     *FS
	ino    *inode
	name   string
	off    int64
	rd, wr bool
	app    bool
	closed bool
	proc   *Proc
	task   *Task
}

func NewFS(s *Sim) *FS {
	return &FS{sim: s, names: map[string]*inode{}, durable: map[string]*inode{}, open: map[*Handle]bool{}}
}

func clean(n string) string { return path.Clean("/" + n) }

func perr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

func (f *FS) dead() bool { return f.sim.cur.Proc.Dead || f.sim.cur.Killed }

func (f *FS) fault(op, name string, want int) (int, error) {
	if f.Fault == nil {
		return want, nil
	}
	n, err := f.Fault(op, name, want)
	if err != nil {
		f.sim.Count("fault.fs." + op)
		f.sim.Tracef("fs %s %s: injected %v after %d bytes", op, name, err, n)
		if n < 0 {
			n = 0
		}
		if n > want {
			n = want
		}
		return n, err
	}
	return want, nil
}

const (
	oWR     = syscall.O_WRONLY
	oRW     = syscall.O_RDWR
	oCREATE = syscall.O_CREAT
	oTRUNC  = syscall.O_TRUNC
	oEXCL   = syscall.O_EXCL
	oAPPEND = syscall.O_APPEND
)

func (f *FS) Open(name string, flag int) (*Handle, error) {
	f.sim.Count("fs.open")
	n := clean(name)
	if f.dead() {
		return nil, perr("open", name, syscall.EIO)
	}
	op := "open"
	if flag&oCREATE != 0 {
		op = "create"
	}
	if _, err := f.fault(op, name, 0); err != nil {
		return nil, perr("open", name, err)
	}
	ino := f.names[n]
	if ino == nil {
		if flag&oCREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		ino = &inode{}
		f.names[n] = ino
		f.journal = append(f.journal, func(m map[string]*inode) { m[n] = ino })
	} else if flag&oCREATE != 0 && flag&oEXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if flag&oTRUNC != 0 {
		ino.data = nil
	}
	h := &Handle{fs: f, ino: ino, name: name, app: flag&oAPPEND != 0, proc: f.sim.cur.Proc, task: f.sim.cur}
	h.wr = flag&(oWR|oRW) != 0
	h.rd = flag&oWR == 0
	f.open[h] = true
	f.Opened++
	return h, nil
}

func (h *Handle) Name() string { return h.name }

func (h *Handle) Write(p []byte) (int, error) {
	f := h.fs
	f.sim.Count("fs.write")
	if f.dead() {
		return 0, perr("write", h.name, syscall.EIO)
	}
	if h.closed {
		return 0, perr("write", h.name, fs.ErrClosed)
	}
	if !h.wr {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	n, err := f.fault("write", h.name, len(p))
	if h.app {
		h.off = int64(len(h.ino.data))
	}
	end := h.off + int64(n)
	if int64(len(h.ino.data)) < end {
		h.ino.data = append(h.ino.data, make([]byte, end-int64(len(h.ino.data)))...)
	}
	copy(h.ino.data[h.off:end], p[:n])
	h.off = end
	if err != nil {
		return n, perr("write", h.name, err)
	}
	return n, nil
}

func (h *Handle) Read(p []byte) (int, error) {
	f := h.fs
	f.sim.Count("fs.read")
	if f.dead() {
		return 0, perr("read", h.name, syscall.EIO)
	}
	if h.closed {
		return 0, perr("read", h.name, fs.ErrClosed)
	}
	if !h.rd {
		return 0, perr("read", h.name, syscall.EBADF)
	}
	if len(p) == 0 {
		return 0, nil
	}
	want := len(p)
	if f.Frag != nil {
		if w := f.Frag(want); w > 0 && w < want {
			want = w
		}
	}
	left := int64(len(h.ino.data)) - h.off
	if left < 0 {
		left = 0
	}
	if int64(want) > left {
		want = int(left)
	}
	n, err := f.fault("read", h.name, want)
	copy(p[:n], h.ino.data[h.off:h.off+int64(n)])
	h.off += int64(n)
	if err != nil {
		return n, perr("read", h.name, err)
	}
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (h *Handle) Seek(off int64, whence int) (int64, error) {
	if h.closed {
		return 0, perr("seek", h.name, fs.ErrClosed)
	}
	switch whence {
	case io.SeekCurrent:
		off += h.off
	case io.SeekEnd:
		off += int64(len(h.ino.data))
	}
	if off < 0 {
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	h.off = off
	return off, nil
}

func (h *Handle) Truncate(n int64) error {
	if h.closed || !h.wr || h.fs.dead() {
		return perr("truncate", h.name, syscall.EINVAL)
	}
	if _, err := h.fs.fault("truncate", h.name, 0); err != nil {
		return perr("truncate", h.name, err)
	}
	for int64(len(h.ino.data)) < n {
		h.ino.data = append(h.ino.data, 0)
	}
	h.ino.data = h.ino.data[:n]
	return nil
}

func (h *Handle) Size() int64 { return int64(len(h.ino.data)) }

// Sync makes the contents of the file and the directory journal durable.
func (h *Handle) Sync() error {
	f := h.fs
	if f.dead() {
		return perr("sync", h.name, syscall.EIO)
	}
	if h.closed {
		return perr("sync", h.name, fs.ErrClosed)
	}
	if _, err := f.fault("sync", h.name, 0); err != nil {
		return perr("sync", h.name, err)
	}
	h.ino.durable = append([]byte(nil), h.ino.data...)
	f.SyncDir()
	return nil
}

func (h *Handle) Close() error {
	f := h.fs
	if h.closed {
		return perr("close", h.name, fs.ErrClosed)
	}
	if f.dead() {
		return perr("close", h.name, syscall.EIO)
	}
	h.closed = true
	delete(f.open, h)
	f.Closed++
	f.sim.Count("fs.close")
	if _, err := f.fault("close", h.name, 0); err != nil {
		// a delayed write error: what was not synced is lost in part
		if d := h.ino.data; h.wr && len(d) > 0 && string(d) != string(h.ino.durable) {
			h.ino.data = append([]byte(nil), d[:len(d)/2]...)
			f.sim.Count("fs.lost_at_close")
		}
		return perr("close", h.name, err)
	}
	return nil
}

func (f *FS) SyncDir() {
	for _, j := range f.journal {
		j(f.durable)
	}
	f.journal = nil
}

func (f *FS) Rename(a, b string) error {
	if f.dead() {
		return perr("rename", a, syscall.EIO)
	}
	if _, err := f.fault("rename", a, 0); err != nil {
		return perr("rename", a, err)
	}
	a, b = clean(a), clean(b)
	ino := f.names[a]
	if ino == nil {
		return perr("rename", a, syscall.ENOENT)
	}
	ch := func(m map[string]*inode) { m[b] = ino; delete(m, a) }
	ch(f.names)
	f.journal = append(f.journal, ch)
	return nil
}

func (f *FS) Remove(a string) error {
	if f.dead() {
		return perr("remove", a, syscall.EIO)
	}
	if _, err := f.fault("remove", a, 0); err != nil {
		return perr("remove", a, err)
	}
	n := clean(a)
	if f.names[n] == nil {
		return perr("remove", a, syscall.ENOENT)
	}
	ch := func(m map[string]*inode) { delete(m, n) }
	ch(f.names)
	f.journal = append(f.journal, ch)
	return nil
}

// Crash discards what is not durable. keep decides how much of each pending
// thing survives: it is asked with the number of possibilities minus one.
func (f *FS) Crash(keep func(n int) int) {
	k := keep(len(f.journal))
	for _, j := range f.journal[:k] {
		j(f.durable)
	}
	f.journal = nil
	var names []string
	for n := range f.durable {
		names = append(names, n)
	}
	sort.Strings(names)
	nm := map[string]*inode{}
	for _, n := range names {
		ino := f.durable[n]
		d := append([]byte(nil), ino.durable...)
		if string(ino.data) != string(ino.durable) {
			// page cache written back up to some point
			common := 0
			for common < len(d) && common < len(ino.data) && d[common] == ino.data[common] {
				common++
			}
			p := common + keep(len(ino.data)-common)
			if p < len(ino.data) {
				f.sim.Count("fault.lost_unsynced")
			}
			t := append([]byte(nil), ino.data[:p]...)
			if len(d) > p {
				t = append(t, d[p:]...)
			}
			d = t
		}
		nm[n] = &inode{data: d, durable: append([]byte(nil), d...)}
	}
	f.names = nm
	f.durable = map[string]*inode{}
	for n, i := range nm {
		f.durable[n] = i
	}
	for h := range f.open {
		h.closed = true
	}
	f.open = map[*Handle]bool{}
}

func (f *FS) Put(name string, data []byte) {
	n := clean(name)
	ino := &inode{data: append([]byte(nil), data...), durable: append([]byte(nil), data...)}
	f.names[n] = ino
	f.durable[n] = ino
}

func (f *FS) Get(name string) ([]byte, bool) {
	ino := f.names[clean(name)]
	if ino == nil {
		return nil, false
	}
	return append([]byte(nil), ino.data...), true
}

func (f *FS) OpenHandles() int { return len(f.open) }

// OpenBy counts the files that task t has opened and not closed.
func (f *FS) OpenBy(t *Task) int {
	n := 0
	for h := range f.open {
		if h.task == t {
			n++
		}
	}
	return n
}

func (f *FS) List() []string {
	var v []string
	for n := range f.names {
		v = append(v, strings.TrimPrefix(n, "/"))
	}
	sort.Strings(v)
	return v
}
