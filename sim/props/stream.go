package props

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"syscall"
)

var ioErrs = []struct {
	name string
	err  error
}{
	{"ENOSPC", syscall.ENOSPC}, {"EIO", syscall.EIO}, {"EINTR", syscall.EINTR}, {"EPIPE", syscall.EPIPE},
	{"closed", io.ErrClosedPipe}, {"short", io.ErrShortWrite}, {"custom", errors.New("destination failed")},
	{"EAGAIN", syscall.EAGAIN}, {"noprogress", io.ErrNoProgress}, {"EDQUOT", syscall.EDQUOT}, {"EOF", io.EOF},
	{"unexpectedEOF", io.ErrUnexpectedEOF},
}

// simWriter accepts bytes and may fail at one point.
type simWriter struct {
	r         *Run
	Got       []byte
	FailAt    int // number of accepted bytes at which it fails; -1: never
	Err       error
	Transient bool // only one call fails
	Partial   bool // the failing call accepts the bytes up to FailAt
	Fired     int
	Dress     int // what else than Write it offers
}

func healthy(r *Run) *simWriter { return &simWriter{r: r, FailAt: -1, Dress: r.N(8)} }

// with calls fn with the writer as one of the types a caller may use.
func (w *simWriter) with(fn func(io.Writer) error) error {
	switch w.Dress {
	case 4:
		return fn(byteWriter{w})
	case 5:
		if w.FailAt < 0 {
			b := bytes.NewBuffer(append([]byte(nil), w.Got...))
			err := fn(b)
			w.Got = b.Bytes()
			return err
		}
	case 6:
		if w.FailAt < 0 {
			b := bufio.NewWriterSize(w, 32)
			err := fn(b)
			b.Flush()
			return err
		}
	}
	return fn(onlyWriter{w})
}

type onlyWriter struct{ io.Writer }

// byteWriter has the methods that a buffer or a file has.
type byteWriter struct{ w *simWriter }

func (b byteWriter) Write(p []byte) (int, error)       { return b.w.Write(p) }
func (b byteWriter) WriteString(s string) (int, error) { return b.w.Write([]byte(s)) }
func (b byteWriter) WriteByte(c byte) error {
	_, err := b.w.Write([]byte{c})
	return err
}
func (b byteWriter) ReadFrom(r io.Reader) (int64, error) {
	var t int64
	buf := make([]byte, 64)
	for {
		n, err := r.Read(buf)
		m, werr := b.w.Write(buf[:n])
		t += int64(m)
		if werr != nil {
			return t, werr
		}
		if err == io.EOF {
			return t, nil
		}
		if err != nil {
			return t, err
		}
	}
}

func (w *simWriter) Write(p []byte) (int, error) {
	if w.FailAt < 0 || (w.Transient && w.Fired > 0) || len(w.Got)+len(p) <= w.FailAt && w.Fired == 0 {
		w.Got = append(w.Got, p...)
		return len(p), nil
	}
	w.Fired++
	n := 0
	if w.Partial && w.Fired == 1 {
		n = w.FailAt - len(w.Got)
		if n < 0 {
			n = 0
		}
		w.Got = append(w.Got, p[:n]...)
	}
	w.r.Fault("write")
	return n, w.Err
}

// simReader gives out bytes in pieces and may fail at one point.
type simReader struct {
	r       *Run
	data    []byte
	Pos     int
	Mode    int // 0 as asked, 1 one byte, 2 random pieces, 3 random pieces and empty reads
	EOFData bool
	FailAt  int // -1: never
	Err     error
	Sticky  bool
	Fired   int
	zeros   int
	rnd     func(n int) int
	Dress   int // what else than Read it offers
}

// with calls fn with the reader as one of the types a caller may use.
func (s *simReader) with(fn func(io.Reader) error) error {
	switch s.Dress {
	case 4:
		return fn(byteReader{s})
	case 5:
		if s.FailAt < 0 {
			b := bytes.NewReader(s.data[s.Pos:])
			err := fn(b)
			s.Pos = len(s.data) - b.Len()
			return err
		}
	case 6:
		if s.FailAt < 0 {
			b := bytes.NewBuffer(append([]byte(nil), s.data[s.Pos:]...))
			err := fn(b)
			s.Pos = len(s.data) - b.Len()
			return err
		}
	case 7:
		if s.FailAt < 0 {
			b := bufio.NewReaderSize(s, 16)
			err := fn(b)
			s.Pos -= b.Buffered()
			return err
		}
	}
	return fn(onlyReader{s})
}

type onlyReader struct{ io.Reader }

// byteReader has the methods that a buffer has.
type byteReader struct{ s *simReader }

func (b byteReader) Read(p []byte) (int, error) { return b.s.Read(p) }
func (b byteReader) ReadByte() (byte, error) {
	var c [1]byte
	for {
		n, err := b.s.Read(c[:])
		if n == 1 {
			return c[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}
func (b byteReader) UnreadByte() error {
	if b.s.Pos == 0 {
		return errors.New("nothing to unread")
	}
	b.s.Pos--
	return nil
}
func (b byteReader) Len() int { return len(b.s.data) - b.s.Pos }

func (r *Run) reader(data []byte) *simReader {
	s := &simReader{r: r, data: data, FailAt: -1}
	s.Mode = r.N(4)
	s.Dress = r.N(10)
	s.EOFData = r.Bool()
	rng := newRng(r)
	s.rnd = rng.Intn
	return s
}

func (s *simReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.FailAt >= 0 && s.Pos >= s.FailAt && (s.Sticky || s.Fired == 0) {
		s.Fired++
		s.r.Fault("read")
		return 0, s.Err
	}
	if s.Pos >= len(s.data) {
		s.Fired++
		return 0, io.EOF
	}
	n := len(p)
	switch s.Mode {
	case 1:
		n = 1
	case 2, 3:
		n = 1 + s.rnd(len(p))
		if s.Mode == 3 && s.zeros < 50 && s.rnd(3) == 0 {
			s.zeros++
			s.r.Hit("stream.empty_read")
			return 0, nil
		}
	}
	if s.Mode > 0 && n < len(p) {
		s.r.Hit("stream.fragment")
		s.r.Nontrivial = true
	}
	if m := len(s.data) - s.Pos; n > m {
		n = m
	}
	var err error
	if s.FailAt >= 0 && (s.Sticky || s.Fired == 0) && s.Pos+n >= s.FailAt {
		n = s.FailAt - s.Pos
		if s.EOFData {
			// data and error together
			s.Fired++
			s.r.Fault("read")
			err = s.Err
		}
	}
	copy(p[:n], s.data[s.Pos:s.Pos+n])
	s.Pos += n
	if err == nil && s.EOFData && s.Pos == len(s.data) && s.FailAt < 0 {
		s.r.Hit("stream.eof_with_data")
		err = io.EOF
	}
	return n, err
}
