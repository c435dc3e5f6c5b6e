package main

import (
	"context"
	"errors"
	"io"
	"os"
	"syscall"

	"pgregory.net/rapid"
)

// chunkReader delivers data in pieces of the given sizes (cyclically), with
// an occasional empty read, optionally reporting io.EOF with the last bytes,
// optionally failing once `failAt` bytes were delivered. It is seekable.
type chunkReader struct {
	data    []byte
	pos     int
	sizes   []int
	i       int
	eofWith bool // io.EOF together with the last bytes
	failAt  int  // <0: never
	failErr error
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if c.failAt >= 0 && c.pos >= c.failAt {
		return 0, c.failErr
	}
	if c.pos >= len(c.data) {
		return 0, io.EOF
	}
	n := len(p)
	if len(c.sizes) > 0 {
		s := c.sizes[c.i%len(c.sizes)]
		c.i++
		if s < n {
			n = s
		}
	}
	if rest := len(c.data) - c.pos; n > rest {
		n = rest
	}
	fail := false
	if c.failAt >= 0 && c.pos+n >= c.failAt {
		n, fail = c.failAt-c.pos, c.eofWith
	}
	copy(p, c.data[c.pos:c.pos+n])
	c.pos += n
	if fail {
		return n, c.failErr
	}
	if c.eofWith && c.pos == len(c.data) && c.failAt < 0 {
		return n, io.EOF
	}
	return n, nil
}

func (c *chunkReader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += int64(c.pos)
	case io.SeekEnd:
		off += int64(len(c.data))
	}
	if off < 0 || off > int64(len(c.data)) {
		return 0, errors.New("seek out of range")
	}
	c.pos = int(off)
	return off, nil
}

type chunking struct {
	Sizes   []int
	EOFWith bool
}

func genChunking(t *rapid.T) chunking {
	var c chunking
	switch intIn(t, 0, 5, "chunk") {
	case 0: // as much as asked for
	case 1:
		c.Sizes = []int{1}
	default:
		for i, n := 0, intIn(t, 1, 5, "nsizes"); i < n; i++ {
			c.Sizes = append(c.Sizes, intIn(t, 0, 9, "size"))
		}
		c.Sizes = append(c.Sizes, intIn(t, 1, 60, "last")) // progress
	}
	c.EOFWith = boolean(t, "eofwith")
	return c
}

func (c chunking) reader(data string) *chunkReader {
	return &chunkReader{data: []byte(data), sizes: c.Sizes, eofWith: c.EOFWith, failAt: -1}
}

var errInjected = errors.New("injected failure")

// faultErrs are errors a source or destination may report. None of them wraps
// io.EOF, which is not a failure of a source.
var faultErrs = []error{
	errInjected,
	io.ErrUnexpectedEOF,
	io.ErrClosedPipe,
	io.ErrNoProgress,
	os.ErrClosed,
	os.ErrDeadlineExceeded,
	syscall.EIO,
	syscall.EINTR,
	&os.PathError{Op: "read", Path: "/some/rather/long/path/to/a/file/on/a/disk/that/is/gone/input.txt", Err: syscall.EAGAIN},
	context.Canceled,
	io.ErrShortWrite,
	io.ErrShortBuffer,
	&os.PathError{Op: "seek", Path: "/dev/stdin", Err: syscall.ESPIPE},
	syscall.EPIPE,
	syscall.ENOSPC,
	os.ErrNotExist,
	errors.New("EOF"),
	errors.New(""),
}

func readErr(kind int) error { return faultErrs[kind%len(faultErrs)] }

func genErr(t *rapid.T) int { return uniform(t, 0, len(faultErrs)-1, "err") }
