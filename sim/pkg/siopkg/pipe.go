// Package siopkg shadows io for the code under simulation: only the pipe, in
// which one goroutine waits for another, is different.
package siopkg

import (
	"io"

	"MODULE/internal/verifsim/simrt"
)

type pipe struct {
	data     []byte
	writing  bool
	taken    bool
	rerr     error // what writers get
	werr     error // what readers get
	wlock    bool
	closedRd bool
	closedWr bool
}

type PipeReader struct{ p *pipe }
type PipeWriter struct{ p *pipe }

func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	simrt.Yield()
	simrt.Block(func() bool { return p.closedRd || p.closedWr || p.writing && !p.taken }, false)
	if p.closedRd {
		return 0, io.ErrClosedPipe
	}
	if p.writing && !p.taken {
		n := copy(b, p.data)
		p.data = p.data[n:]
		if len(p.data) == 0 {
			p.taken = true
		}
		return n, nil
	}
	return 0, p.werr
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	if !r.p.closedRd {
		r.p.closedRd, r.p.rerr = true, err
	}
	simrt.Y()
	return nil
}

func (w *PipeWriter) Write(b []byte) (n int, err error) {
	p := w.p
	simrt.Yield()
	simrt.Block(func() bool { return !p.wlock }, false)
	p.wlock = true
	defer func() { p.wlock = false }()
	if p.closedWr {
		return 0, io.ErrClosedPipe
	}
	if p.closedRd {
		return 0, p.rerr
	}
	p.data, p.writing, p.taken = b, true, false
	simrt.Block(func() bool { return p.taken || p.closedRd || p.closedWr }, false)
	p.writing = false
	n = len(b) - len(p.data)
	switch {
	case p.taken:
	case p.closedWr:
		err = io.ErrClosedPipe
	default:
		err = p.rerr
	}
	return n, err
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	if !w.p.closedWr {
		w.p.closedWr, w.p.werr = true, err
	}
	simrt.Y()
	return nil
}
