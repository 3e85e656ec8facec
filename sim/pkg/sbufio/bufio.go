// Package sbufio shadows bufio: default buffer sizes are a per-run knob.
package sbufio

import (
	"bufio"
	"io"

	"MODULE/internal/verifsim/simrt"
)

func NewReader(r io.Reader) *bufio.Reader { return bufio.NewReaderSize(r, simrt.BufSize()) }
func NewWriter(w io.Writer) *bufio.Writer { return bufio.NewWriterSize(w, simrt.BufSize()) }
func NewReadWriter(r *bufio.Reader, w *bufio.Writer) *bufio.ReadWriter {
	return bufio.NewReadWriter(r, w)
}
