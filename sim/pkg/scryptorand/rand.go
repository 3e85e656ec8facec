// Package scryptorand shadows crypto/rand: Read goes through rand.Reader, which
// the simulator replaces, and a failure ends the process as the real one does.
package scryptorand

import (
	"crypto/rand"
	"io"

	"MODULE/internal/verifsim/simrt"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) { return rand.Reader.Read(p) }

// Reader forwards to the simulator's entropy source.
var Reader io.Reader = reader{}

func Read(b []byte) (int, error) {
	n, err := io.ReadFull(rand.Reader, b)
	if err != nil {
		simrt.Exit(2)
	}
	return n, nil
}
