// Package sioioutil shadows io/ioutil.
package sioioutil

import (
	"os"

	"MODULE/internal/verifsim/sos"
)

func ReadFile(name string) ([]byte, error) { return sos.ReadFile(name) }
func WriteFile(name string, data []byte, perm os.FileMode) error {
	return sos.WriteFile(name, data, perm)
}
func TempFile(dir, pattern string) (*sos.File, error) { return sos.CreateTemp(dir, pattern) }
