// Package sfmt shadows fmt: standard output and input are simulated.
package sfmt

import (
	"fmt"

	"MODULE/internal/verifsim/sos"
)

func Print(a ...interface{}) (int, error)            { return fmt.Fprint(sos.Stdout, a...) }
func Println(a ...interface{}) (int, error)          { return fmt.Fprintln(sos.Stdout, a...) }
func Printf(f string, a ...interface{}) (int, error) { return fmt.Fprintf(sos.Stdout, f, a...) }
func Scan(a ...interface{}) (int, error)             { return fmt.Fscan(sos.Stdin, a...) }
func Scanln(a ...interface{}) (int, error)           { return fmt.Fscanln(sos.Stdin, a...) }
func Scanf(f string, a ...interface{}) (int, error)  { return fmt.Fscanf(sos.Stdin, f, a...) }
