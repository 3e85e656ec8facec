// Package sruntime shadows runtime for the code under simulation.
package sruntime

import "MODULE/internal/verifsim/simrt"

func NumCPU() int          { return simrt.NumCPU() }
func GOMAXPROCS(n int) int { return simrt.NumCPU() }
func Gosched()             { simrt.Yield() }
func NumGoroutine() int    { return 1 }
func GC()                  {}
