// Package slog shadows log: output is simulated and Fatal ends the simulated process.
package slog

import (
	"fmt"
	"io"
	"log"

	"MODULE/internal/verifsim/sos"
)

var std = log.New(sos.Stderr, "", 0)

func Default() *log.Logger              { return std }
func SetOutput(w io.Writer)             { std.SetOutput(w) }
func SetFlags(int)                      {}
func SetPrefix(p string)                { std.SetPrefix(p) }
func Print(a ...interface{})            { std.Print(a...) }
func Println(a ...interface{})          { std.Println(a...) }
func Printf(f string, a ...interface{}) { std.Printf(f, a...) }
func Fatal(a ...interface{})            { std.Print(a...); sos.Exit(1) }
func Fatalln(a ...interface{})          { std.Println(a...); sos.Exit(1) }
func Fatalf(f string, a ...interface{}) { std.Printf(f, a...); sos.Exit(1) }
func Panic(a ...interface{})            { s := fmt.Sprint(a...); std.Print(s); panic(s) }
func Panicln(a ...interface{})          { s := fmt.Sprintln(a...); std.Print(s); panic(s) }
func Panicf(f string, a ...interface{}) { s := fmt.Sprintf(f, a...); std.Print(s); panic(s) }
func Writer() io.Writer                 { return std.Writer() }
