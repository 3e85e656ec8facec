// Package smathrand shadows math/rand: the shared generator is seeded by the
// simulator, so that a run repeats exactly.
package smathrand

import "math/rand"

var g = rand.New(rand.NewSource(1))

// Reset starts the process's generator.
func Reset(seed uint64) { g = rand.New(rand.NewSource(int64(seed))) }

func Seed(s int64)                       { g.Seed(s) }
func Int63() int64                       { return g.Int63() }
func Uint32() uint32                     { return g.Uint32() }
func Uint64() uint64                     { return g.Uint64() }
func Int31() int32                       { return g.Int31() }
func Int() int                           { return g.Int() }
func Int63n(n int64) int64               { return g.Int63n(n) }
func Int31n(n int32) int32               { return g.Int31n(n) }
func Intn(n int) int                     { return g.Intn(n) }
func Float64() float64                   { return g.Float64() }
func Float32() float32                   { return g.Float32() }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
func Read(p []byte) (int, error)         { return g.Read(p) }
func NormFloat64() float64               { return g.NormFloat64() }
func ExpFloat64() float64                { return g.ExpFloat64() }
