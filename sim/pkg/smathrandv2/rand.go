// Package smathrandv2 shadows math/rand/v2: the shared generator is seeded by
// the simulator, so that a run repeats exactly.
package smathrandv2

import "math/rand/v2"

var g = rand.New(rand.NewPCG(1, 1))

// Reset starts the process's generator.
func Reset(seed uint64) { g = rand.New(rand.NewPCG(seed, 1)) }

func Int64() int64                       { return g.Int64() }
func Uint32() uint32                     { return g.Uint32() }
func Uint64() uint64                     { return g.Uint64() }
func Int32() int32                       { return g.Int32() }
func Int() int                           { return g.Int() }
func Uint() uint                         { return g.Uint() }
func Int64N(n int64) int64               { return g.Int64N(n) }
func Uint64N(n uint64) uint64            { return g.Uint64N(n) }
func Uint32N(n uint32) uint32            { return g.Uint32N(n) }
func UintN(n uint) uint                  { return g.UintN(n) }
func Int32N(n int32) int32               { return g.Int32N(n) }
func IntN(n int) int                     { return g.IntN(n) }
func Float64() float64                   { return g.Float64() }
func Float32() float32                   { return g.Float32() }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
func NormFloat64() float64               { return g.NormFloat64() }
func ExpFloat64() float64                { return g.ExpFloat64() }

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func N[T integer](n T) T { return T(g.Uint64N(uint64(n))) }
