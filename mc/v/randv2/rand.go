// Package rand is the controlled version of math/rand/v2.
package rand

import (
	std "math/rand/v2"
	"verif/rt"
)

type global struct{}

func (global) Uint64() uint64 { return uint64(rt.RandInt63())<<1 ^ uint64(rt.RandInt63()) }

func g() *std.Rand { return std.New(global{}) }

func Int64() int64                       { return g().Int64() }
func Uint32() uint32                     { return g().Uint32() }
func Uint64() uint64                     { return g().Uint64() }
func Int32() int32                       { return g().Int32() }
func Int() int                           { return g().Int() }
func Int64N(n int64) int64               { return g().Int64N(n) }
func Uint64N(n uint64) uint64            { return g().Uint64N(n) }
func Int32N(n int32) int32               { return g().Int32N(n) }
func Uint32N(n uint32) uint32            { return g().Uint32N(n) }
func IntN(n int) int                     { return g().IntN(n) }
func UintN(n uint) uint                  { return g().UintN(n) }
func Float64() float64                   { return g().Float64() }
func Float32() float32                   { return g().Float32() }
func Perm(n int) []int                   { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }
