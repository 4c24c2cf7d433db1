// Package rand is the controlled version of math/rand: the default source is deterministic and
// time-based seeds give the same sequence in every execution.
package rand

import (
	std "math/rand"
	"verif/rt"
)

type global struct{}

func (global) Int63() int64    { return rt.RandInt63() }
func (global) Uint64() uint64  { return uint64(rt.RandInt63())<<1 ^ uint64(rt.RandInt63()) }
func (global) Seed(seed int64) {}

func g() *std.Rand { return std.New(global{}) }

func Seed(seed int64) {}

// NewSource gives a source that starts over in every execution.
func NewSource(seed int64) Source { return &source{seed: seed} }

type source struct {
	seed int64
	run  uint64
	src  std.Source
}

func (s *source) get() std.Source {
	if r := rt.RunID(); s.src == nil || s.run != r {
		s.run, s.src = r, std.NewSource(42)
	}
	return s.src
}

// Unlucky makes the sources of this execution unlucky: only each eighth draw of a small number
// differs from the ones before, so that identifiers of few draws collide.
func Unlucky() { unlucky, draws = rt.RunID(), 0 }

var unlucky, draws uint64

func (s *source) Int63() int64 {
	v := s.get().Int63()
	if unlucky != 0 && unlucky == rt.RunID() {
		if draws++; draws%8 != 0 {
			v &= 1<<32 - 1
		}
	}
	return v
}

func (s *source) Uint64() uint64 { return uint64(s.Int63())>>31 | uint64(s.Int63())<<32 }
func (s *source) Seed(x int64)   { s.seed = x }

func Int63() int64                       { return g().Int63() }
func Uint32() uint32                     { return g().Uint32() }
func Uint64() uint64                     { return g().Uint64() }
func Int31() int32                       { return g().Int31() }
func Int() int                           { return g().Int() }
func Int63n(n int64) int64               { return g().Int63n(n) }
func Int31n(n int32) int32               { return g().Int31n(n) }
func Intn(n int) int                     { return g().Intn(n) }
func Float64() float64                   { return g().Float64() }
func Float32() float32                   { return g().Float32() }
func Perm(n int) []int                   { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }
func Read(p []byte) (int, error)         { return g().Read(p) }
func NormFloat64() float64               { return g().NormFloat64() }
func ExpFloat64() float64                { return g().ExpFloat64() }
