// Package simrand replaces math/rand: the global source belongs to the run.
package simrand

import (
	real "math/rand"

	"github.com/Harvey-OS/ninep/sim/simrt"
)

type (
	Rand     = real.Rand
	Source   = real.Source
	Source64 = real.Source64
	Zipf     = real.Zipf
)

func New(s Source) *Rand                               { return real.New(s) }
func NewSource(seed int64) Source                      { return real.NewSource(seed) }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return real.NewZipf(r, s, v, imax) }

var (
	of *simrt.Sim
	g  *Rand
)

// own is the run's own generator.
func own() *Rand {
	if s := simrt.Cur(); g == nil || s != of {
		of, g = s, real.New(real.NewSource(1))
		if s != nil {
			g.Seed(int64(s.Draw(simrt.Net, 1<<30)))
		}
	}
	return g
}

func Seed(seed int64)                    { own().Seed(seed) }
func Int() int                           { return own().Int() }
func Intn(n int) int                     { return own().Intn(n) }
func Int31() int32                       { return own().Int31() }
func Int31n(n int32) int32               { return own().Int31n(n) }
func Int63() int64                       { return own().Int63() }
func Int63n(n int64) int64               { return own().Int63n(n) }
func Uint32() uint32                     { return own().Uint32() }
func Uint64() uint64                     { return own().Uint64() }
func Float32() float32                   { return own().Float32() }
func Float64() float64                   { return own().Float64() }
func NormFloat64() float64               { return own().NormFloat64() }
func ExpFloat64() float64                { return own().ExpFloat64() }
func Perm(n int) []int                   { return own().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { own().Shuffle(n, swap) }
func Read(p []byte) (int, error)         { return own().Read(p) }
