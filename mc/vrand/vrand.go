// Package vrand stands in for math/rand in the code under test: the draws of the global source come from hooks.
package vrand

import "math/rand"

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

// FloatHook supplies every float in [0,1), IntHook every bounded integer.
var (
	FloatHook func() float64
	IntHook   func(n int) int
)

func New(s Source) *Rand                                    { return rand.New(s) }
func NewSource(seed int64) Source                           { return rand.NewSource(seed) }
func NewZipf(r *Rand, s float64, v float64, i uint64) *Zipf { return rand.NewZipf(r, s, v, i) }

func Float64() float64 {
	if h := FloatHook; h != nil {
		return h()
	}
	return rand.Float64()
}

func Float32() float32 {
	if h := FloatHook; h != nil {
		return float32(h())
	}
	return rand.Float32()
}

func bounded(n int) (int, bool) {
	if h := IntHook; h != nil {
		if n <= 0 {
			panic("invalid argument to Intn")
		}
		return h(n), true
	}
	return 0, false
}

func Intn(n int) int {
	if v, ok := bounded(n); ok {
		return v
	}
	return rand.Intn(n)
}

func Int31n(n int32) int32 {
	if v, ok := bounded(int(n)); ok {
		return int32(v)
	}
	return rand.Int31n(n)
}

func Int63n(n int64) int64 {
	if v, ok := bounded(int(n)); ok {
		return int64(v)
	}
	return rand.Int63n(n)
}

func Int() int                           { return rand.Int() }
func Int31() int32                       { return rand.Int31() }
func Int63() int64                       { return rand.Int63() }
func Uint32() uint32                     { return rand.Uint32() }
func Uint64() uint64                     { return rand.Uint64() }
func ExpFloat64() float64                { return rand.ExpFloat64() }
func NormFloat64() float64               { return rand.NormFloat64() }
func Perm(n int) []int                   { return rand.Perm(n) }
func Read(p []byte) (int, error)         { return rand.Read(p) }
func Seed(seed int64)                    { rand.Seed(seed) }
func Shuffle(n int, swap func(i, j int)) { rand.Shuffle(n, swap) }
