// Package mrand is a drop-in for math/rand whose draws are owned by ctl.
package mrand

import (
	"math/rand"

	"nnverif/seam/ctl"
)

type Source interface {
	Int63() int64
	Seed(seed int64)
}

type Source64 interface {
	Source
	Uint64() uint64
}

type stream struct{ s *ctl.Stream }

func (s *stream) Seed(seed int64) { s.s.Reseed(uint64(seed)) }
func (s *stream) Uint64() uint64  { return s.s.Bits(func(r *rand.Rand) uint64 { return r.Uint64() }) }
func (s *stream) Int63() int64    { return int64(s.Uint64() >> 1) }

// foreign adapts a source that is not one of ours.
type foreign struct{ s Source }

func (f foreign) Int63() int64    { return f.s.Int63() }
func (f foreign) Seed(seed int64) { f.s.Seed(int64(seed)) }

func NewSource(seed int64) Source { return &stream{ctl.NewStream(uint64(seed))} }

type Rand struct{ s *ctl.Stream }

func New(src Source) *Rand {
	if s, ok := src.(*stream); ok {
		return &Rand{s.s}
	}
	return &Rand{ctl.Custom(foreign{src})}
}

var global = &Rand{ctl.Global(0x5eed1)}

func init() { ctl.OnReset(func() { global.s.Restart(0x5eed1 ^ uint64(ctl.Seed)<<32) }) }

func (r *Rand) Seed(seed int64) { r.s.Reseed(uint64(seed)) }
func (r *Rand) Uint64() uint64  { return r.s.Bits(func(r *rand.Rand) uint64 { return r.Uint64() }) }
func (r *Rand) Int63() int64    { return int64(r.Uint64() >> 1) }
func (r *Rand) Uint32() uint32  { return uint32(r.Uint64() >> 32) }
func (r *Rand) Int31() int32    { return int32(r.Uint64() >> 33) }
func (r *Rand) Int() int        { return int(r.Uint64() >> 1) }
func (r *Rand) Int63n(n int64) int64 {
	return r.s.Choose(n, func(r *rand.Rand) int64 { return r.Int63n(n) })
}
func (r *Rand) Int31n(n int32) int32    { return int32(r.Int63n(int64(n))) }
func (r *Rand) Intn(n int) int          { return int(r.Int63n(int64(n))) }
func (r *Rand) Uint64n(n uint64) uint64 { return uint64(r.Int63n(int64(n))) }
func (r *Rand) Float64() float64 {
	return r.s.Float(func(r *rand.Rand) float64 { return r.Float64() })
}
func (r *Rand) Float32() float32 {
	return min(float32(r.s.Float(func(r *rand.Rand) float64 { return float64(r.Float32()) })), 1-1.0/(1<<24))
}
func (r *Rand) NormFloat64() float64 {
	return r.s.Normal("norm", func(r *rand.Rand) float64 { return r.NormFloat64() })
}
func (r *Rand) ExpFloat64() float64 {
	return r.s.Normal("exp", func(r *rand.Rand) float64 { return r.ExpFloat64() })
}
func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	if n < 0 {
		panic("invalid argument to Shuffle")
	}
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}
func (r *Rand) Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	r.Shuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}
func (r *Rand) Read(p []byte) (int, error) {
	r.s.Raw(func(r *rand.Rand) { r.Read(p) })
	return len(p), nil
}

func Seed(seed int64)                    { global.Seed(seed) }
func Uint64() uint64                     { return global.Uint64() }
func Int63() int64                       { return global.Int63() }
func Uint32() uint32                     { return global.Uint32() }
func Int31() int32                       { return global.Int31() }
func Int() int                           { return global.Int() }
func Int63n(n int64) int64               { return global.Int63n(n) }
func Int31n(n int32) int32               { return global.Int31n(n) }
func Intn(n int) int                     { return global.Intn(n) }
func Float64() float64                   { return global.Float64() }
func Float32() float32                   { return global.Float32() }
func NormFloat64() float64               { return global.NormFloat64() }
func ExpFloat64() float64                { return global.ExpFloat64() }
func Shuffle(n int, swap func(i, j int)) { global.Shuffle(n, swap) }
func Perm(n int) []int                   { return global.Perm(n) }
func Read(p []byte) (int, error)         { return global.Read(p) }
