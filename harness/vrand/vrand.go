// Package vrand replaces the random sources and the clock in the native
// replay, so that draws and clock readings follow the counterexample.
package vrand

import (
	"sync"
	"time"
)

var (
	mu    sync.Mutex
	Fixed bool
	V     uint64
	Grid  uint64
	N     uint64 // domain of the last draw
	Count int
	Next  func(name string) uint64 // a symbolic draw's value
	skew  time.Duration
)

func Skew(d int64) { mu.Lock(); skew += time.Duration(d); mu.Unlock() }

func Now() time.Time {
	mu.Lock()
	defer mu.Unlock()
	return time.Now().Add(skew)
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func draw(name string, n, max uint64) uint64 {
	mu.Lock()
	N = n
	if n == 0 {
		N = max
	}
	Count++
	fixed, v := Fixed, V
	mu.Unlock()
	if !fixed {
		v = Next(name)
	}
	if n != 0 && v >= n {
		v %= n
	}
	if n == 0 {
		v &= max
	}
	return v
}

func pos(n int64) uint64 {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return uint64(n)
}

func Int() int             { return int(draw("Int", 0, 1<<63-1)) }
func Int63() int64         { return int64(draw("Int63", 0, 1<<63-1)) }
func Int31() int32         { return int32(draw("Int31", 0, 1<<31-1)) }
func Uint32() uint32       { return uint32(draw("Uint32", 0, 1<<32-1)) }
func Uint64() uint64       { return draw("Uint64", 0, 1<<64-1) }
func Intn(n int) int       { return int(draw("Intn", pos(int64(n)), 0)) }
func IntN(n int) int       { return int(draw("IntN", pos(int64(n)), 0)) }
func Int31n(n int32) int32 { return int32(draw("Int31n", pos(int64(n)), 0)) }
func Int63n(n int64) int64 { return int64(draw("Int63n", pos(n), 0)) }
func Int32N(n int32) int32 { return int32(draw("Int32N", pos(int64(n)), 0)) }
func Int64N(n int64) int64 { return int64(draw("Int64N", pos(n), 0)) }
func Uint32n(n uint32) uint32 {
	if n == 0 {
		return 0
	}
	return uint32(draw("Uint32n", uint64(n), 0))
}
func Uint64n(n uint64) uint64 {
	if n == 0 {
		return 0
	}
	return draw("Uint64n", n, 0)
}
func Uint32N(n uint32) uint32 { return Uint32n(n) }
func Uint64N(n uint64) uint64 { return Uint64n(n) }
func Float64() float64 {
	mu.Lock()
	defer mu.Unlock()
	if !Fixed || Grid == 0 {
		return 0.5
	}
	N = 0
	Count++
	return (float64(V%Grid) + 0.5) / float64(Grid)
}
func Float32() float32 { return float32(Float64()) }
func Seed(int64)       {}

// Rand is what New makes.
type Rand struct{}
type Source interface{}

func NewSource(int64) Source       { return nil }
func New(Source) *Rand             { return &Rand{} }
func (*Rand) Int() int             { return Int() }
func (*Rand) Intn(n int) int       { return Intn(n) }
func (*Rand) Int31n(n int32) int32 { return Int31n(n) }
func (*Rand) Int63n(n int64) int64 { return Int63n(n) }
func (*Rand) Uint32() uint32       { return Uint32() }
func (*Rand) Float64() float64     { return Float64() }
func (*Rand) Int63() int64         { return Int63() }
