// Package rand stands in for math/rand: every result is arbitrary in
// range unless a fixed sequence is asked for.
package rand

import "github.com/jart/gosip/zzv/v"

// Sequence makes the results a fixed sequence.
var Sequence bool

var drawn uint64

// Restart starts the fixed sequence again.
func Restart() { Sequence, drawn = true, 0 }

func Uint64() uint64 {
	if Sequence {
		drawn++
		return drawn * 0x9e3779b97f4a7c15
	}
	return v.Uint64()
}

func Uint32() uint32 {
	if Sequence {
		return uint32(Uint64() >> 32)
	}
	return v.Uint32()
}

func Int63() int64 {
	if Sequence {
		return int64(Uint64() >> 1)
	}
	n := v.Int64()
	v.Assume(n >= 0)
	return n
}

func Int() int { return int(Int63()) }

func Int31() int32 {
	if Sequence {
		return int32(Uint64() >> 33)
	}
	n := v.Int32()
	v.Assume(n >= 0)
	return n
}

func Int63n(max int64) int64 {
	if max <= 0 {
		panic("invalid argument to Int63n")
	}
	if Sequence {
		return Int63() % max
	}
	n := v.Int64()
	v.Assume(v.And(n >= 0, n < max))
	return n
}

func Intn(max int) int {
	if max <= 0 {
		panic("invalid argument to Intn")
	}
	return int(Int63n(int64(max)))
}

func Int31n(max int32) int32 { return int32(Int63n(int64(max))) }

func Seed(int64) {}

func Float64() float64 {
	if Sequence {
		return float64(Uint64()>>11) / (1 << 53)
	}
	f := v.Float64()
	v.Assume(v.And(f >= 0, f < 1))
	return f
}

// Source and Rand exist so that code which carries its own generator compiles;
// their results are just as arbitrary.
type Source interface {
	Int63() int64
	Seed(seed int64)
}

type source struct{}

func (source) Int63() int64    { return Int63() }
func (source) Uint64() uint64  { return Uint64() }
func (source) Seed(seed int64) {}

func NewSource(seed int64) Source { return source{} }

type Rand struct{ src Source }

func New(src Source) *Rand { return &Rand{src} }

func (r *Rand) Uint32() uint32                     { return Uint32() }
func (r *Rand) Uint64() uint64                     { return Uint64() }
func (r *Rand) Int63() int64                       { return Int63() }
func (r *Rand) Int31() int32                       { return Int31() }
func (r *Rand) Int() int                           { return Int() }
func (r *Rand) Intn(n int) int                     { return Intn(n) }
func (r *Rand) Int31n(n int32) int32               { return Int31n(n) }
func (r *Rand) Int63n(n int64) int64               { return Int63n(n) }
func (r *Rand) Float64() float64                   { return Float64() }
func (r *Rand) Seed(int64)                         {}
func (r *Rand) Read(b []byte) (int, error)         { return Read(b) }
func (r *Rand) Perm(n int) []int                   { return Perm(n) }
func (r *Rand) Shuffle(n int, swap func(i, j int)) { Shuffle(n, swap) }

func Read(b []byte) (int, error) {
	for i := range b {
		if Sequence {
			b[i] = byte(Uint64() >> 32)
		} else {
			b[i] = v.Byte()
		}
	}
	return len(b), nil
}

func Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	Shuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}

func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		if Sequence {
			swap(i, Intn(i+1))
		} else {
			swap(i, v.Choose(i+1))
		}
	}
}
