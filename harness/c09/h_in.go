package c09

import (
	"math"

	"github.com/jart/gosip/dsp"
	"github.com/jart/gosip/zzv/v"
)

const (
	m1 = 259200
	m2 = 134456
	m3 = 243000
)

func inside(x, m int64) bool { return v.And(x >= 0, x < m) }

// arbitrary returns a generator in an arbitrary state satisfying the
// invariant.
func arbitrary() *dsp.AWGN {
	s := new(dsp.AWGN)
	ix1, ix2, ix3, _, _, _, _ := dsp.ZZState(s)
	*ix1, *ix2, *ix3 = v.Int64(), v.Int64(), v.Int64()
	v.Assume(v.And(inside(*ix1, m1), v.And(inside(*ix2, m2), inside(*ix3, m3))))
	return s
}

func invariant(s *dsp.AWGN, when string) {
	ix1, ix2, ix3, _, _, _, _ := dsp.ZZState(s)
	v.Assert(inside(*ix1, m1), "first congruential state outside its modulus "+when)
	v.Assert(inside(*ix2, m2), "second congruential state outside its modulus "+when)
	v.Assert(inside(*ix3, m3), "third congruential state outside its modulus "+when)
}

// H_Init: the constructor establishes the invariant for every seed.
func H_Init() {
	v.Bound("generator construction: every int64 seed")
	seed := v.Int64()
	v.AbstractRem(true)
	s := dsp.NewAWGN_DBOV(seed, -50)
	invariant(s, "after construction")
	v.Reach("constructed")
}

// H_Step: one step of the uniform generator from every state keeps the
// invariant, stays inside the table and returns a table entry.
func H_Step() {
	v.Bound("uniform generator: one step from every state inside the moduli (inductive), table entries arbitrary but distinct constants")
	s := arbitrary()
	_, _, _, r, _, _, _ := dsp.ZZState(s)
	for i := range r {
		r[i] = float64(i) / 128
	}
	x := dsp.ZZRan1(s)
	v.Assert(x > 0, "uniform value is not one of the table entries 1..97")
	v.Assert(x <= 97.0/128, "uniform value is not one of the table entries 1..97")
	invariant(s, "after a step")
	v.Reach("stepped")
}

// H_Twice: two generators in the same state make the same step.
func H_Twice() {
	v.Bound("determinism of a step: every state, constant table")
	a, b := arbitrary(), new(dsp.AWGN)
	*b = *a
	_, _, _, ra, _, _, _ := dsp.ZZState(a)
	_, _, _, rb, _, _, _ := dsp.ZZState(b)
	for i := range ra {
		ra[i], rb[i] = 0.75, 0.75
	}
	x := dsp.ZZRan1(a)
	y := dsp.ZZRan1(b)
	v.Assert(x == y, "same state, different values")
	a1, a2, a3, _, _, _, _ := dsp.ZZState(a)
	b1, b2, b3, _, _, _, _ := dsp.ZZState(b)
	v.Assert(v.And(*a1 == *b1, v.And(*a2 == *b2, *a3 == *b3)), "same state, different next states")
	v.Reach("compared")
}

// trunc is the integer part of a float64, below 2^15 in magnitude, from its
// IEEE 754 fields.
func trunc(b uint64) int64 {
	e := b >> 52 & 0x7ff
	m := b&(1<<52-1) | 1<<52
	n := int64(0)
	for k := uint64(1023); k < 1038; k++ {
		n = int64(v.IteInt(e == k, int(m>>(1075-k)), int(n)))
	}
	return int64(v.IteInt(b>>63 == 1, int(-n), int(n)))
}

// H_Saturate: amplitudes are clamped or truncated.
func H_Saturate() {
	v.Bound("amplitude conversion: every float64 except NaN, directly and through the stored second sample (arbitrary stored value, level 1)")
	bits := v.Uint64()
	x := math.Float64frombits(bits)
	v.Assume(x == x)
	var y int16
	if v.Choose(2) == 0 {
		y = dsp.ZZSaturate(x)
	} else {
		s := new(dsp.AWGN)
		_, _, _, _, gset, rms, iset := dsp.ZZState(s)
		*gset, *rms, *iset = x, 1, 1
		y = s.Get()
		v.Assert(*iset == 0, "stored sample used twice")
	}
	if x >= 32767 {
		v.Assert(y == 32767, "amplitude above the range not clamped")
		v.Reach("high")
	} else if x <= -32768 {
		v.Assert(y == -32768, "amplitude below the range not clamped")
		v.Reach("low")
	} else {
		v.Assert(int64(y) == trunc(bits), "amplitude not truncated toward zero")
		v.Reach("inside")
	}
}
