// Package c07: saturating audio mixing.
package c07

import (
	"github.com/jart/gosip/dsp"
	"github.com/jart/gosip/zzv/v"
)

const pad = 16

func samples(n int) []int16 {
	s := make([]int16, n)
	for i := range s {
		s[i] = v.Int16()
	}
	return s
}

// clamped states that r is a+b clamped to the int16 range.
func clamped(r, a, b int16) bool {
	s := int32(a) + int32(b)
	return v.And(v.Implies(s > 32767, r == 32767), v.And(v.Implies(s < -32768, r == -32768),
		v.Implies(v.And(s <= 32767, s >= -32768), int32(r) == s)))
}

// lanes asserts clamped for all samples.
func lanes(r, a, b []int16, msg string) {
	for i := 0; i < 160; i++ {
		v.Assert(clamped(r[i], a[i], b[i]), msg)
	}
}

// H_Mix: two distinct frames at every pair of 2-byte aligned positions.
func H_Mix() {
	od := v.Case(8)
	os := v.Case(8)
	v.Bound("mixing: all sample values in all 160 lanes; both frames at every multiple of 2 modulo 16; 16 guard samples on both sides of each frame")
	d := samples(pad + 160 + pad)
	s := samples(pad + 160 + pad)
	d0 := append([]int16(nil), d...)
	s0 := append([]int16(nil), s...)
	dsp.L16MixSat160(&d[od], &s[os])
	for i := range s {
		v.Assert(s[i] == s0[i], "mixing changes the source frame or memory around it")
	}
	for i := range d {
		if i < od || i >= od+160 {
			v.Assert(d[i] == d0[i], "mixing changes memory outside the destination frame")
		}
	}
	lanes(d[od:], d0[od:], s0[os:], "mixed sample is not the saturated sum")
	v.Reach("mixed")
}

// H_Same: one frame as both operands.
func H_Same() {
	o := v.Case(8)
	v.Bound("mixing a frame with itself: all sample values, every multiple of 2 modulo 16")
	d := samples(pad + 160 + pad)
	d0 := append([]int16(nil), d...)
	dsp.L16MixSat160(&d[o], &d[o])
	for i := range d {
		if i < o || i >= o+160 {
			v.Assert(d[i] == d0[i], "mixing changes memory outside the destination frame")
		}
	}
	lanes(d[o:], d0[o:], d0[o:], "frame mixed with itself is not the saturated double")
	v.Reach("mixed")
}

// H_Arrays: frames as fields and array values, the way an application holds
// them.
func H_Arrays() {
	v.Bound("frames inside a structure after an odd number of 16-bit fields, and as separate heap arrays")
	type holder struct {
		tag int16
		f   [160]int16
		end int16
	}
	var h holder
	g := new([160]int16)
	h.tag, h.end = v.Int16(), v.Int16()
	tag, end := h.tag, h.end
	for i := range h.f {
		h.f[i], g[i] = v.Int16(), v.Int16()
	}
	f0, g0 := h.f, *g
	if v.Choose(2) == 0 {
		dsp.L16MixSat160(&g[0], &h.f[0])
		lanes(g[:], g0[:], f0[:], "mixed sample is not the saturated sum")
		for i := range g {
			v.Assert(h.f[i] == f0[i], "mixing changes the source frame")
		}
	} else {
		dsp.L16MixSat160(&h.f[0], &g[0])
		lanes(h.f[:], f0[:], g0[:], "mixed sample is not the saturated sum")
		for i := range g {
			v.Assert(g[i] == g0[i], "mixing changes the source frame")
		}
	}
	v.Assert(v.And(h.tag == tag, h.end == end), "mixing changes neighbouring fields")
	v.Reach("mixed")
}
