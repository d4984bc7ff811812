// Package c08: the µ-law codec.
package c08

import (
	"github.com/jart/gosip/dsp"
	"github.com/jart/gosip/zzv/v"
)

// code is G.711 µ-law compression (bias 132, clip at the top of segment 7),
// written from the Recommendation: sign, segment, interval, complemented.
func code(x int64) int64 {
	neg := x < 0
	mag := x
	if neg {
		mag = -x
	}
	if mag > 32635 || mag < 0 { // (mag < 0: the most negative int64)
		mag = 32635
	}
	mag += 132
	seg := int64(0)
	for s := int64(1); s < 8; s++ {
		if mag >= 128<<uint(s) {
			seg = s
		}
	}
	q := mag >> uint(seg+3) & 15
	c := seg<<4 | q
	if !neg {
		c |= 0x80
	}
	return c ^ 0x7f
}

// level is the reconstruction level of a code word.
func level(c int64) int64 {
	u := c ^ 0xff
	seg := uint(u >> 4 & 7)
	m := ((u&15)<<3+132)<<seg - 132
	if u&0x80 != 0 {
		return -m
	}
	return m
}

// H_Encode: every 64-bit argument.
func H_Encode() {
	v.Bound("encoding: every int64 argument")
	x := v.Int64()
	y := dsp.LinearToUlaw(x)
	v.ObsInt("code", int(y))
	v.Assert(v.And(y >= 0, y <= 255), "code word outside 0..255")
	v.Assert(y == code(x), "code word differs from G.711")
	v.Reach("encoded")
}

// H_Decode: every code word, and re-encoding.
func H_Decode() {
	v.Bound("decoding: all 256 code words")
	c := int64(v.Byte())
	x := dsp.UlawToLinear(c)
	v.ObsInt("level", int(x))
	v.Assert(x == level(c), "reconstruction level differs from G.711")
	y := dsp.LinearToUlaw(x)
	want := c
	if c == 0x7f {
		want = 0xff
	}
	v.Assert(y == want, "decoding then encoding changes the code word")
	v.Reach("decoded")
}

// H_Error: reconstruction error of every 16-bit sample within range.
func H_Error() {
	v.Bound("quantisation error: every sample in -32635..32635")
	x := int64(v.Int16())
	v.Assume(v.And(x >= -32635, x <= 32635))
	c := dsp.LinearToUlaw(x)
	y := dsp.UlawToLinear(c)
	d := x - y
	if d < 0 {
		d = -d
	}
	half := int64(4) << uint((c^0xff)>>4&7)
	v.Assert(d <= half, "reconstruction error exceeds half a step")
	v.Reach("checked")
}

// H_Monotone: encoding preserves order.
func H_Monotone() {
	v.Bound("monotonicity: every pair of int64 arguments")
	a, b := v.Int64(), v.Int64()
	v.Assume(a <= b)
	// codes ordered by the level they stand for; the two zeros are equal
	ya := level(dsp.LinearToUlaw(a))
	yb := level(dsp.LinearToUlaw(b))
	v.Assert(ya <= yb, "encoding is not monotone")
	v.Reach("checked")
}

// H_Sample: every 16-bit sample through the codec as the RTP session uses it.
func H_Sample() {
	x := v.Int16()
	c := byte(dsp.LinearToUlaw(int64(x)))
	y := int16(dsp.UlawToLinear(int64(c)))
	v.Assert(int64(c) == code(int64(x)), "truncated code word differs from G.711")
	v.Assert(int64(y) == level(code(int64(x))), "truncated level differs from G.711")
	v.Assert(v.Or(y == 0, v.Iff(x < 0, y < 0)), "sign lost")
	v.Reach("checked")
}
