// Package c09: the comfort noise generator.
package c09

import (
	"github.com/jart/gosip/dsp"
	"github.com/jart/gosip/zzv/v"
)

// H_Deterministic: equal seeds and levels give equal samples whatever else
// runs in between.
func H_Deterministic() {
	v.Bound("determinism: 8 samples of two interleaved generators and of a third created afterwards; seeds 0, 1, 7162534, -7162534, the int64 extremes and their neighbours; levels -50, -90, 0 and +40")
	seeds := []int64{0, 1, 7162534, -7162534, 1<<63 - 1, 1<<63 - 2, -1 << 63, -1<<63 + 1, 1<<63 - 54774}
	levels := []float64{-50, -90, 0, 40}
	s := seeds[v.Case(len(seeds))]
	l := levels[v.Choose(len(levels))]
	a := dsp.NewAWGN_DBOV(s, l)
	b := dsp.NewAWGN_DBOV(s, l)
	v.Assert(a != nil && b != nil, "no generator")
	var got [8]int16
	for i := range got {
		got[i] = a.Get()
		v.Assert(b.Get() == got[i], "equal generators differ")
	}
	c := dsp.NewAWGN_DBOV(s, l)
	for i := range got {
		v.Assert(c.Get() == got[i], "a later generator with the same seed differs")
	}
	v.Reach("compared")
}

// H_Wrappers: the convenience constructors agree with each other.
func H_Wrappers() {
	a := dsp.NewAWGN(-50)
	b := dsp.NewAWGN_DBM0(7162534, -50)
	c := dsp.NewAWGN_DBOV(7162534, -50-(3.14+3.02))
	for i := 0; i < 6; i++ {
		x := a.Get()
		v.ObsInt("sample", int(x))
		v.Assert(b.Get() == x, "NewAWGN and NewAWGN_DBM0 disagree")
		v.Assert(c.Get() == x, "NewAWGN and NewAWGN_DBOV disagree")
	}
	v.Reach("compared")
}
