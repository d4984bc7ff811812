package dsp

// ZZState gives the harness access to the generator's state.
func ZZState(s *AWGN) (ix1, ix2, ix3 *int64, r []float64, gset, rms *float64, iset *int) {
	return &s.ix1, &s.ix2, &s.ix3, s.r[:], &s.gset, &s.rms, &s.iset
}

// ZZRan1 steps the uniform generator.
func ZZRan1(s *AWGN) float64 { return s.ran1() }

// ZZSaturate converts an amplitude.
func ZZSaturate(x float64) int16 { return fsaturate(x) }
