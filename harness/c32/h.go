// Package c32: generated identifiers are well formed for all random bytes.
package c32

import (
	"github.com/jart/gosip/util"
	rand "github.com/jart/gosip/zzv/crand"
	"github.com/jart/gosip/zzv/ref"
	"github.com/jart/gosip/zzv/v"
)

func bound() {
	v.Bound("all values of the random octets and numbers (no bound); origin IDs: all numbers below 10000 and windows of 4 digits in greater ones")
}

// draw runs f and returns what it drew.
func draw(f func() string) (s string, drawn []byte) {
	rand.Sequence, rand.Fail = false, false
	rand.Record = true
	rand.Drawn = nil
	s = f()
	return s, rand.Drawn
}

func hexDigit(c byte) bool { return v.Or(ref.Digit(c), v.And(c >= 'a', c <= 'f')) }

// encodes tells whether the hex digits of s encode 4*len(s) bits drawn: two
// draws give the same text only when they agree.
func injective(f func() string, bits int) {
	a, x := draw(f)
	b, y := draw(f)
	v.Assert(len(x) == len(y) && len(x)*8 >= bits, "too few random bits")
	same, eq := true, len(a) == len(b)
	for i := range x {
		if i < len(y) {
			same = v.And(same, x[i] == y[i])
		}
	}
	for i := range a {
		if i < len(b) {
			eq = v.And(eq, a[i] == b[i])
		}
	}
	if len(x)*8 == bits {
		v.Assert(v.Implies(eq, same), "different random octets give the same identifier")
	}
	v.Assert(v.Implies(same, eq), "the same random octets give different identifiers")
}

func tag(s string) {
	v.Assert(len(s) == 12, "length of the tag")
	ok := true
	for i := 0; i < len(s); i++ {
		ok = v.And(ok, hexDigit(s[i]))
	}
	v.Assert(ok, "the tag is not lower-case hex")
}

// H_Tag: tags.
func H_Tag() {
	bound()
	s, _ := draw(util.GenerateTag)
	tag(s)
	injective(util.GenerateTag, 48)
}

// H_Branch: branches.
func H_Branch() {
	bound()
	s, _ := draw(util.GenerateBranch)
	v.Assert(len(s) == 8+12 && s[:8] == "z9hG4bK-", "the branch does not begin with the magic cookie")
	tag(s[8:])
	injective(util.GenerateBranch, 48)
}

// H_CallID: Call-IDs.
func H_CallID() {
	bound()
	s, _ := draw(util.GenerateCallID)
	v.Assert(len(s) == 36, "length of the Call-ID")
	if len(s) != 36 {
		return
	}
	ok := true
	for i := 0; i < len(s); i++ {
		switch i {
		case 8, 13, 18, 23:
			ok = v.And(ok, s[i] == '-')
		case 14:
			ok = v.And(ok, s[i] == '4')
		case 19:
			ok = v.And(ok, ref.In(s[i], "89ab"))
		default:
			ok = v.And(ok, hexDigit(s[i]))
		}
	}
	v.Assert(ok, "the Call-ID is no version-4 UUID")
	injective(util.GenerateCallID, 120)
}

// H_CSeq: sequence numbers.
func H_CSeq() {
	bound()
	rand.Sequence, rand.Fail = false, false
	n, m := 0, 0
	n = util.GenerateCSeq()
	v.Assert(v.And(n >= 1, n <= 50000), "CSeq out of range")
	rand.Numbers = nil
	n, m = util.GenerateCSeq(), util.GenerateCSeq()
	v.Assert(len(rand.Numbers) == 2, "CSeq not random")
	if len(rand.Numbers) == 2 {
		v.Assert(v.Iff(n == m, rand.Numbers[0] == rand.Numbers[1]), "CSeq does not follow the random number")
	}
}

// H_OriginID: SDP origin IDs.
func H_OriginID() {
	bound()
	rand.Sequence, rand.Fail = false, false
	rand.Numbers = nil
	k := v.Case(11)
	lo, hi := int64(1), int64(10)
	for i := 1; i < k; i++ {
		lo, hi = hi, hi*10
	}
	if k == 0 {
		lo, hi = 0, 1
	}
	if hi > 1<<32 {
		hi = 1 << 32
	}
	if k > 4 {
		lo = []int64{lo, hi - 10000}[v.Choose(2)]
		hi = lo + 10000
	}
	rand.Within = func(n int64) bool { return v.And(n >= lo, n < hi) }
	s := util.GenerateOriginID()
	rand.Within = nil
	v.Assert(len(rand.Numbers) == 1, "origin ID not random")
	v.Assert(len(s) > 0 && len(s) <= 10, "length of the origin ID")
	ok, x := true, int64(0)
	for i := 0; i < len(s); i++ {
		ok = v.And(ok, ref.Digit(s[i]))
		x = x*10 + int64(s[i]-'0')
	}
	v.Assert(ok, "the origin ID is no number")
	if len(rand.Numbers) == 1 {
		v.Assert(v.And(x == rand.Numbers[0], x < 1<<32), "the origin ID is not the random number")
	}
}

// H_NoEntropy: without randomness there is no identifier.
func H_NoEntropy() {
	bound()
	rand.Sequence, rand.Fail = false, true
	got := true
	func() {
		defer func() {
			if recover() != nil {
				got = false
			}
		}()
		switch v.Case(5) {
		case 0:
			util.GenerateTag()
		case 1:
			util.GenerateBranch()
		case 2:
			util.GenerateCallID()
		case 3:
			util.GenerateCSeq()
		case 4:
			util.GenerateOriginID()
		}
	}()
	rand.Fail = false
	v.Assert(!got, "an identifier was generated without randomness")
}
