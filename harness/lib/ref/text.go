package ref

import "github.com/jart/gosip/zzv/v"

// runeLen is the length of the RFC 3629 sequence at s[i], or 0.
func runeLen(s string, i int) int {
	tail := func(k int) bool { return v.And(s[i+k] >= 0x80, s[i+k] <= 0xBF) }
	c := s[i]
	if c < 0x80 {
		return 1
	}
	if i+1 < len(s) && v.And(v.And(c >= 0xC2, c <= 0xDF), tail(1)) {
		return 2
	}
	if i+2 < len(s) {
		lo := v.Or(v.And(c == 0xE0, s[i+1] >= 0xA0), v.And(c == 0xED, s[i+1] <= 0x9F))
		any := v.Or(v.And(c >= 0xE1, c <= 0xEC), v.Or(c == 0xEE, c == 0xEF))
		if v.And(v.Or(lo, any), v.And(tail(1), tail(2))) {
			return 3
		}
	}
	if i+3 < len(s) {
		lo := v.Or(v.And(c == 0xF0, s[i+1] >= 0x90), v.And(c == 0xF4, s[i+1] <= 0x8F))
		if v.And(v.Or(lo, v.And(c >= 0xF1, c <= 0xF3)), v.And(tail(1), v.And(tail(2), tail(3)))) {
			return 4
		}
	}
	return 0
}

// Quotable reports whether s can be carried in a quoted string: UTF-8 whose
// line breaks are all folds.
func Quotable(s string) bool {
	for i := 0; i < len(s); {
		if s[i] == '\n' {
			return false
		}
		if s[i] == '\r' {
			if i+2 >= len(s) || s[i+1] != '\n' || !wsp(s[i+2]) {
				return false
			}
			i += 2
			continue
		}
		n := runeLen(s, i)
		if n == 0 {
			return false
		}
		i += n
	}
	return true
}

// HeaderText reports whether s can be a raw header value: printable ASCII
// (DEL included), tabs, spaces, folds and UTF-8, not starting with white
// space or a fold.
func HeaderText(s string) bool {
	for i := 0; i < len(s); {
		c := s[i]
		if c == '\r' {
			if i == 0 || i+2 >= len(s) || s[i+1] != '\n' || !wsp(s[i+2]) {
				return false
			}
			i += 2
			continue
		}
		if v.And(c < 0x20, c != '\t') || i == 0 && wsp(c) {
			return false
		}
		n := runeLen(s, i)
		if n == 0 {
			return false
		}
		i += n
	}
	return true
}

// Folded reports whether every line break of s is a fold.
func Folded(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		if i+2 < len(s) {
			ok = v.And(ok, v.Implies(s[i] == '\r', v.And(s[i+1] == '\n', wsp(s[i+2]))))
		} else {
			ok = v.And(ok, s[i] != '\r')
		}
		if i > 0 {
			ok = v.And(ok, v.Implies(s[i] == '\n', s[i-1] == '\r'))
		} else {
			ok = v.And(ok, s[i] != '\n')
		}
	}
	return ok
}
