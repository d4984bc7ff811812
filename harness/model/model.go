// Package model holds Go versions of library functions whose library bodies
// are assembler, or would make the engine fork needlessly. They are executed
// by the engine like any other code.
package model

import (
	"io"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/jart/gosip/zzv/v"
)

func lower(c byte) byte {
	return v.IteByte(v.And(c >= 'A', c <= 'Z'), c+32, c)
}

func EqualFold(s, t string) bool {
	na := false
	for i := 0; i < len(s); i++ {
		na = v.Or(na, s[i] >= utf8.RuneSelf)
	}
	for i := 0; i < len(t); i++ {
		na = v.Or(na, t[i] >= utf8.RuneSelf)
	}
	if na {
		return foldSlow(s, t)
	}
	if len(s) != len(t) {
		return false
	}
	r := true
	for i := 0; i < len(s); i++ {
		r = v.And(r, lower(s[i]) == lower(t[i]))
	}
	return r
}

func foldSlow(s, t string) bool {
	for len(s) > 0 && len(t) > 0 {
		sr, n := utf8.DecodeRuneInString(s)
		s = s[n:]
		tr, m := utf8.DecodeRuneInString(t)
		t = t[m:]
		if sr == tr {
			continue
		}
		if tr < sr {
			tr, sr = sr, tr
		}
		if tr < utf8.RuneSelf {
			if 'A' <= sr && sr <= 'Z' && tr == sr+'a'-'A' {
				continue
			}
			return false
		}
		r := unicode.SimpleFold(sr)
		for r != sr && r < tr {
			r = unicode.SimpleFold(r)
		}
		if r == tr {
			continue
		}
		return false
	}
	return len(s) == len(t)
}

func ascii(s string) bool {
	na := false
	for i := 0; i < len(s); i++ {
		na = v.Or(na, s[i] >= utf8.RuneSelf)
	}
	return !na
}

func ToLower(s string) string {
	if ascii(s) {
		b := make([]byte, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = lower(s[i])
		}
		return string(b)
	}
	var b []byte
	for _, r := range s {
		b = append(b, string(unicode.ToLower(r))...)
	}
	return string(b)
}

func ToUpper(s string) string {
	if ascii(s) {
		b := make([]byte, len(s))
		for i := 0; i < len(s); i++ {
			c := s[i]
			b[i] = v.IteByte(v.And(c >= 'a', c <= 'z'), c-32, c)
		}
		return string(b)
	}
	var b []byte
	for _, r := range s {
		b = append(b, string(unicode.ToUpper(r))...)
	}
	return string(b)
}

func eqStr(a, b string) bool {
	r := true
	for i := 0; i < len(b); i++ {
		r = v.And(r, a[i] == b[i])
	}
	return r
}

func IndexString(s, sub string) int {
	n := -1
	for i := len(s) - len(sub); i >= 0; i-- {
		n = v.IteInt(eqStr(s[i:i+len(sub)], sub), i, n)
	}
	return v.Concrete(n)
}

func Contains(s, sub string) bool {
	r := false
	for i := 0; i+len(sub) <= len(s); i++ {
		r = v.Or(r, eqStr(s[i:i+len(sub)], sub))
	}
	return r
}

func LastIndexString(s, sub string) int {
	n := -1
	for i := 0; i+len(sub) <= len(s); i++ {
		n = v.IteInt(eqStr(s[i:i+len(sub)], sub), i, n)
	}
	return v.Concrete(n)
}

func IndexByteString(s string, c byte) int {
	n := -1
	for i := len(s) - 1; i >= 0; i-- {
		n = v.IteInt(s[i] == c, i, n)
	}
	return v.Concrete(n)
}

func LastIndexByteString(s string, c byte) int {
	n := -1
	for i := 0; i < len(s); i++ {
		n = v.IteInt(s[i] == c, i, n)
	}
	return v.Concrete(n)
}

func IndexByte(s []byte, c byte) int {
	n := -1
	for i := len(s) - 1; i >= 0; i-- {
		n = v.IteInt(s[i] == c, i, n)
	}
	return v.Concrete(n)
}

func LastIndexByte(s []byte, c byte) int {
	n := -1
	for i := 0; i < len(s); i++ {
		n = v.IteInt(s[i] == c, i, n)
	}
	return v.Concrete(n)
}

func Index(s, sub []byte) int          { return IndexString(string(s), string(sub)) }
func BytesContains(s, sub []byte) bool { return Contains(string(s), string(sub)) }

func Equal(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	return eqStr(string(a), string(b))
}

func Compare(a, b []byte) int {
	x, y := string(a), string(b)
	if x < y {
		return -1
	}
	if x > y {
		return 1
	}
	return 0
}

func CountByte(s []byte, c byte) int {
	n := 0
	for i := range s {
		n += v.IteInt(s[i] == c, 1, 0)
	}
	return v.Concrete(n)
}

func CountByteString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n += v.IteInt(s[i] == c, 1, 0)
	}
	return v.Concrete(n)
}

func CountString(s, sub string) int {
	if len(sub) == 0 {
		return utf8.RuneCountInString(s) + 1
	}
	n := 0
	for i := 0; i+len(sub) <= len(s); {
		if s[i:i+len(sub)] == sub {
			n++
			i += len(sub)
		} else {
			i++
		}
	}
	return n
}

func space(c byte) bool {
	return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'
}

func TrimSpace(s string) string {
	for len(s) > 0 {
		if s[0] >= utf8.RuneSelf {
			r, n := utf8.DecodeRuneInString(s)
			if !unicode.IsSpace(r) {
				break
			}
			s = s[n:]
			continue
		}
		if !space(s[0]) {
			break
		}
		s = s[1:]
	}
	for len(s) > 0 {
		if s[len(s)-1] >= utf8.RuneSelf {
			r, n := utf8.DecodeLastRuneInString(s)
			if !unicode.IsSpace(r) {
				break
			}
			s = s[:len(s)-n]
			continue
		}
		if !space(s[len(s)-1]) {
			break
		}
		s = s[:len(s)-1]
	}
	return s
}

// ---- errors and fmt ----

type errT struct{ s string }

func (e *errT) Error() string { return e.s }

type wrapT struct {
	s string
	e error
}

func (e *wrapT) Error() string { return e.s }
func (e *wrapT) Unwrap() error { return e.e }

func ErrorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		if m, ok := err.(interface{ Unwrap() []error }); ok {
			for _, e := range m.Unwrap() {
				if e != nil && ErrorsIs(e, target) {
					return true
				}
			}
			return false
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return target == nil
}

func ErrorsAs(err error, target interface{}) bool {
	for err != nil {
		if v.AsTarget(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		if m, ok := err.(interface{ Unwrap() []error }); ok {
			for _, e := range m.Unwrap() {
				if e != nil && ErrorsAs(e, target) {
					return true
				}
			}
			return false
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return false
}

func SortSlice(x interface{}, less func(i, j int) bool) {
	n := v.SliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			v.SliceSwap(x, j, j-1)
		}
	}
}

func ReplacerReplace(r *strings.Replacer, s string) string {
	p := v.ReplacerPairs(r)
	for i := 0; i < len(p); i += 2 {
		if p[i] == "" {
			panic("replacer model: empty pattern")
		}
	}
	var b []byte
outer:
	for i := 0; i < len(s); {
		for k := 0; k < len(p); k += 2 {
			if i+len(p[k]) <= len(s) && eqStr(s[i:i+len(p[k])], p[k]) {
				b = append(b, p[k+1]...)
				i += len(p[k])
				continue outer
			}
		}
		b = append(b, s[i])
		i++
	}
	return string(b)
}

func CompareString(a, b string) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

func ReplaceAll(s, old, new string) string { return Replace(s, old, new, -1) }

func Replace(s, old, new string, n int) string {
	var b []byte
	if old == "" {
		for len(s) > 0 {
			if n == 0 {
				return string(b) + s
			}
			_, k := utf8.DecodeRuneInString(s)
			b = append(b, new...)
			b = append(b, s[:k]...)
			s = s[k:]
			n--
		}
		if n != 0 {
			b = append(b, new...)
		}
		return string(b)
	}
	for i := 0; i < len(s); {
		if n != 0 && i+len(old) <= len(s) && eqStr(s[i:i+len(old)], old) {
			b = append(b, new...)
			i += len(old)
			n--
		} else {
			b = append(b, s[i])
			i++
		}
	}
	return string(b)
}

func Errorf(format string, args ...interface{}) error {
	s := Sprintf(format, args...)
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' && format[i+1] == 'w' {
			for _, a := range args {
				if e, ok := a.(error); ok {
					return &wrapT{s, e}
				}
			}
		}
	}
	return &errT{s}
}

func isString(a interface{}) bool { _, ok := a.(string); return ok }

func Sprint(args ...interface{}) string {
	s := ""
	for i, a := range args {
		if i > 0 && !isString(a) && !isString(args[i-1]) {
			s += " "
		}
		s += show(a, 'v')
	}
	return s
}

func Sprintln(args ...interface{}) string {
	s := ""
	for i, a := range args {
		if i > 0 {
			s += " "
		}
		s += show(a, 'v')
	}
	return s + "\n"
}

func Fprintf(w io.Writer, format string, args ...interface{}) (int, error) {
	return w.Write([]byte(Sprintf(format, args...)))
}

func Fprint(w io.Writer, args ...interface{}) (int, error) {
	return w.Write([]byte(Sprint(args...)))
}

func Fprintln(w io.Writer, args ...interface{}) (int, error) {
	return w.Write([]byte(Sprintln(args...)))
}

func Appendf(b []byte, format string, args ...interface{}) []byte {
	return append(b, Sprintf(format, args...)...)
}

func Append(b []byte, args ...interface{}) []byte {
	return append(b, Sprint(args...)...)
}

func Appendln(b []byte, args ...interface{}) []byte {
	return append(b, Sprintln(args...)...)
}

// ---- sync and time ----

func PoolGet(p *sync.Pool) interface{} {
	if p.New != nil {
		return p.New()
	}
	return nil
}

func OnceFunc(f func()) func() {
	done := false
	return func() {
		if !done {
			done = true
			f()
		}
	}
}

func WaitGroupGo(wg *sync.WaitGroup, f func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		f()
	}()
}

func AfterFunc(d time.Duration, f func()) *time.Timer {
	t := time.NewTimer(d)
	go func() {
		<-t.C
		f()
	}()
	return t
}

func utoa(u uint64) string {
	return itoaU(u)
}

func show(a interface{}, verb byte) string {
	switch x := a.(type) {
	case nil:
		if verb == 'v' || verb == 's' {
			return "<nil>"
		}
		return "%!" + string(rune(verb)) + "(<nil>)"
	case error:
		if verb == 'v' || verb == 's' || verb == 'w' {
			return x.Error()
		}
	case interface{ String() string }:
		if verb == 'v' || verb == 's' {
			return x.String()
		}
	}
	switch x := a.(type) {
	case string:
		return x
	case []byte:
		if verb == 'v' {
			s := "["
			for i, c := range x {
				if i > 0 {
					s += " "
				}
				s += itoa(int64(c))
			}
			return s + "]"
		}
		return string(x)
	case bool:
		if x {
			return "true"
		}
		return "false"
	case int:
		return itoa(int64(x))
	case int8:
		return itoa(int64(x))
	case int16:
		return itoa(int64(x))
	case int32:
		return itoa(int64(x))
	case int64:
		return itoa(x)
	case uint:
		return utoa(uint64(x))
	case uint8:
		return utoa(uint64(x))
	case uint16:
		return utoa(uint64(x))
	case uint32:
		return utoa(uint64(x))
	case uint64:
		return utoa(x)
	}
	panic("fmt model: unhandled operand")
}

func Sprintf(format string, args ...interface{}) string {
	s := ""
	k := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			s += format[i:j]
			i = j - 1
			continue
		}
		i++
		if i >= len(format) {
			return s + "%!(NOVERB)"
		}
		plus, minus, sharp, zero, width, prec := false, false, false, false, 0, -1
	flags:
		for i < len(format) {
			switch format[i] {
			case '+':
				plus = true
			case '-':
				minus = true
			case '#':
				sharp = true
			case '0':
				zero = true
			default:
				break flags
			}
			i++
		}
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			width = width*10 + int(format[i]-'0')
			i++
		}
		if i < len(format) && format[i] == '.' {
			prec = 0
			i++
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				prec = prec*10 + int(format[i]-'0')
				i++
			}
		}
		if i >= len(format) {
			return s + "%!(NOVERB)"
		}
		verb := format[i]
		if verb == '%' {
			s += "%"
			continue
		}
		if k >= len(args) {
			s += "%!" + string(rune(verb)) + "(MISSING)"
			continue
		}
		a := args[k]
		k++
		t := ""
		switch verb {
		case 't':
			if _, ok := a.(bool); !ok {
				panic("fmt model: unhandled operand")
			}
			t = show(a, 'v')
		case 's', 'd', 'v', 'w':
			t = show(a, verb)
		case 'q':
			t = quote(show(a, 's'))
		case 'x', 'X':
			t = hex(a, verb == 'X')
		case 'c':
			switch x := a.(type) {
			case byte:
				t = string(rune(x))
			case rune:
				t = string(x)
			case int:
				t = string(rune(x))
			}
		case 'T':
			t = "type"
		default:
			panic("fmt model: unhandled verb")
		}
		if prec >= 0 {
			if !isString(a) || verb != 's' && verb != 'v' {
				panic("fmt model: precision")
			}
			if len(t) > prec {
				if !ascii(t) {
					panic("fmt model: precision")
				}
				t = t[:prec]
			}
		}
		if sharp {
			panic("fmt model: # flag")
		}
		if plus && verb == 'd' {
			if t[0] != '-' {
				t = "+" + t
			}
		} else if plus && verb != 'v' {
			panic("fmt model: + flag")
		}
		n := 0
		if width > 0 {
			n = width - utf8.RuneCountInString(t)
		}
		for ; n > 0; n-- {
			switch {
			case minus:
				t += " "
			case zero && len(t) > 0 && (t[0] == '-' || t[0] == '+') && verb == 'd':
				t = t[:1] + "0" + t[1:]
			case zero:
				t = "0" + t
			default:
				t = " " + t
			}
		}
		s += t
	}
	return s
}

const digits = "0123456789abcdef"
const udigits = "0123456789ABCDEF"

func hex(a interface{}, up bool) string {
	d := digits
	if up {
		d = udigits
	}
	var u uint64
	switch x := a.(type) {
	case string:
		var b []byte
		for i := 0; i < len(x); i++ {
			b = append(b, d[x[i]>>4], d[x[i]&15])
		}
		return string(b)
	case []byte:
		var b []byte
		for i := 0; i < len(x); i++ {
			b = append(b, d[x[i]>>4], d[x[i]&15])
		}
		return string(b)
	case int:
		if x < 0 {
			return "-" + hex(uint64(-x), up)
		}
		u = uint64(x)
	case byte:
		u = uint64(x)
	case uint16:
		u = uint64(x)
	case uint32:
		u = uint64(x)
	case uint64:
		u = x
	default:
		panic("fmt model: unhandled operand for x")
	}
	n := 1
	for x := u >> 4; x > 0; x >>= 4 {
		n++
	}
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = d[u&15]
		u >>= 4
	}
	return string(b)
}
