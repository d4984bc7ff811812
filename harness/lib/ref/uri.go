// Package ref holds reference models written from the documented grammars,
// independently of the code under test.
package ref

import (
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zzv/v"
)

// Character classes of the URI grammar, written without forking.
// In reports whether c is one of set.
func In(c byte, set string) bool {
	r := false
	for i := 0; i < len(set); i++ {
		r = v.Or(r, c == set[i])
	}
	return r
}
func Digit(c byte) bool { return v.And(c >= '0', c <= '9') }
func Alpha(c byte) bool { return v.Or(v.And(c >= 'a', c <= 'z'), v.And(c >= 'A', c <= 'Z')) }
func Alnum(c byte) bool { return v.Or(Alpha(c), Digit(c)) }
func Xdigit(c byte) bool {
	return v.Or(Digit(c), v.Or(v.And(c >= 'a', c <= 'f'), v.And(c >= 'A', c <= 'F')))
}
func Lower(c byte) byte {
	return v.IteByte(v.And(c >= 'A', c <= 'Z'), c+32, c)
}
func Hexval(c byte) byte {
	return v.IteByte(Digit(c), c-'0', v.IteByte(c >= 'a', c-'a'+10, c-'A'+10))
}
func unreserved(c byte) bool { return v.Or(Alnum(c), In(c, "-_.!~*'()")) }
func SchemeC(c byte) bool    { return v.Or(Alnum(c), In(c, "+-.")) }
func UserC(c byte) bool      { return v.Or(unreserved(c), In(c, "&=+$,;?/")) }
func PassC(c byte) bool      { return v.Or(unreserved(c), In(c, "&=+$,")) }
func ParamC(c byte) bool     { return v.Or(unreserved(c), In(c, "[]/:&+$")) }
func HeaderC(c byte) bool    { return v.Or(unreserved(c), In(c, "[]/?:+$")) }
func HostC(c byte) bool      { return v.Or(Alnum(c), In(c, "-.+")) }
func Host6C(c byte) bool     { return v.Or(Xdigit(c), In(c, ".:")) }

type scan struct {
	b []byte
	p int
}

func (s *scan) is(c byte) bool {
	if s.p < len(s.b) && s.b[s.p] == c {
		s.p++
		return true
	}
	return false
}

// run reads octets of a class, lower-cased.
func (s *scan) run(class func(byte) bool) string {
	var o []byte
	for s.p < len(s.b) && class(s.b[s.p]) {
		o = append(o, Lower(s.b[s.p]))
		s.p++
	}
	return string(o)
}

// esc reads octets of a class and percent escapes, decoded.
func (s *scan) esc(class func(byte) bool) (string, bool) {
	var o []byte
	for s.p < len(s.b) {
		c := s.b[s.p]
		if c == '%' {
			if s.p+2 >= len(s.b) || !v.And(Xdigit(s.b[s.p+1]), Xdigit(s.b[s.p+2])) {
				return "", false
			}
			o = append(o, Hexval(s.b[s.p+1])*16+Hexval(s.b[s.p+2]))
			s.p += 3
			continue
		}
		if !class(c) {
			break
		}
		o = append(o, c)
		s.p++
	}
	return string(o), len(o) > 0
}

func (s *scan) key(class func(byte) bool) (k, val string, ok bool) {
	k, ok = s.esc(class)
	if ok && s.is('=') {
		val, ok = s.esc(class)
	}
	return
}

// URI parses the grammar of uri_parse.rl; nil means not a URI.
func URI(b []byte) *sip.URI {
	s := &scan{b, 0}
	u := new(sip.URI)
	if len(b) == 0 || !Alpha(b[0]) {
		return nil
	}
	u.Scheme = s.run(SchemeC)
	if !s.is(':') {
		return nil
	}
	at := false
	for _, c := range b {
		at = v.Or(at, c == '@')
	}
	ok := true
	if at {
		if u.User, ok = s.esc(UserC); !ok {
			return nil
		}
		if s.is(':') {
			if u.Pass, ok = s.esc(PassC); !ok {
				return nil
			}
		}
		if !s.is('@') {
			return nil
		}
	}
	if s.is('[') {
		u.Host = s.run(Host6C)
		if !s.is(']') {
			return nil
		}
	} else {
		u.Host = s.run(HostC)
	}
	if u.Host == "" {
		return nil
	}
	if s.is(':') {
		n, d := 0, 0
		for s.p < len(b) && Digit(b[s.p]) {
			n = v.IteInt(n > 65535, n, n*10+int(b[s.p]-'0'))
			d++
			s.p++
		}
		if d == 0 || n > 65535 {
			return nil
		}
		u.Port = uint16(n)
	}
	for s.is(';') {
		k, val, ok := s.key(ParamC)
		if !ok {
			return nil
		}
		u.Param = &sip.URIParam{Name: k, Value: val, Next: u.Param}
	}
	if s.is('?') {
		for {
			k, val, ok := s.key(HeaderC)
			if !ok {
				return nil
			}
			u.Header = &sip.URIHeader{Name: k, Value: val, Next: u.Header}
			if !s.is('&') {
				break
			}
		}
	}
	if s.p != len(b) {
		return nil
	}
	return u
}

// URIEqual compares every part.
func URIEqual(a, b *sip.URI) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	r := v.And(a.Scheme == b.Scheme, v.And(a.User == b.User, v.And(a.Pass == b.Pass, v.And(a.Host == b.Host, a.Port == b.Port))))
	p, q := a.Param, b.Param
	for p != nil && q != nil {
		r = v.And(r, v.And(p.Name == q.Name, p.Value == q.Value))
		p, q = p.Next, q.Next
	}
	if p != nil || q != nil {
		return false
	}
	h, k := a.Header, b.Header
	for h != nil && k != nil {
		r = v.And(r, v.And(h.Name == k.Name, h.Value == k.Value))
		h, k = h.Next, k.Next
	}
	if h != nil || k != nil {
		return false
	}
	return r
}
