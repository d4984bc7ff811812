// Package c11: URI formatting and parsing are inverse.
package c11

import (
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zzv/ref"
	"github.com/jart/gosip/zzv/v"
)

func check(u *sip.URI) {
	s := u.String()
	v.Obs("text", s)
	ok := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		ok = v.And(ok, v.Or(ref.Alnum(c), ref.In(c, "-_.!~*'();/?:@&=+$,%[]")))
	}
	v.Assert(ok, "text contains an octet that is not a URI character")
	got, err := sip.ParseURI([]byte(s))
	v.Assert(err == nil, "formatted URI does not parse")
	if err != nil || got == nil {
		return
	}
	v.Reach("round trip")
	v.Assert(got.Scheme == u.Scheme, "scheme changed")
	v.Assert(got.User == u.User, "user changed")
	v.Assert(got.Pass == u.Pass, "password changed")
	v.Assert(got.Host == u.Host, "host changed")
	v.Assert(got.Port == u.Port, "port changed")
	v.Assert(ref.URIEqual(got, u), "parameters or headers changed")
}

func word(n int, class func(byte) bool) string {
	b := v.Bytes(n)
	for i := range b {
		v.Assume(v.And(class(b[i]), (!v.And(b[i] >= 'A', b[i] <= 'Z'))))
	}
	return string(b)
}

// host is any of the host forms.
func host(n int) string {
	if v.Choose(2) == 0 {
		return word(n, ref.HostC)
	}
	h := word(n, ref.Host6C)
	k := v.Choose(n)
	v.Assume(h[k] == ':')
	return h
}

// H_UserPass: arbitrary octets in user and password.
func H_UserPass() {
	n := 3
	if v.Thorough() {
		n = 5
	}
	v.Bound("users and passwords of up to 3 (quick) or 5 (thorough) arbitrary octets together")
	a, b := v.Case(n+1), v.Case(n+1)
	if a+b > n {
		v.Skip()
	}
	u := &sip.URI{Scheme: "sip", User: v.Str(a), Host: "h"}
	if a > 0 {
		u.Pass = v.Str(b)
	}
	switch v.Choose(3) {
	case 1:
		u.Port = 5070
		u.Param = &sip.URIParam{Name: "p", Value: "@"}
	case 2:
		u.Host = "::1"
		u.Header = &sip.URIHeader{Name: "h@", Value: ":"}
	}
	check(u)
}

// H_SchemeHost: every scheme and host.
func H_SchemeHost() {
	n := 3
	if v.Thorough() {
		n = 5
	}
	v.Bound("schemes of 1..3 (5), names, IPv4 and IPv6 hosts of 1..3 (5) octets, all ports")
	a, b := 1+v.Case(n), 1+v.Case(n)
	s := v.Bytes(a)
	for i := range s {
		v.Assume(v.And(ref.SchemeC(s[i]), (!v.And(s[i] >= 'A', s[i] <= 'Z'))))
	}
	v.Assume(ref.Alpha(s[0]))
	u := &sip.URI{Scheme: string(s), Host: host(b), Port: v.Uint16()}
	if v.Choose(2) == 1 {
		u.User = "u"
	}
	check(u)
}

func params(n, l int) *sip.URIParam {
	var p *sip.URIParam
	for i := 0; i < n; i++ {
		p = &sip.URIParam{Name: v.Str(1 + v.Choose(l)), Value: v.StrUpTo(l), Next: p}
	}
	return p
}

func headers(n, l int) *sip.URIHeader {
	var p *sip.URIHeader
	for i := 0; i < n; i++ {
		p = &sip.URIHeader{Name: v.Str(1 + v.Choose(l)), Value: v.StrUpTo(l), Next: p}
	}
	return p
}

// H_Params, H_Headers: arbitrary octets in names and values.
func H_Params() {
	l := 1
	if v.Thorough() {
		l = 2
	}
	v.Bound("one parameter or header with name of 1..3 (quick) or 1..4 (thorough) and value of 0..3 (0..4) arbitrary octets; two with names and values up to 1 (2) octets; three with 1")
	u := &sip.URI{Scheme: "sip", Host: "h"}
	switch v.Case(6) {
	case 0:
		u.Param = params(1, l+2)
	case 1:
		u.Param = params(2, l)
	case 2:
		u.Param = &sip.URIParam{Name: "a", Value: v.Str(1), Next: &sip.URIParam{Name: v.Str(1), Next: params(1, 1)}}
	case 3:
		u.Header = headers(1, l+2)
	case 4:
		u.Header = headers(2, l)
	case 5:
		u.Header = &sip.URIHeader{Name: "a", Value: v.Str(1), Next: &sip.URIHeader{Name: v.Str(1), Next: headers(1, 1)}}
	}
	if v.Choose(2) == 1 {
		u.User = "u@"
	}
	check(u)
}

// H_All: one arbitrary octet in every component at once.
func H_All() {
	v.Bound("all components present or absent, one arbitrary octet each")
	u := &sip.URI{Scheme: "sip", Host: "h", Port: uint16(v.Choose(2)) * 65535}
	m := v.Case(16)
	if m&1 != 0 {
		u.User = v.Str(1)
		if v.Choose(2) == 1 {
			u.Pass = v.Str(1)
		}
	}
	if m&2 != 0 {
		u.Param = &sip.URIParam{Name: v.Str(1), Value: v.Str(1)}
	}
	if m&4 != 0 {
		u.Header = &sip.URIHeader{Name: v.Str(1), Value: v.Str(1)}
	}
	if m&8 != 0 {
		u.Host = word(1, ref.Host6C) + ":" + word(1, ref.Host6C)
	}
	check(u)
}

// H_Default: an empty scheme is written as sip, nil formats to nothing.
func H_Default() {
	var nilURI *sip.URI
	v.Assert(nilURI.String() == "", "nil URI formats to text")
	u := &sip.URI{Host: "h", User: v.StrUpTo(1)}
	got, err := sip.ParseURI([]byte(u.String()))
	v.Assert(err == nil, "URI without scheme does not parse")
	if err != nil {
		return
	}
	w := *u
	w.Scheme = "sip"
	v.Assert(ref.URIEqual(got, &w), "URI without scheme does not default to sip")
}
