// Package c10: the URI parser.
package c10

import (
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zzv/ref"
	"github.com/jart/gosip/zzv/v"
)

func check(b []byte) {
	in := append([]byte{}, b...)
	got, err := sip.ParseURI(b)
	v.Assert((got == nil) != (err == nil), "neither or both of URI and error returned")
	for i := range b {
		v.Assert(b[i] == in[i], "input modified")
	}
	want := ref.URI(in)
	if want == nil {
		v.Reach("refused")
		v.Assert(got == nil, "accepted text that is not a URI of the grammar")
		v.Assert(err != nil, "no error for text that is not a URI")
		if err != nil {
			v.Obs("err", err.Error())
		}
		return
	}
	v.Reach("accepted")
	v.Assert(got != nil, "URI of the grammar refused")
	if got == nil {
		return
	}
	v.Assert(v.And(len(got.Scheme) > 0, len(got.Host) > 0), "empty scheme or host")
	v.Assert(got.Scheme == want.Scheme, "scheme")
	v.Assert(got.User == want.User, "user")
	v.Assert(got.Pass == want.Pass, "password")
	v.Assert(got.Host == want.Host, "host")
	v.Assert(got.Port == want.Port, "port")
	v.Assert(ref.URIEqual(got, want), "parameters or headers")
}

// H_Nil: the one input with neither result.
func H_Nil() {
	u, err := sip.ParseURI(nil)
	v.Assert(u == nil && err == nil, "nil input")
	check([]byte{})
}

// H_Short: every short byte string.
func H_Short() {
	n := 5
	if v.Thorough() {
		n = 7
	}
	v.Bound("all byte strings of 1..5 octets (quick) or 1..7 (thorough)")
	check(v.Bytes(1 + v.Case(n)))
}

// H_Tail: every short byte string after the scheme.
func H_Tail() {
	n := 4
	if v.Thorough() {
		n = 6
	}
	v.Bound("all byte strings of 1..4 octets (quick) or 1..6 (thorough) after \"s:\", \"s:u@\", \"s:u:p@\", \"s:[\", \"s:h;\", \"s:h?\" and \"s:h:\"")
	pre := []string{"s:", "s:u@", "s:u:p@", "s:[", "s:h;", "s:h;k=", "s:h?", "s:h?k=v", "s:h:"}
	i := v.Case(len(pre))
	k := v.Case(n)
	check(append([]byte(pre[i]), v.Bytes(1+k)...))
}

var long = []string{
	"sips:ab%4a:p%5A+@Ex-a.com:5060;k1=v%201;lr?h1=a%7Eb&h2",
	"sip:[2001:DB8::1.2]:65535;x?y=z&w=1&u",
	"tel:+1-212;ext=5;p",
	"h323:u;v=?x@[::1]",
	"SIP:A.b:00080?q",
}

// H_Window: arbitrary octets in place of, or inserted at, every position of
// URIs that use every part of the grammar.
func H_Window() {
	w := 1
	if v.Thorough() {
		w = 3
	}
	v.Bound("1..2 (quick) or 1..4 (thorough) arbitrary octets replacing 0..2 octets at every position of five URIs that use every production of the grammar")
	t := long[v.Case(len(long))]
	pos := v.Choose(len(t) + 1)
	cut := v.Choose(3)
	if pos+cut > len(t) {
		v.Skip()
	}
	n := 1 + v.Choose(w+1)
	check([]byte(t[:pos] + v.Str(n) + t[pos+cut:]))
}

// H_Cut: every prefix.
func H_Cut() {
	v.Bound("every prefix of the same URIs")
	t := long[v.Case(len(long))]
	check([]byte(t[:v.Choose(len(t)+1)]))
}

// H_Port: every digit string as the port.
func H_Port() {
	n := 8
	if v.Thorough() {
		n = 30
	}
	v.Bound("all ports of 1..8 digits (quick) or 1..30 (thorough)")
	k := 1 + v.Case(n)
	d := v.Bytes(k)
	for i := range d {
		v.Assume(ref.Digit(d[i]))
	}
	pre := []string{"sip:h:", "sip:u@h:", "sip:[::1]:"}[v.Choose(3)]
	post := []string{"", ";p", "?h"}[v.Choose(3)]
	check([]byte(pre + string(d) + post))
}
