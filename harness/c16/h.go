// Package c16: the message parser implements the documented grammar.
package c16

import (
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zzv/ref"
	"github.com/jart/gosip/zzv/v"
)

func check(b []byte) {
	got, _ := sip.ParseMsg(b)
	want := ref.Message(b)
	if want == nil {
		v.Reach("refused")
		v.Assert(got == nil, "accepted text outside the grammar")
		return
	}
	v.Reach("accepted")
	v.Assert(got != nil, "message of the grammar refused")
	if got == nil {
		return
	}
	ref.AssertMsg(got, want)
	v.Assert((got.Payload == nil) == (want.Payload == nil), "payload presence differs")
}

// H_Start: windows over the start line.
func H_Start() {
	t := ref.Starts[v.Case(len(ref.Starts))]
	window(t, "\r\n")
}

// window replaces 0..2 octets at every position of t by arbitrary ones.
func window(t, post string) {
	n := 1
	if v.Thorough() {
		n = 2
	}
	v.Bound("1 (quick) or 1..2 (thorough) arbitrary octets inserted at or replacing 1 octet (thorough: up to 2) at every position of every template; templates together visit every production of the grammar and every known header name, full and compact")
	pos := v.Choose(len(t) + 1)
	cut := v.Choose(n + 1)
	if pos+cut > len(t) {
		v.Skip()
	}
	k := 1 + v.Choose(n)
	check([]byte(t[:pos] + v.Str(k) + t[pos+cut:] + post))
}

// H_Names: windows over every known header name.
func H_Names() {
	n := ref.Names[v.Case(len(ref.Names))]
	val := ref.Value(n)
	pos := v.Choose(len(n) + 2)
	cut := v.Choose(2)
	if pos+cut > len(n)+1 {
		v.Skip()
	}
	w := v.Str(1)
	t := n + ":"
	check([]byte("SIP/2.0 200 OK\r\n" + t[:pos] + w + t[pos+cut:] + val + "\r\n\r\n"))
}

// H_Case: every known name in any mix of cases.
func H_Case() {
	n := ref.Names[v.Case(len(ref.Names))]
	b := []byte(n)
	for i := range b {
		c := v.Byte()
		v.Assume(ref.Lower(c) == ref.Lower(b[i]))
		b[i] = c
	}
	check([]byte("SIP/2.0 200 OK\r\n" + string(b) + ":" + ref.Value(n) + "\r\n\r\n"))
}

// H_Headers: windows over header values.
func H_Headers() {
	t := ref.Bodies[v.Case(len(ref.Bodies))]
	window2("SIP/2.0 200 OK\r\n", t+"\r\n\r\n")
}

func window2(pre, t string) {
	n := 1
	if v.Thorough() {
		n = 2
	}
	pos := v.Choose(len(t) + 1)
	cut := v.Choose(n + 1)
	if pos+cut > len(t) {
		v.Skip()
	}
	k := 1 + v.Choose(n)
	check([]byte(pre + t[:pos] + v.Str(k) + t[pos+cut:]))
}

// H_Prefix: every prefix of the templates, followed by arbitrary octets.
func H_Prefix() {
	n := 2
	if v.Thorough() {
		n = 3
	}
	v.Bound("every prefix of every header template followed by 0..2 (quick) or 0..3 (thorough) arbitrary octets and by nothing, by the end of the message, or by the shortest completion of a quoted string or address")
	t := ref.Bodies[v.Case(len(ref.Bodies))]
	pos := v.Choose(len(t) + 1)
	k := v.Choose(n + 1)
	post := []string{"", "\r\n\r\n", "\"\r\n\r\n", ">\r\n\r\n", "\"<a:b>\r\n\r\n"}[v.Choose(5)]
	check([]byte("SIP/2.0 200 OK\r\n" + t[:pos] + v.Str(k) + post))
}

var folds = []string{"\r\n ", " \t\r\n\t ", "\r\n", " \r\n \r\n "}

// H_Folds: white space and line folds anywhere.
func H_Folds() {
	v.Bound("white space with and without a line fold (4 forms) inserted at every position of every template, followed by 0..1 arbitrary octets replacing 0..1 octets")
	k := v.Case(len(ref.Bodies) + len(ref.Starts))
	pre, t, post := "SIP/2.0 200 OK\r\n", "", "\r\n\r\n"
	if k < len(ref.Bodies) {
		t = ref.Bodies[k]
	} else {
		pre, t, post = "", ref.Starts[k-len(ref.Bodies)], "\r\n"
	}
	pos := v.Choose(len(t) + 1)
	f := folds[v.Choose(len(folds))]
	n := v.Choose(2)
	cut := 0
	if n == 1 {
		cut = v.Choose(2)
		if pos+cut > len(t) {
			v.Skip()
		}
	}
	check([]byte(pre + t[:pos] + f + v.Str(n) + t[pos+cut:] + post))
}

// H_UTF8: sequences of every length wherever there may be some.
func H_UTF8() {
	v.Bound("sequences of 1..6 octets with at most one missing, one too many, or one that is arbitrary, in every kind of text")
	contexts := []string{
		"SIP/2.0 200 |\r\n\r\n", "SIP/2.0 200 OK\r\ns: |\r\n\r\n", "SIP/2.0 200 OK\r\nX: a\r\n |\r\n\r\n", "SIP/2.0 200 OK\r\nt:\"|\" <sip:a>\r\n\r\n",
		"SIP/2.0 200 OK\r\nt:\"\\|\" <sip:a>\r\n\r\n", "SIP/2.0 200 OK\r\nt: <sip:a>;k=\"|\"\r\n\r\n", "SIP/2.0 200 OK\r\nv: S/2/U h;k=\"|\"\r\n\r\n", "SIP/2.0 200 OK\r\nc:a/b;k=\"|\"\r\n\r\n",
		"SIP/2.0 200 OK\r\nt:x | <sip:a>\r\n\r\n", "SIP/2.0 200 OK\r\nt: <sip:|>\r\n\r\n", "SIP/2.0 200 OK\r\nt: sip:a;k=\" |\"\r\n\r\n", "SIP/2.0 200 OK\r\nv: S/2/U |\r\n\r\n",
		"SIP/2.0 200 OK\r\ni:|\r\n\r\n",
	}
	c := contexts[v.Case(len(contexts))]
	l := v.Choose(6)
	n := l + v.Choose(3) // octets after the first
	if n--; n < 0 {
		v.Skip()
	}
	any := v.Choose(n + 2)
	b := v.Bytes(n + 1)
	for i := range b {
		switch {
		case i == any:
		case i == 0:
			v.Assume(b[0] == []byte{'a', 0xc3, 0xe2, 0xf0, 0xf9, 0xfc}[l])
		default:
			v.Assume(v.And(b[i] >= 0x80, b[i] <= 0xbf))
		}
	}
	i := 0
	for c[i] != '|' {
		i++
	}
	check([]byte(c[:i] + string(b) + c[i+1:]))
}
