// Package c12: address formatting and parsing are inverse.
package c12

import (
	"bytes"

	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zzv/ref"
	"github.com/jart/gosip/zzv/v"
)

func uri(h string) *sip.URI { return &sip.URI{Scheme: "sip", User: "u", Host: h} }

// parse formats the list into one of the address headers and parses that.
func parse(a *sip.Addr) (*sip.Addr, *sip.Msg) {
	var b bytes.Buffer
	a.Append(&b)
	s := b.String()
	v.Obs("text", s)
	v.Assert(ref.Folded(s), "text contains a line break that is not a fold")
	m, err := sip.ParseMsg([]byte("SIP/2.0 200 OK\r\nContact: " + s + "\r\nX: y\r\n\r\n"))
	v.Assert(err == nil, "formatted address does not parse")
	if err != nil || m == nil {
		return nil, nil
	}
	x := m.XHeader
	v.Assert(x != nil && x.Next == nil && x.Name == "X" && string(x.Value) == "y", "address changed the headers around it")
	return m.Contact, m
}

func same(a *sip.Addr) {
	got, m := parse(a)
	if m == nil {
		return
	}
	v.Reach("round trip")
	for p, q := got, a; p != nil && q != nil; p, q = p.Next, q.Next {
		v.Assert(p.Display == q.Display, "display name changed")
		v.Assert(ref.ParamEqual(p.Param, q.Param), "parameters changed")
		v.Assert(ref.URIEqual(p.Uri, q.Uri), "URI changed")
	}
	v.Assert(got.Len() == a.Len(), "number of addresses changed")
}

func bound() (n int) {
	v.Bound("display names and parameter values of up to 4 (quick) or 6 (thorough) arbitrary octets, and 2 (3) arbitrary octets inside longer text; parameter names of up to 3 (5) token characters")
	if v.Thorough() {
		return 6
	}
	return 4
}

// text is an arbitrary text: n octets, or fewer inside fixed text.
func text() string {
	n := bound()
	k := v.Case(n + 4)
	if k <= n {
		return v.Str(k)
	}
	w := 2
	if v.Thorough() {
		w = 3
	}
	s := v.Str(w)
	switch k - n {
	case 1:
		return "ab" + s + "cd"
	case 2:
		return "\r\n " + s + "\" \\"
	}
	return "\xd0\xbf \xe5\xa4\xa7" + s + "\xf0\x9f\x98\x80"
}

// H_Display: every display name comes back.
func H_Display() {
	s := text()
	v.Assume(ref.Quotable(s))
	a := &sip.Addr{Display: s, Uri: uri("h")}
	if v.Choose(2) == 1 {
		a = &sip.Addr{Uri: uri("g"), Next: a, Display: "x", Param: &sip.Param{Name: "tag", Value: "t"}}
	}
	same(a)
}

// H_Value: every parameter value comes back.
func H_Value() {
	s := text()
	v.Assume(ref.Quotable(s))
	a := &sip.Addr{Uri: uri("h"), Param: &sip.Param{Name: "p", Value: s}}
	switch v.Choose(3) {
	case 1:
		a.Param = &sip.Param{Name: "q", Value: ";", Next: a.Param}
		a.Next = &sip.Addr{Uri: uri("g")}
	case 2:
		a.Param.Next = &sip.Param{Name: "q"}
		a.Display = "d e"
	}
	same(a)
}

func token(n int) string {
	b := v.Bytes(n)
	for i := range b {
		v.Assume(ref.Token(b[i]))
	}
	return string(b)
}

// H_Name: every parameter name comes back.
func H_Name() {
	n := bound() - 1
	a := &sip.Addr{Uri: uri("h"), Param: &sip.Param{Name: token(1 + v.Case(n)), Value: v.Str(0)}}
	switch v.Choose(3) {
	case 1:
		a.Param.Value = "v"
		a.Param.Next = &sip.Param{Name: token(1)}
	case 2:
		a.Param.Value = "\""
		a.Param = &sip.Param{Name: token(1), Value: "", Next: a.Param}
	}
	same(a)
}

// H_List: lists of addresses of every shape keep their order.
func H_List() {
	n := 3
	if v.Thorough() {
		n = 4
	}
	v.Bound("lists of 0..3 (quick) or 0..4 (thorough) addresses, each with or without display name, parameters, port and URI parameters, one arbitrary octet per component")
	var a *sip.Addr
	tail := &a
	k := 1 + v.Case(n)
	for i := 0; i < k; i++ {
		x := &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "h"}}
		switch v.Choose(4) {
		case 1:
			c := v.Byte()
			v.Assume(v.And(c >= 0x20, c < 0x80))
			x.Display = string([]byte{c})
			x.Uri.Port = 5060
		case 2:
			c := v.Byte()
			v.Assume(v.And(c >= 0x20, c < 0x80))
			x.Param = &sip.Param{Name: "a", Value: string([]byte{c}), Next: &sip.Param{Name: "b"}}
		case 3:
			x.Display = "q\" <sip:z>, "
			x.Uri.Param = &sip.URIParam{Name: v.Str(1), Value: ","}
			x.Param = &sip.Param{Name: "c", Value: "\", <sip:x>"}
		}
		*tail = x
		tail = &x.Next
	}
	same(a)
}

func prefix(p, s string) bool { return len(p) <= len(s) && s[:len(p)] == p }

// H_Inject: no octets whatever add or remove an address, parameter or header.
func H_Inject() {
	s := text()
	a := &sip.Addr{Uri: uri("h"), Param: &sip.Param{Name: "p", Value: "v", Next: &sip.Param{Name: "o"}}, Next: &sip.Addr{Uri: uri("g")}}
	k := v.Case(3)
	name := "p"
	switch k {
	case 0:
		a.Display = s
	case 1:
		a.Param.Value = s
	case 2:
		a.Param.Name = s
		var o []byte
		for i := 0; i < len(s); i++ {
			if ref.Token(s[i]) {
				o = append(o, s[i])
			}
		}
		if len(o) == 0 {
			v.Skip()
		}
		name = string(o)
	}
	got, m := parse(a)
	if m == nil {
		return
	}
	v.Reach("contained")
	ok := got != nil && got.Next != nil && got.Next.Next == nil && got.Param != nil && got.Param.Next != nil && got.Param.Next.Next == nil
	v.Assert(ok, "addresses or parameters added or lost")
	if !ok {
		return
	}
	v.Assert(got.Param.Name == name, "parameter name is not the token characters of the one given")
	v.Assert(got.Param.Next.Name == "o" && got.Param.Next.Value == "", "neighbouring parameter changed")
	v.Assert(v.And(ref.URIEqual(got.Uri, a.Uri), ref.URIEqual(got.Next.Uri, a.Next.Uri)), "URI changed")
	v.Assert(got.Next.Display == "" && got.Next.Param == nil, "next address changed")
	v.Assert(prefix(got.Display, a.Display), "display name is not a prefix of the one given")
	v.Assert(prefix(got.Param.Value, a.Param.Value), "value is not a prefix of the one given")
}
