// Package c14: message formatting and parsing are inverse.
package c14

import (
	"strings"

	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zzv/ref"
	"github.com/jart/gosip/zzv/v"
)

func uri(h string) *sip.URI   { return &sip.URI{Scheme: "sip", User: "u", Host: h} }
func addr(h string) *sip.Addr { return &sip.Addr{Uri: uri(h)} }
func via(h string) *sip.Via {
	return &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: h}
}
func text(b byte) bool { return v.And(b > 0x20, b <= 0x7F) }
func run(n int, class func(byte) bool) string {
	b := v.Bytes(n)
	for i := range b {
		v.Assume(class(b[i]))
	}
	return string(b)
}

func response() *sip.Msg {
	return &sip.Msg{VersionMajor: 2, Status: 200, Phrase: "OK", CallID: "c", CSeq: 1, CSeqMethod: "A", Via: via("h"),
		From: addr("a"), To: addr("b")}
}

func request() *sip.Msg {
	m := response()
	m.Status, m.Phrase = 0, ""
	m.Method = "A"
	m.Request = uri("r")
	m.MaxForwards = 70
	return m
}

func message() *sip.Msg {
	if v.Choose(2) == 0 {
		return request()
	}
	return response()
}

func check(m *sip.Msg) {
	s := m.String()
	v.Obs("text", s)
	v.Assert(m.String() == s, "formatting twice gives different text")
	got, err := sip.ParseMsg([]byte(s))
	v.Assert(err == nil, "formatted message does not parse")
	if err != nil || got == nil {
		return
	}
	v.Reach("round trip")
	ref.AssertMsg(got, m)
	v.Assert((got.Payload == nil) == (m.Payload == nil), "payload presence differs")
	if got.Payload != nil && m.Payload != nil {
		v.Assert(got.Payload.ContentType() == m.Payload.ContentType(), "content type differs")
		v.Assert(string(got.Payload.Data()) == string(m.Payload.Data()), "payload differs")
	}
}

func size() int {
	if v.Thorough() {
		return 4
	}
	return 2
}

// H_Text: each text header with arbitrary text.
func H_Text() {
	n := size()
	v.Bound("each text header in turn with 1..2 (quick) or 1..4 (thorough) arbitrary octets of header text (UTF-8, tabs, folds), and 2 such octets inside longer text")
	name := ref.TextNames[v.Case(len(ref.TextNames))]
	m := message()
	var s string
	if k := v.Choose(n + 1); k < n {
		s = v.Str(1 + k)
	} else {
		s = "a:b" + v.Str(2) + "\r\n\t;c"
	}
	v.Assume(ref.HeaderText(s))
	*ref.Texts(m, name) = s
	check(m)
}

// H_All: all text headers at once.
func H_All() {
	v.Bound("all text headers at once, all absent but two, and all but one, one arbitrary octet each")
	m := message()
	for _, n := range ref.TextNames {
		*ref.Texts(m, n) = run(1, text)
	}
	k := v.Case(len(ref.TextNames) + 1)
	if k > 0 {
		*ref.Texts(m, ref.TextNames[k-1]) = ""
	}
	check(m)
}

// H_Pair: any two text headers.
func H_Pair() {
	i := v.Case(len(ref.TextNames))
	m := response()
	j := v.Choose(len(ref.TextNames))
	if i == j {
		v.Skip()
	}
	*ref.Texts(m, ref.TextNames[i]) = run(1, text)
	*ref.Texts(m, ref.TextNames[j]) = run(2, text)
	check(m)
}

// H_Start: start lines.
func H_Start() {
	n := size() + 1
	v.Bound("methods and reason phrases of 1..3 (quick) or 1..5 (thorough) arbitrary octets of their class, all versions, status codes 100, 180, 200, 299, 487, 503, 699 and every three-digit code (symbolic) with a phrase")
	switch v.Case(5) {
	case 0:
		m := request()
		m.Method = run(1+v.Choose(n), ref.Token)
		check(m)
	case 1:
		m := response()
		b := v.Bytes(1 + v.Choose(n))
		for i := range b {
			v.Assume(v.Or(ref.Alnum(b[i]), ref.In(b[i], "-_.!~*'();/?:@&=+$, \t")))
		}
		m.Phrase = string(b)
		check(m)
	case 2:
		m := message()
		m.VersionMajor = uint8(v.InRange(1, 255))
		m.VersionMinor = 0
		check(m)
	case 3:
		m := message()
		m.VersionMinor = v.Byte()
		check(m)
	case 4:
		m := response()
		m.Status = v.InRange(100, 999)
		check(m)
	}
}

// H_Phrase: a response without phrase gets the standard one and keeps none.
func H_Phrase() {
	st := []int{100, 180, 200, 301, 404, 481, 500, 606, 299}
	m := response()
	m.Status = st[v.Case(len(st))]
	m.Phrase = ""
	got, err := sip.ParseMsg([]byte(m.String()))
	v.Assert(err == nil, "formatted message does not parse")
	if err == nil && got != nil {
		v.Assert(got.Phrase == sip.Phrase(m.Status), "standard phrase not written")
	}
	v.Assert(m.Phrase == "", "formatting changed the message")
}

// H_Defaults: what is written for the parts of the start line left empty, and the hop limit.
func H_Defaults() {
	v.Bound("requests and responses without method, version or hop limit, each present or not")
	m := message()
	want := *m
	if m.IsResponse() {
		want.MaxForwards = 0
	} else {
		if v.Choose(2) == 1 {
			m.Method, want.Method = "", "INVITE"
		}
		if v.Choose(2) == 1 {
			m.MaxForwards, want.MaxForwards = 0, 70
		}
	}
	if v.Choose(2) == 1 {
		m.VersionMajor, m.VersionMinor, want.VersionMajor, want.VersionMinor = 0, 0, 2, 0
	}
	got, err := sip.ParseMsg([]byte(m.String()))
	v.Assert(err == nil && got != nil, "formatted message does not parse")
	if err == nil && got != nil {
		v.Reach("defaults")
		ref.AssertMsg(got, &want)
	}
}

// H_Numbers: numeric headers.
func H_Numbers() {
	v.Bound("each numeric header with every value 0..9999 (quick) or 0..99999 (thorough) and 2^31, 2^32+1, 2^63-1")
	hi := 9999
	if v.Thorough() {
		hi = 99999
	}
	m := request()
	var x int
	switch v.Case(4) {
	case 0:
		x = v.InRange(0, hi)
	case 1:
		x = 1 << 31
	case 2:
		x = 1<<32 + 1
	case 3:
		x = 1<<63 - 1
	}
	switch v.Case(4) {
	case 0:
		m.CSeq = x
	case 1:
		v.Assume(x > 0)
		m.MaxForwards = x
	case 2:
		m.Expires = x
		if v.Choose(2) == 1 {
			m.Method, m.CSeqMethod = "REGISTER", "REGISTER"
		}
	case 3:
		m.MinExpires = x
	}
	check(m)
}

func word(c byte) bool { return v.Or(ref.Token(c), ref.In(c, "()<>:\\\"/[]?{}")) }

// H_CallID: Call-ID and CSeq method.
func H_CallID() {
	n := size() + 1
	v.Bound("Call-IDs of 1..3 (1..5) octets with and without a host part, CSeq methods of 1..3 (1..5) token characters")
	m := message()
	if v.Case(2) == 0 {
		m.CallID = run(1+v.Choose(n), word)
		if v.Choose(2) == 1 {
			m.CallID += "@" + run(1+v.Choose(2), word)
		}
	} else {
		m.CSeqMethod = run(1+v.Choose(n), ref.Token)
	}
	check(m)
}

// H_Extension: extension headers.
func H_Extension() {
	n := size()
	v.Bound("1..3 extension headers, names of 1..2 (1..4) token characters that name no known header, values of 0..2 (0..4) octets of header text")
	m := message()
	k := 1 + v.Case(3)
	sz := n
	if k > 1 {
		sz = 1
	}
	for i := 0; i < k; i++ {
		b := run(1+v.Choose(sz), ref.Token)
		if i > 0 {
			b = "x" + b
		}
		for _, s := range ref.Names {
			if len(s) == len(b) && s != "Q" {
				eq := true
				for j := 0; j < len(s); j++ {
					eq = v.And(eq, ref.Lower(s[j]) == ref.Lower(b[j]))
				}
				v.Assume(!eq)
			}
		}
		val := v.StrUpTo(sz)
		v.Assume(ref.HeaderText(val))
		m.XHeader = &sip.XHeader{Name: b, Value: []byte(val), Next: m.XHeader}
	}
	list := m.XHeader.String()
	v.Assert(strings.Contains(m.String(), "\r\n"+list), "the extension headers on their own read differently")
	check(m)
}

// H_Addrs: each address header.
func H_Addrs() {
	v.Bound("each address header with 1..3 addresses, alone and with all others present, one arbitrary octet per host")
	name := ref.AddrNames[v.Case(len(ref.AddrNames))]
	m := message()
	hc := func(c byte) bool { return v.And(ref.Alnum(c), !v.And(c >= 'A', c <= 'Z')) }
	if v.Choose(2) == 1 {
		for _, o := range ref.AddrNames {
			*ref.Addrs(m, o) = addr(run(1, hc))
		}
		m.Via.Next = via("i")
	}
	var a *sip.Addr
	for i := v.Choose(3); i >= 0; i-- {
		a = &sip.Addr{Uri: uri(run(1, hc)), Next: a}
		if i == 1 {
			a.Display = "D"
			a.Param = &sip.Param{Name: "tag", Value: "z"}
		}
	}
	*ref.Addrs(m, name) = a
	check(m)
}

// H_Payload: payloads and content types.
func H_Payload() {
	n := size() + 1
	v.Bound("payloads of 1..3 (1..5) arbitrary octets, 9..11 octets, content types of 1+1..2+2 token characters or none; an SDP payload")
	m := message()
	p := new(sip.MiscPayload)
	switch v.Case(3) {
	case 0:
		if k := v.Choose(3); k > 0 {
			p.T = run(k, ref.Token) + "/" + run(k, ref.Token)
		}
		p.D = v.Bytes(1 + v.Choose(n))
	case 1:
		p.T = "a/b"
		p.D = v.Bytes(9 + v.Choose(3))
	case 2:
		m.Payload = &sdp.SDP{Origin: sdp.Origin{ID: "1", Version: "2", Addr: "1.2.3.4"}, Addr: "1.2.3.4",
			Audio: &sdp.Media{Proto: "RTP/AVP", Port: v.Uint16(), Codecs: []sdp.Codec{sdp.ULAWCodec, sdp.DTMFCodec}}}
		check(m)
		return
	}
	m.Payload = p
	check(m)
}
