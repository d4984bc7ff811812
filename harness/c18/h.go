// Package c18: the payload is delimited exactly by Content-Length.
package c18

import (
	"strconv"

	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zzv/v"
)

type form struct {
	pre, post string
	ctype     string
}

// Heads around the digits of the Content-Length.
var forms = []form{
	{"SIP/2.0 200 OK\r\nContent-Length: ", "\r\n\r\n", ""},
	{"A sip:b SIP/2.0\r\nContent-Type: text/plain\r\nContent-Length:", "\r\n\r\n", "text/plain"},
	{"SIP/2.0 200 OK\r\nl : ", "\r\nc: a/b\r\n\r\n", "a/b"},
	{"SIP/2.0 200 OK\r\nc:a/b\r\nl:\r\n ", "\r\nCall-ID: x\r\nX: \r\n\r\n", "a/b"},
	{"SIP/2.0 200 OK\r\nc:a/b ; c=d;e=\"f\"\r\ncOnTeNt-LeNgTh: 00", "\r\nSubject: l: 9\r\n\r\n", "a/b"},
	{"SIP/2.0 200 OK\r\nl: 4\r\nc: x/y\r\nl: ", "\r\nContent-Type: p/q\r\n\r\n", "p/q"},
}

func misc(m *sip.Msg, ctype string, body []byte) {
	p, ok := m.Payload.(*sip.MiscPayload)
	v.Assert(ok, "payload missing")
	if !ok {
		return
	}
	v.Reach("payload")
	v.Assert(p.T == ctype, "content type differs")
	v.Assert(string(p.D) == string(body), "payload differs from the octets after the blank line")
	v.Assert(p.ContentType() == p.T && string(p.Data()) == string(p.D), "payload accessors differ")
}

// H_Delimit: every declared length against every actual one.
func H_Delimit() {
	n := 4
	if v.Thorough() {
		n = 6
	}
	v.Bound("declared and actual lengths 0..4 (quick) or 0..6 (thorough) with arbitrary octets, six head forms")
	f := forms[v.Case(len(forms))]
	decl, have := v.Case(n+1), v.Case(n+1)
	body := v.Bytes(have)
	in := f.pre + strconv.Itoa(decl) + f.post
	m, err := sip.ParseMsg([]byte(in + string(body)))
	switch {
	case decl == 0:
		v.Assert(err == nil && m != nil, "message without payload refused")
		if m != nil {
			v.Assert(m.Payload == nil, "payload without a length")
		}
	case decl != have:
		v.Reach("refused")
		v.Assert(err != nil && m == nil, "payload of another length accepted")
	default:
		v.Assert(err == nil && m != nil, "payload of the declared length refused")
		if m != nil {
			misc(m, f.ctype, body)
		}
	}
}

// H_Long: longer payloads, off by one either way.
func H_Long() {
	v.Bound("payloads of 9, 10, 99, 100, 999, 1000 and 1300 octets with arbitrary octets at both ends, one octet missing, exact and one too many")
	l := []int{9, 10, 99, 100, 999, 1000, 1300}[v.Case(7)]
	d := v.Case(3) - 1
	body := make([]byte, l+d)
	for i := range body {
		body[i] = byte(i * 7)
	}
	for _, i := range []int{0, 1, 2, len(body) - 2, len(body) - 1} {
		body[i] = v.Byte()
	}
	f := forms[v.Case(2)]
	m, err := sip.ParseMsg([]byte(f.pre + strconv.Itoa(l) + f.post + string(body)))
	if d != 0 {
		v.Assert(err != nil && m == nil, "payload of another length accepted")
		return
	}
	v.Assert(err == nil && m != nil, "payload of the declared length refused")
	if m != nil {
		misc(m, f.ctype, body)
	}
}

// H_None: no Content-Length, no payload.
func H_None() {
	n := v.Case(4)
	h := []string{"SIP/2.0 200 OK\r\n\r\n", "A sip:b SIP/2.0\r\nc: a/b\r\n\r\n", "SIP/2.0 200 OK\r\nX-l: 2\r\nSubject: Content-Length: 2\r\n\r\n"}[v.Case(3)]
	m, err := sip.ParseMsg([]byte(h + v.Str(n)))
	v.Assert(err == nil && m != nil, "message without payload refused")
	if m != nil {
		v.Assert(m.Payload == nil, "payload without a length")
	}
}

const desc = "v=0\r\no=- 1 2 IN IP4 1.2.3.4\r\ns=-\r\nc=IN IP4 1.2.3.4\r\nt=0 0\r\nm=audio 4000 RTP/AVP 0\r\n"

// H_SDP: a payload of type application/sdp is the description its text gives.
func H_SDP() {
	v.Bound("one arbitrary octet at every position of an SDP payload; declared length exact or one off")
	pos := v.Case(len(desc))
	d := v.Choose(3) - 1
	b := []byte(desc)
	b[pos] = v.Byte()
	m, err := sip.ParseMsg([]byte("SIP/2.0 200 OK\r\nc: application/sdp\r\nl: " + strconv.Itoa(len(b)+d) + "\r\n\r\n" + string(b)))
	if d != 0 {
		v.Assert(err != nil && m == nil, "payload of another length accepted")
		return
	}
	want, werr := sdp.Parse(string(b))
	v.Assert((err == nil) == (werr == nil), "SDP payload accepted differently from its text")
	if err != nil || m == nil || want == nil {
		return
	}
	v.Reach("sdp")
	got, ok := m.Payload.(*sdp.SDP)
	v.Assert(ok, "payload is not SDP")
	if ok {
		v.Assert(got.String() == want.String(), "SDP payload differs from its text")
		v.Assert(got.ContentType() == "application/sdp" && string(got.Data()) == got.String(), "payload accessors differ")
	}
}

// H_Type: only the type application/sdp is read as SDP.
func H_Type() {
	t := []byte("application/sdp")
	t[v.Case(len(t))] = v.Byte()
	m, err := sip.ParseMsg([]byte("SIP/2.0 200 OK\r\nc: " + string(t) + "\r\nl: 3\r\n\r\nabc"))
	if err != nil || m == nil {
		return
	}
	p, ok := m.Payload.(*sip.MiscPayload)
	v.Assert(ok && string(t) != "application/sdp", "payload read as SDP")
	if ok {
		v.Assert(string(p.D) == "abc", "payload differs from the octets after the blank line")
	}
}

type raw struct {
	t string
	d []byte
}

func (r *raw) ContentType() string { return r.t }
func (r *raw) Data() []byte        { return r.d }

// H_Format: the Content-Length written is the number of octets that follow.
func H_Format() {
	v.Bound("payloads of 0..4, 9, 10, 99, 100 and 1000 octets, arbitrary octets in the short ones and at the ends of the long ones")
	l := []int{0, 1, 2, 3, 4, 9, 10, 99, 100, 1000}[v.Case(10)]
	d := make([]byte, l)
	for i := range d {
		d[i] = 'x'
		if i < 4 || i >= l-2 {
			d[i] = v.Byte()
		}
	}
	a := &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "h"}}
	m := &sip.Msg{Status: v.Choose(2) * 200, Phrase: "OK", Method: "A", Request: a.Uri, CallID: "c", CSeqMethod: "A", From: a, To: a, Via: &sip.Via{Host: "h"},
		XHeader: &sip.XHeader{Name: "X", Value: []byte("y")}}
	if l > 0 || v.Choose(2) == 1 {
		m.Payload = &raw{"a/b", d}
	}
	s := m.String()
	tail := "\r\nContent-Length: " + strconv.Itoa(l) + "\r\n\r\n" + string(d)
	v.Assert(len(s) > len(tail) && s[len(s)-len(tail):] == tail, "message does not end with its length and payload")
	head := s[:len(s)-len(d)]
	n, blanks := 0, 0
	for i := 0; i+4 <= len(head); i++ {
		if head[i:i+4] == "\r\n\r\n" {
			blanks++
		}
		if i+15 <= len(head) && head[i:i+15] == "Content-Length:" {
			n++
		}
	}
	v.Assert(n == 1 && blanks == 1, "more than one length or blank line before the payload")
}
