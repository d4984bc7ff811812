// Package c15: the message parser is total.
package c15

import (
	"strconv"
	"strings"

	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zzv/ref"
	"github.com/jart/gosip/zzv/v"
)

// check parses b, which lies at the start of a larger buffer.
func check(b []byte) error {
	in := append([]byte{}, b...)
	m, err := sip.ParseMsg(b)
	v.Assert((m == nil) != (err == nil), "neither or both of message and error returned")
	same := true
	for i := range b {
		same = v.And(same, b[i] == in[i])
	}
	v.Assert(same, "input modified")
	switch e := err.(type) {
	case nil:
		v.Reach("accepted")
	case sip.MsgIncompleteError:
		v.Reach("incomplete")
		v.Assert(len(e.Msg) == len(b), "incomplete error does not carry the input")
	case sip.MsgParseError:
		v.Reach("parse error")
		v.Assert(v.And(e.Offset >= 0, e.Offset < len(b)), "error offset outside the input")
		v.Assert(len(e.Msg) == len(b), "parse error does not carry the input")
	default:
		v.Reach("other error")
	}
	return err
}

// H_Nil: nil and empty input.
func H_Nil() {
	m, err := sip.ParseMsg(nil)
	v.Assert(m == nil && err == nil, "nil input")
	check([]byte{})
}

// H_Short: every short byte string.
func H_Short() {
	n := 6
	if v.Thorough() {
		n = 9
	}
	v.Bound("all byte strings of 1..6 octets (quick) or 1..9 (thorough)")
	check(v.Bytes(1 + v.Case(n)))
}

// H_Header: every short header section.
func H_Header() {
	n := 5
	if v.Thorough() {
		n = 7
	}
	v.Bound("all byte strings of 1..5 octets (quick) or 1..7 (thorough) after a status line and after a status line with each header name of five kinds")
	pre := []string{"", "Via:", "To:", "CSeq:", "Subject:", "c:"}
	i := v.Case(len(pre))
	k := v.Case(n)
	check([]byte("SIP/2.0 200 OK\r\n" + pre[i] + v.Str(1+k)))
}

// H_Window: arbitrary octets at every position of every template.
func H_Window() {
	v.Bound("3 (quick) or 4 (thorough) arbitrary octets inserted at or replacing 1..2 octets at every position of the templates, which visit every production of the grammar")
	n := 3
	if v.Thorough() {
		n = 4
	}
	c := v.Case(len(ref.Starts) + len(ref.Bodies))
	t := ""
	if c < len(ref.Starts) {
		t = ref.Starts[c] + "\r\n"
	} else {
		t = "SIP/2.0 200 OK\r\n" + ref.Bodies[c-len(ref.Starts)] + "\r\n\r\n"
	}
	pos := v.Choose(len(t) + 1)
	cut := v.Choose(3)
	if pos+cut > len(t) {
		v.Skip()
	}
	check([]byte(t[:pos] + v.Str(n) + t[pos+cut:]))
}

// H_Name: every octet after every prefix of every known header name, at the
// end of the input.
func H_Name() {
	v.Bound("every prefix of every known header name, followed by one arbitrary octet, at the end of the input and before a value")
	n := ref.Names[v.Case(len(ref.Names))]
	pos := v.Choose(len(n) + 1)
	post := []string{"", ":", " : x\r\n\r\n"}[v.Choose(3)]
	check([]byte("SIP/2.0 200 OK\r\n" + n[:pos] + v.Str(1) + post))
}

// H_Incomplete: messages cut short are reported as incomplete.
func H_Incomplete() {
	v.Bound("every proper prefix of every template without line folds")
	c := v.Case(len(ref.Starts) + len(ref.Bodies))
	t := ""
	if c < len(ref.Starts) {
		t = ref.Starts[c] + "\r\n"
	} else {
		t = "SIP/2.0 200 OK\r\n" + ref.Bodies[c-len(ref.Starts)] + "\r\n\r\n"
	}
	if strings.Contains(t, "\r\n ") || strings.Contains(t, "\r\n\t") {
		v.Skip()
	}
	pos := v.Choose(len(t))
	err := check([]byte(t[:pos]))
	_, ok := err.(sip.MsgIncompleteError)
	v.Assert(ok, "input that ends early is not reported as incomplete")
}

// H_ErrorText: rendering the errors.
func H_ErrorText() {
	n := 5
	if v.Thorough() {
		n = 7
	}
	v.Bound("error texts for all inputs of 0..5 octets (quick) or 0..7 (thorough) and every offset")
	k := v.Case(n + 1)
	b := v.Bytes(k)
	off := 0
	if k > 0 {
		off = v.Choose(k)
	}
	s := sip.MsgParseError{Msg: b, Offset: off}.Error()
	line, start := 1, 0
	for i := 0; i+1 < k && i+1 < off; i++ {
		if b[i] == '\r' && b[i+1] == '\n' {
			line++
			start = i + 2
		}
	}
	v.Assert(strings.HasPrefix(s, "Error in SIP message at line "+strconv.Itoa(line)+" offset "+strconv.Itoa(off-start)+":\n") || k == 0, "the error's text names another position")
	v.Assert(strings.HasPrefix(s, "Error in SIP message at line "), "parse error text")
	v.Obs("text", s)
	s = sip.MsgIncompleteError{Msg: b}.Error()
	v.Assert(strings.HasSuffix(s, string(b)), "incomplete error text")
}

// H_Body: bodies.
func H_Body() {
	n := 3
	if v.Thorough() {
		n = 5
	}
	v.Bound("bodies of 0..3 octets (quick) or 0..5 (thorough) with any one-digit Content-Length, opaque and SDP")
	ct := []string{"", "c:application/sdp\r\n", "c:text/plain\r\n"}
	i := v.Case(3)
	k := v.Case(n + 1)
	d := v.Bytes(1)
	check([]byte("SIP/2.0 200 OK\r\nl:" + string(d) + "\r\n" + ct[i] + "\r\n" + v.Str(k)))
}
