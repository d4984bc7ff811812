package dlg

import (
	"github.com/jart/gosip/zzv/v"
)

// digits are n arbitrary decimal digits and their value.
func digits(n int) (s string, x int) {
	s = v.Str(n)
	for i := 0; i < n; i++ {
		v.Assume(v.And(s[i] >= '0', s[i] <= '9'))
		x = x*10 + int(s[i]-'0')
	}
	return
}

const (
	bob   = "sip:bob@203.0.113.5:5080"
	carol = "sip:carol@203.0.113.5"
	other = "sip:bob@other.example"
	back  = "sip:bob@198.51.100.1"
)

// NEvents is the number of kinds of events.
const NEvents = 24

// Few makes events choose one of their variants that don't concern the call,
// instead of trying them all.
var Few bool

func variant(n int) int {
	if Few {
		return 0
	}
	return v.Choose(n)
}

// Event lets one of the events happen, with arbitrary contents.
func (m *Model) Event(k int) {
	switch k {
	case 0: // any provisional response
		d, x := digits(2)
		m.Respond(Answer{Status: "1" + d, Code: 100 + x})
	case 1:
		d, x := digits(2)
		p, q := digits(1)
		m.Respond(Answer{Status: "1" + d, Code: 100 + x, Media: 7000 + q, MediaText: "700" + p})
	case 2:
		p, q := digits(1)
		m.Respond(Answer{Status: "200", Code: 200, Contact: bob, Media: 7010 + q, MediaText: "701" + p})
	case 3:
		m.Respond(Answer{Status: "200", Code: 200, Contact: other, Video: true})
	case 4:
		m.Respond(Answer{Status: "200", Code: 200})
	case 5: // any final response that is no success
		d, x := digits(3)
		v.Assume(v.And(x >= 300, x <= 699))
		m.Respond(Answer{Status: d, Code: x})
	case 6: // the same with an alternative
		d, x := digits(3)
		v.Assume(v.And(x >= 300, x <= 699))
		m.Respond(Answer{Status: d, Code: x, Contact: []string{carol, back}[v.Choose(2)], Media: 9})
	case 7: // any CSeq
		d, _ := digits(3)
		v.Assume(d[0] != '0')
		m.Respond(Answer{Status: []string{"200", "180", "486"}[variant(3)], CSeq: d, Contact: bob, Media: 8000})
	case 8:
		m.Respond(Answer{Status: []string{"200", "180", "486"}[variant(3)], Branch: "z9hG4bK-" + v.Str(1), Contact: bob, Media: 8000})
	case 9:
		method := []string{"INVITE", "BYE", "CANCEL", "OPTIONS"}[v.Choose(4)]
		if method == m.Req.CSeqMethod {
			v.Skip()
		}
		m.Respond(Answer{Status: "200", Method: method, Contact: bob, Media: 8000})
	case 10:
		m.Respond(Answer{Status: []string{"200", "180", "486"}[variant(3)], CallID: "cal" + []string{"", "k", "lx"}[variant(3)], Contact: bob, Media: 8000})
	case 11, 12, 14, 15: // any request with any CSeq
		method := map[int]string{11: "BYE", 12: "OPTIONS", 14: "ACK", 15: "INFO"}[k]
		d, x := digits(2)
		v.Assume(x > 0)
		m.Request(Ask{Method: method, Digits: d, CSeq: x, Media: 9})
	case 13:
		d, x := digits(2)
		v.Assume(x > 0)
		p, q := digits(1)
		m.Request(Ask{Method: "INVITE", Digits: d, CSeq: x, Contact: carol, Media: 7020 + q, MediaText: "702" + p})
	case 16:
		m.Request(Ask{Method: []string{"BYE", "OPTIONS", "INVITE", "ACK"}[variant(4)], Digits: "5", CSeq: 5, Max: []string{"0", "-"}[variant(2)], Media: 9})
	case 17:
		m.Request(Ask{Method: []string{"BYE", "OPTIONS", "INVITE", "ACK"}[variant(4)], Digits: "5", CSeq: 5, CallID: "cal" + []string{"", "k", "lx"}[variant(3)], Media: 9})
	case 18:
		m.Request(Ask{Method: "INVITE", Digits: "50", CSeq: 50, Video: variant(2) == 1})
	case 19:
		m.HangUp()
	case 20:
		m.Time()
	case 21:
		m.Refused()
	case 22:
		m.Broken()
	case 23:
		m.Request(Ask{Method: "OPTIONS", Digits: "5", CSeq: 5, Max: "1"})
	}
}

// NPrefixes is the number of prefixes.
const NPrefixes = 9

// Prefix brings the call into one of its states.
func Prefix(aspect, k int) *Model {
	m := New(aspect, 2)
	m.Begin(Invite())
	trying := func() { m.Respond(Answer{Status: "100", Code: 100}) }
	ringing := func() { m.Respond(Answer{Status: "180", Code: 180, Media: 6000}) }
	answer := func() { m.Respond(Answer{Status: "200", Code: 200, Contact: bob, Media: 6002}) }
	switch k {
	case 0:
	case 1:
		trying()
	case 2:
		trying()
		ringing()
	case 3:
		answer()
	case 4: // CANCEL sent
		ringing()
		m.HangUp()
	case 5: // BYE sent
		answer()
		m.HangUp()
	case 6: // re-INVITE not acknowledged yet
		answer()
		m.Request(Ask{Method: "INVITE", Digits: "20", CSeq: 20, Contact: other})
	case 7: // second server
		trying()
		m.Respond(Answer{Status: "503", Code: 503})
	case 8: // retransmitted
		m.Time()
		m.Time()
	}
	return m
}

// NProxied is the number of calls Proxied starts.
const NProxied = 6

// Proxied calls through one or two proxies.
func Proxied(aspect, k int) *Model {
	Few = true
	m := New(aspect, 2)
	l := []string{"sip:198.51.100.1;lr", "sip:other.example", "sip:p@example.com;lr", "sip:203.0.113.5:5080", "sip:other.example;lr", "sip:example.com"}[k : k+1]
	if v.Choose(2) == 1 {
		l = append(l[:1:1], []string{"sip:203.0.113.77;lr", "sip:q@203.0.113.77:5081"}[v.Choose(2)])
	}
	m.Via(Invite(), l)
	return m
}
