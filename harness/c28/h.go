// Package c28: a dialog survives any message the remote side sends.
package c28

import (
	"strconv"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/zzv/dlg"
	"github.com/jart/gosip/zzv/ref"
	"github.com/jart/gosip/zzv/v"
)

func bound() int {
	v.Bound("calls in each of 9 states; then a message with any status 000..999 or any of 7 methods or any one-octet method, up to 1 (quick) or 2 (thorough) of 32 deviations (each part absent or odd, or nearly all absent); then local hangup, silence, ICMP refusal, a second message or a request; thorough: two such messages")
	if v.Thorough() {
		return 2
	}
	return 1
}

const deviations = 33

// deviate is one of the parts of a message, as it should be or otherwise.
type parts struct {
	version, via, from, to, id, cseq, contact, extra, max, ctype, body string
}

func (p *parts) deviate(k int, req bool) {
	switch k {
	case 0:
	case 1:
		p.version = "SIP/3.0"
	case 2:
		p.via = ""
	case 3:
		p.via = "Via: SIP/2.0/UDP 192.0.2.1\r\n"
	case 4:
		p.via = "Via: SIP/2.0/UDP h;branch=z9hG4bK-9\r\n" + p.via
	case 5:
		p.from = ""
	case 6:
		p.to = ""
	case 7:
		p.from, p.to = "From: <sip:alice@192.0.2.1>\r\n", "To: <sip:bob@example.com>\r\n"
	case 8:
		p.id = ""
	case 9:
		p.id = "Call-ID: another\r\n"
	case 10:
		p.cseq = ""
	case 11:
		p.cseq = "CSeq: 0 INVITE\r\n"
	case 12:
		p.cseq = "CSeq: 2147483647 BYE\r\n"
	case 13:
		p.contact = ""
	case 14:
		p.contact = "Contact: <sips:x>\r\n"
	case 15:
		p.contact = "Contact: <tel:123>, <sip:[::1]:1;lr>;q=1\r\n"
	case 16:
		p.contact = "Contact: <sip:unknown.example>\r\n"
	case 17:
		p.extra = "Record-Route: <sip:198.51.100.1>, <sip:h;lr>\r\n"
	case 18:
		p.extra = "Route: <sip:192.0.2.1>\r\nRoute: <sip:h;lr>\r\nRecord-Route: <sip:198.51.100.2;lr>\r\n"
	case 19:
		p.extra = "Retry-After: 1\r\nX: y\r\nExpires: 0\r\nContact: <sip:z>\r\n"
	case 20:
		p.max = ""
	case 21:
		p.max = "Max-Forwards: 0\r\n"
	case 22:
		p.ctype, p.body = "", ""
	case 23:
		p.body = dlg.Video
	case 24:
		p.ctype = "text/plain"
	case 25:
		p.body = "v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\nc=IN IP6 ::1\r\nt=0 0\r\nm=audio 0 RTP/AVP 0\r\nm=video 9 RTP/AVP 34\r\n"
	case 26:
		p.body = "v=0\r\n"
	case 27:
		p.ctype, p.body = "application/sdp", dlg.Media("h", "1")

	// Next to nothing but what decides how far the message gets.
	case 28:
		p.bare()
		p.version = "SIP/1.0"
	case 29:
		p.bare()
		p.id = "Call-ID: another\r\n"
	case 30:
		cseq := p.cseq
		p.bare()
		p.cseq, p.id = cseq, "Call-ID: call\r\n"
	case 31:
		cseq := p.cseq
		p.bare()
		p.cseq, p.id, p.max = cseq, "Call-ID: call\r\n", "Max-Forwards: 9\r\n"
	case 32:
		cseq := p.cseq
		p.bare()
		p.cseq, p.id, p.contact = cseq, "Call-ID: call\r\n", "Contact: <sip:bob@203.0.113.5:5080>\r\n"
	}
}

func (p *parts) bare() {
	p.from, p.to, p.id, p.cseq, p.contact, p.extra, p.max, p.ctype, p.body = "", "", "", "", "", "", "", "", ""
}

func (p *parts) text(start string) string {
	return dlg.Body(start+p.via+p.from+p.to+p.id+p.cseq+p.contact+p.extra+p.max, p.ctype, p.body)
}

var seq int

// message is any response or request.
func message(m *dlg.Model, kind int, devs ...int) string {
	p := &parts{version: "SIP/2.0", id: "Call-ID: call\r\n", contact: "Contact: <sip:bob@203.0.113.5:5080>\r\n", max: "Max-Forwards: 9\r\n",
		ctype: "application/sdp", body: dlg.Media("203.0.113.9", "7000")}
	if kind == 0 {
		p.via = "Via: SIP/2.0/UDP " + m.Req.Via.Host + ":" + strconv.Itoa(int(m.Req.Via.Port)) + ";branch=" + m.Branch + "\r\n"
		p.from, p.to = "From: <sip:alice@192.0.2.1>;tag=alicetag\r\n", "To: <sip:bob@example.com>;tag=bobtag\r\n"
		p.cseq = "CSeq: " + strconv.Itoa(m.Req.CSeq) + " " + m.Req.CSeqMethod + "\r\n"
		for _, k := range devs {
			p.deviate(k, false)
		}
		d := v.Str(3)
		v.Assume(v.And(ref.Digit(d[0]), v.And(ref.Digit(d[1]), ref.Digit(d[2]))))
		return p.text(p.version + " " + d + " P\r\n")
	}
	method := []string{"BYE", "OPTIONS", "INVITE", "ACK", "CANCEL", "INFO"}[kind%6]
	if kind == 6 {
		method = v.Str(1)
		v.Assume(ref.Token(method[0]))
	}
	seq++
	p.via = "Via: SIP/2.0/UDP 198.51.100.1:5060;branch=z9hG4bKr\r\n"
	p.from, p.to = "From: <sip:bob@example.com>;tag=bobtag\r\n", "To: <sip:alice@192.0.2.1>;tag=alicetag\r\n"
	p.cseq = "CSeq: " + strconv.Itoa(30+seq) + " " + method + "\r\n"
	for _, k := range devs {
		p.deviate(k, true)
	}
	return p.text(method + " sip:alice@192.0.2.1 " + p.version + "\r\n")
}

// check asserts that the call has ended properly or goes on.
func check(m *dlg.Model) (over bool) {
	ends := len(m.Errs)
	for _, s := range m.States {
		if s == dialog.Hangup {
			ends++
		}
	}
	v.Assert(ends <= 1, "ended twice")
	if m.Over {
		v.Assert(ends == 1, "ended without a report")
		v.Reach("ended")
		return true
	}
	v.Assert(ends == 0, "reported an end but carries on")
	return false
}

// alive asserts that a call which has not ended still answers.
func alive(m *dlg.Model) {
	if check(m) {
		return
	}
	m.Take()
	m.Inject(dlg.Body(dlg.Request("OPTIONS", 99, "Max-Forwards: 9\r\n"), "", ""))
	v.Assert(!check(m), "ended by an OPTIONS request")
	n := 0
	for _, p := range m.Take() {
		if p.Msg.IsResponse() && p.Msg.CSeq == 99 {
			n++
		}
	}
	v.Assert(n == 1, "the dialog is stuck")
	v.Reach("carries on")
}

func track(m *dlg.Model) {
	for _, p := range m.Take() {
		if m.Over {
			break
		}
		if p.Msg.Method == "INVITE" || p.Msg.Method == "BYE" {
			m.Track(p.Msg)
		}
	}
}

// H_Message: one message in each state, and what may follow.
func H_Message() {
	n := bound()
	seq = 0
	m := dlg.Prefix(0, v.Case(dlg.NPrefixes))
	m.Lenient = true
	kind := v.Case(7)
	var devs []int
	if n == 2 {
		a := v.Choose(deviations)
		b := v.Choose(deviations)
		if b < a {
			v.Skip()
		}
		devs = []int{a, b}
	} else {
		devs = []int{v.Choose(deviations)}
	}
	m.Inject(message(m, kind, devs...))
	if check(m) {
		return
	}
	track(m)
	switch v.Choose(3) {
	case 0:
		alive(m)
		m.Sleep(m.Tick)
		if check(m) {
			return
		}
		m.Refuse()
	case 1:
		m.Hangup()
		if check(m) {
			return
		}
		track(m)
		m.Inject(dlg.Body(dlg.Response(m.Req, []string{"200", "487"}[v.Choose(2)]), "", ""))
	case 2:
		m.Sleep(m.Tick)
		if check(m) {
			return
		}
		m.Fail()
		v.Assert(m.Over, "read error ignored")
	}
	alive(m)
}

// H_Two: two messages.
func H_Two() {
	n := bound()
	seq = 0
	m := dlg.Prefix(0, v.Case(dlg.NPrefixes))
	m.Lenient = true
	kinds := []int{0, 2, 0, 1, 3, 5, 6}
	nk := 2
	if n == 2 {
		nk = len(kinds)
	}
	k := kinds[v.Case(nk)]
	few := []int{0, 6, 13, 17}
	if n == 2 {
		few = []int{0, 3, 5, 6, 7, 10, 13, 14, 15, 16, 17, 18, 22, 23, 27}
	}
	m.Inject(message(m, k, few[v.Choose(len(few))]))
	if check(m) {
		return
	}
	track(m)
	k = kinds[v.Choose(nk)]
	m.Inject(message(m, k, few[v.Choose(len(few))]))
	if check(m) {
		return
	}
	track(m)
	m.Hangup()
	alive(m)
}
