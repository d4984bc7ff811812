package c29

import (
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zzv/dlg"
	"github.com/jart/gosip/zzv/net"
	"github.com/jart/gosip/zzv/v"
)

func bound() int {
	v.Bound("calls with 2 servers, brought into each of 9 states, then every sequence of 2 (quick) or 3 (thorough) out of 24 kinds of events: responses with any status 100..199, 200 or 300..699, any three-digit CSeq, right or wrong method, branch and Call-ID, with and without Contact and SDP; requests BYE, OPTIONS, INVITE, ACK, INFO with any two-digit CSeq, Max-Forwards 70, 1, 0 or absent, right or wrong Call-ID; local hangup, retransmission time, ICMP refusal, read error; events one at a time")
	if v.Thorough() {
		return 3
	}
	return 2
}

// H_Events: every short sequence of events in every state.
func H_Events() {
	n := bound()
	dlg.Few = false
	m := dlg.Prefix(dlg.Reports, v.Case(dlg.NPrefixes))
	for i := 0; i < n; i++ {
		dlg.Few = i > 0
		if i == 0 {
			m.Event(v.Case(dlg.NEvents))
		} else {
			m.Event(v.Choose(dlg.NEvents))
		}
	}
	m.After()
}

// H_Media: where the remote side wants its media.
func H_Media() {
	bound()
	dlg.Few = false
	m := dlg.Prefix(dlg.Reports, v.Case(dlg.NPrefixes))
	net.Hosts["media.example"] = "198.51.100.77"
	net.Hosts["six.example"] = "2001:db8::77"
	d := string([]byte{v.Byte()})
	v.Assume(v.And(d >= "0", d <= "9"))
	hosts := []string{"203.0.113." + d, "2001:db8::" + d, "media.example", "six.example", "nowhere.example", "0.0.0.0", "::1"}
	e := v.Byte()
	v.Assume(v.And(e >= '0', e <= '9'))
	p := 60020 + int(e-'0')
	text := "6002" + string([]byte{e})
	kind := v.Case(4)
	send := func(h string) {
		switch kind {
		case 0:
			m.Respond(dlg.Answer{Status: "183", Code: 183, Media: p, MediaText: text, MediaHost: h})
		case 1:
			m.Respond(dlg.Answer{Status: "200", Code: 200, Contact: "sip:bob@198.51.100.1", Media: p, MediaText: text, MediaHost: h})
		case 2:
			m.Request(dlg.Ask{Method: "INVITE", Digits: "30", CSeq: 30, Media: p, MediaText: text, MediaHost: h})
		case 3:
			m.Respond(dlg.Answer{Status: "180", Code: 180, Media: p, MediaText: text, MediaHost: h})
		}
	}
	send(hosts[v.Choose(len(hosts))])
	send(hosts[v.Choose(len(hosts))])
	m.After()
}

// H_Text: the text of a failure.
func H_Text() {
	bound()
	s := 100 + int(v.Uint16())
	v.Assume(s <= 999)
	p := v.StrUpTo(3)
	var err error = &sip.ResponseError{Msg: &sip.Msg{Status: s, Phrase: p}}
	t := err.Error()
	v.Assert(len(t) == 5+len(p) && t[:3] == string([]byte{byte('0' + s/100), byte('0' + s/10%10), byte('0' + s%10)}) && t[3:] == ": "+p, "text of the error")
}
