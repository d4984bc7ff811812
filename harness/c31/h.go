// Package c31: a dialog retransmits and fails over.
package c31

import (
	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zzv/dlg"
	"github.com/jart/gosip/zzv/net"
	"github.com/jart/gosip/zzv/v"
)

func bound() {
	dlg.Setup = nil
	v.Bound("0..3 servers, each set of them impossible to dial; silence until the call is given up with one event of 11 kinds (provisional and final responses with any status, 200, redirects, stray responses, requests, local hangup, ICMP refusal) at every point of it, or two (thorough: three) events of 6 (thorough: 11) kinds with up to 3 (thorough: 5) transmissions in between; 9 states of a call with any of 24 kinds of events (thorough: two) after up to 3 transmissions; settings: 400 ms and 2 retransmissions, in one more entry 0..5 retransmissions after 10 or 2000 ms (thorough: also 100, 500, 10000) with one event; re-INVITEs that are not acknowledged in 9 states of a call, with any of 24 kinds of events between the retransmissions; events one at a time")
}

// H_Silence: until the call is over there is silence, but for one event.
func H_Silence() {
	bound()
	run(dlg.New(dlg.Requests|dlg.Reports, 1+v.Case(3)), 1, 11, 10)
}

// H_Dead: some servers can't be dialled.
func H_Dead() {
	bound()
	set := v.Case(8)
	m := dlg.New(dlg.Requests|dlg.Reports, 3)
	m.Die(set)
	run(m, 1, 4, 10)
}

// H_Events: several events.
func H_Events() {
	bound()
	m := dlg.New(dlg.Requests|dlg.Reports, 2)
	if v.Thorough() {
		run(m, 3, 11, 6)
	} else {
		run(m, 2, 6, 4)
	}
}

// H_Lost: nobody is responsible.
func H_Lost() {
	bound()
	m := dlg.New(dlg.Requests|dlg.Reports, 0)
	m.Begin(dlg.Invite())
	v.Assert(m.Phase == dlg.Over, "call to nobody")
	m.After()
}

func run(m *dlg.Model, events, kinds, space int) {
	m.Begin(dlg.Invite())
	first := v.Case(kinds)
	for i := 0; i < events; i++ {
		k := first
		if i > 0 {
			k = v.Choose(kinds)
		}
		silence := v.Choose(space)
		for j := 0; j < silence; j++ {
			if !m.Waiting() {
				v.Skip() // the same as less silence
			}
			m.Time()
		}
		if m.Phase == dlg.Over {
			if silence == 0 {
				v.Skip()
			}
			break
		}
		dlg.Few = true
		m.Event([]int{5, 0, 6, 21, 2, 19, 3, 8, 12, 14, 9}[k])
	}
	for i := 0; i < 30 && m.Waiting(); i++ {
		m.Time()
	}
	v.Assert(!m.Waiting(), "retransmits forever")
	if m.Phase != dlg.Over {
		m.Time()
	}
	m.After()
}

// H_Later: silence, any event and silence again, in any state of the call.
func H_Later() {
	bound()
	dlg.Few = true
	m := dlg.Prefix(dlg.Requests|dlg.Reports, v.Case(dlg.NPrefixes))
	k := v.Case(dlg.NEvents)
	silence := v.Choose(4)
	for i := 0; i < silence; i++ {
		if !m.Waiting() {
			v.Skip()
		}
		m.Time()
	}
	m.Event(k)
	if v.Thorough() {
		if silence = v.Choose(3); silence > 0 {
			for i := 1; i < silence; i++ {
				m.Time()
			}
			m.Event(v.Choose(dlg.NEvents))
		}
	}
	for i := 0; i < 30 && m.Waiting(); i++ {
		m.Time()
	}
	v.Assert(!m.Waiting(), "retransmits forever")
	if m.Phase != dlg.Over {
		m.Time()
	}
	m.After()
}

// H_Unacked: the answer to a re-INVITE is never acknowledged.
func H_Unacked() {
	bound()
	dlg.Few = true
	m := dlg.Prefix(dlg.Requests|dlg.Reports|dlg.Replies, v.Case(dlg.NPrefixes))
	k := v.Case(dlg.NEvents)
	m.Event(13)
	at := v.Choose(4)
	for i := 0; i < 4; i++ {
		if i == at {
			m.Event(k)
		}
		m.Time()
	}
	for i := 0; i < 30 && m.Waiting(); i++ {
		m.Time()
	}
	v.Assert(!m.Waiting(), "retransmits forever")
	m.After()
}

// H_Settings: other numbers of retransmissions and intervals.
func H_Settings() {
	bound()
	n := v.Case(6)
	intervals := []int{10, 2000, 100, 500, 10000}
	if !v.Thorough() {
		intervals = intervals[:2]
	}
	dlg.Setup = func(m *dlg.Model) {
		m.Retry(n, intervals[v.Choose(len(intervals))])
		m.Fine = true
	}
	m := dlg.New(dlg.Requests|dlg.Replies|dlg.Reports, 2)
	m.Begin(dlg.Invite())
	silence := v.Choose(3*(n+1) + 1)
	for i := 0; i < silence && m.Waiting(); i++ {
		m.Time()
	}
	if m.Phase == dlg.Over {
		m.After()
		return
	}
	dlg.Few = true
	m.Event([]int{0, 2, 5, 6, 12, 19, 21}[v.Choose(7)])
	if m.Phase == dlg.Answered {
		if v.Choose(2) == 1 {
			m.Request(dlg.Ask{Method: "INVITE", Digits: "20", CSeq: 20})
			for i := 0; i < n; i++ {
				m.Time()
			}
			m.Request(dlg.Ask{Method: "ACK", Digits: "20", CSeq: 20})
		}
		m.HangUp()
	}
	for i := 0; i < 30 && m.Waiting(); i++ {
		m.Time()
	}
	v.Assert(!m.Waiting(), "retransmits forever")
	if m.Phase != dlg.Over {
		m.Time()
	}
	m.After()
}

// H_Hops: the hop limit and the description of the INVITE, whatever was set.
func H_Hops() {
	bound()
	hops := []int{0, 1, 2, 3, 4, 70, 100}[v.Case(7)]
	k := v.Case(5)
	given := v.Choose(2) == 1
	m := dlg.New(dlg.Requests|dlg.Reports, 2)
	i := dlg.Invite()
	i.MaxForwards, i.Subject, i.XHeader = hops, "x", &sip.XHeader{Name: "X-Y", Value: []byte("z")}
	d := i.Payload.(*sdp.SDP)
	addr, id := "192.0.2.1", ""
	if given {
		addr, id = "192.0.2.7", "5"
		d.Addr, d.Origin.Addr = addr, addr
	}
	d.Origin.ID = id
	sent := 0
	dlg.OnSent = func(g *sip.Msg) {
		if g.IsResponse() || g.Method != sip.MethodInvite {
			return
		}
		sent++
		got, ok := g.Payload.(*sdp.SDP)
		v.Assert(ok && got != nil, "INVITE without description")
		if ok && got != nil {
			v.Assert(got.Addr == addr && got.Origin.Addr == addr, "address in the description")
			v.Assert(got.Origin.ID == id || id == "" && got.Origin.ID != "", "origin of the description")
			v.Assert(got.Audio != nil && got.Audio.Port == 4000 && len(got.Audio.Codecs) == 1 && got.Audio.Codecs[0].Name == "PCMU", "media of the description")
		}
		v.Assert(g.Subject == "x" && g.XHeader != nil && g.XHeader.Next == nil && g.XHeader.Name == "X-Y" && string(g.XHeader.Value) == "z", "header of the INVITE")
	}
	switch hops {
	case 0:
	case 1:
		w := dlg.Start(i)
		v.Assert(w.Over && len(w.Errs) == 1 && sent == 0, "sent with no hop left")
		dlg.OnSent = nil
		return
	default:
		m.Hops = hops - 1
	}
	m.Begin(i)
	dlg.Few = true
	silence := v.Choose(5)
	for j := 0; j < silence; j++ {
		m.Time()
	}
	m.Event([]int{0, 2, 6, 12, 21}[k])
	for j := 0; j < 2; j++ {
		m.HangUp()
	}
	for i := 0; i < 30 && m.Waiting(); i++ {
		m.Time()
	}
	v.Assert(sent > 0, "no INVITE sent")
	m.After()
	dlg.OnSent = nil
}

// H_Moves: the servers are reached through different interfaces.
func H_Moves() {
	bound()
	k := v.Case(4)
	m := dlg.New(dlg.Requests|dlg.Reports, 3)
	m.Moves = true
	i := dlg.Invite()
	d := i.Payload.(*sdp.SDP)
	given := v.Choose(3)
	switch given {
	case 1:
		d.Addr, d.Origin.Addr, m.Host = "192.0.2.7", "192.0.2.7", "192.0.2.7"
		i.Via, i.Contact = &sip.Via{Host: m.Host}, &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: m.Host}}
	case 2:
		i.Via, i.Contact = &sip.Via{}, &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "al"}}
	}
	dlg.OnSent = func(g *sip.Msg) {
		if g.IsResponse() || g.Method != sip.MethodInvite {
			return
		}
		v.Reach("moved")
		addr := m.Host
		if addr == "" {
			addr = g.Via.Host // which is compared to the socket's
		}
		got, ok := g.Payload.(*sdp.SDP)
		v.Assert(ok && got != nil && got.Addr == addr && got.Origin.Addr == addr, "address in the description")
		v.Assert(given != 2 || g.Contact.Uri.User == "al", "user of the Contact")
	}
	m.Begin(i)
	dlg.Few = true
	for j := 0; j < 3; j++ {
		net.LocalIP = "192.0.2." + string(rune('1'+(j+1)%(2+v.Choose(2))))
		switch k {
		case 0:
			m.Refused()
		case 1:
			m.Respond(dlg.Answer{Status: "503", Code: 503})
		case 2:
			m.Respond(dlg.Answer{Status: "302", Code: 302, Contact: []string{"sip:carol@203.0.113.5", "sip:bob@203.0.113.5:5080"}[j%2]})
		case 3:
			for m.Waiting() && m.Dest == dlg.Routes[j%3] {
				m.Time()
			}
		}
		if m.Phase == dlg.Over {
			break
		}
		if v.Choose(2) == 1 {
			m.Respond(dlg.Answer{Status: "200", Code: 200, Contact: "sip:bob@203.0.113.5:5080"})
			m.HangUp()
			m.Respond(dlg.Answer{Status: "200", Code: 200})
			break
		}
	}
	m.After()
	dlg.OnSent = nil
}

// H_Refused: a refusal that is met when something is sent.
func H_Refused() {
	bound()
	v.Bound("in 9 states of a call, after up to 2 retransmissions: the next 1..3 writes meet an ICMP refusal of something sent earlier, during any of 24 kinds of events and the silence after it; or the next write fails for good")
	dlg.Few = true
	m := dlg.Prefix(dlg.Requests|dlg.Reports|dlg.Replies, v.Case(dlg.NPrefixes))
	k := v.Case(dlg.NEvents)
	for silence := v.Choose(3); silence > 0; silence-- {
		if !m.Waiting() {
			v.Skip()
		}
		m.Time()
	}
	m.Lose(1 + v.Choose(3))
	m.Event(k)
	for i := 0; i < 30 && m.Waiting(); i++ {
		m.Time()
	}
	v.Assert(!m.Waiting(), "retransmits forever")
	m.After()
}

// H_Broken: writing fails for another reason.
func H_Broken() {
	bound()
	dlg.Few = true
	m := dlg.Prefix(0, v.Case(dlg.NPrefixes))
	k := v.Case(dlg.NEvents)
	for silence := v.Choose(3); silence > 0; silence-- {
		if !m.Waiting() {
			v.Skip()
		}
		m.Time()
	}
	broke := m.Break()
	m.Keep = true
	m.Event(k)
	for i := 0; i < 5 && m.Phase != dlg.Over && !broke(); i++ {
		m.Time()
	}
	if broke() {
		v.Reach("broke")
		v.Assert(len(m.Errs) == 1 && m.World.Over, "an error when sending does not end the call with one report")
		v.Assert(m.Order[len(m.Order)-1] == 'e', "reported something after the error")
		v.Assert(m.Sock() == nil && m.CSock() == nil, "socket left open after an error")
		m.Phase, m.Order = dlg.Over, ""
		m.After()
	}
}

// H_Proxy: the INVITE is sent through proxies.
func H_Proxy() {
	bound()
	v.Bound("calls through 1 or 2 proxies, the first one of 6 kinds (loose and strict routers, by address and by name), and 2 (thorough: 3) events of 8 kinds")
	m := dlg.Proxied(dlg.Requests|dlg.Reports, v.Case(dlg.NProxied))
	n := 2
	if v.Thorough() {
		n = 3
	}
	for i := 0; i < n && m.Phase != dlg.Over; i++ {
		m.Event([]int{0, 2, 5, 6, 12, 19, 20, 21}[v.Choose(8)])
	}
	m.After()
}
