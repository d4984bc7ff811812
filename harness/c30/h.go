package c30

import (
	"strings"

	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zzv/dlg"
	"github.com/jart/gosip/zzv/v"
)

func bound() int {
	v.Bound("calls with 2 servers, brought into each of 9 states, then every sequence of 2 (quick) or 3 (thorough) out of 24 kinds of events: responses with any status 100..199, 200 or 300..699, any three-digit CSeq, right or wrong method, branch and Call-ID, with and without Contact and SDP; requests BYE, OPTIONS, INVITE, ACK, INFO with any two-digit CSeq, Max-Forwards 70, 1, 0 or absent, right or wrong Call-ID; local hangup, retransmission time, ICMP refusal, read error; events one at a time; routes of 1 to 3 entries of 5 kinds")
	if v.Thorough() {
		return 3
	}
	return 2
}

// H_Events: every short sequence of events in every state.
func H_Events() {
	n := bound()
	dlg.Few = false
	m := dlg.Prefix(dlg.Replies, v.Case(dlg.NPrefixes))
	for i := 0; i < n; i++ {
		dlg.Few = i > 0
		if i == 0 {
			m.Event(v.Case(dlg.NEvents))
		} else {
			m.Event(v.Choose(dlg.NEvents))
		}
	}
	m.After()
}

// H_Route: requests of an answered call follow the route it was set up by.
func H_Route() {
	bound()
	m := dlg.New(0, 2)
	m.Begin(dlg.Invite())
	d := v.Byte()
	v.Assume(v.And(d >= '0', d <= '9'))
	port := "507" + string([]byte{d})
	list := []string{"sip:198.51.100.2:" + port + ";lr", "sip:other.example;lr;x=y", "sip:u@198.51.100.1;lr", "sip:198.51.100.2:" + port, "sip:other.example"}
	dest := []string{"198.51.100.2:" + port, "203.0.113.5:5060", "198.51.100.1:5060", "198.51.100.2:" + port, "203.0.113.5:5060"}
	n := 1 + v.Case(3)
	var rr []string
	last := 0
	for i := 0; i < n; i++ {
		last = v.Choose(len(list))
		rr = append(rr, list[last])
	}
	if v.Choose(2) == 1 {
		m.Inject(dlg.Body(dlg.Response(m.Req, "183", "Record-Route: <sip:early;lr>\r\n", "Contact: <sip:early>\r\n"), "", ""))
		m.Take()
	}
	h := ""
	if v.Choose(2) == 1 {
		h = "Record-Route: <" + strings.Join(rr, ">, <") + ">\r\n"
	} else {
		h = "Record-Route: <" + strings.Join(rr, ">\r\nRecord-Route: <") + ">\r\n"
	}
	contact := "sip:bob@203.0.113.5:5080"
	m.Inject(dlg.Body(dlg.Response(m.Req, "200", h, "Contact: <"+contact+">\r\n"), "", ""))
	p := m.Take()
	v.Assert(len(p) == 1 && p[0].Msg.Method == "ACK", "no ACK")
	if len(p) == 0 {
		return
	}
	v.Assert(p[0].Msg.Request.String() == contact, "request URI of the ACK")
	route := func(g *sip.Addr, want []string) {
		for _, w := range want {
			v.Assert(g != nil, "Route missing")
			if g == nil {
				return
			}
			v.Assert(g.Uri.String() == w, "Route")
			g = g.Next
		}
		v.Assert(g == nil, "more Routes")
	}
	var back []string
	for i := n - 1; i >= 0; i-- {
		back = append(back, rr[i])
	}
	route(p[0].Msg.Route, back)
	m.Hangup()
	p = m.Take()
	v.Assert(len(p) == 1 && p[0].Msg.Method == "BYE", "no BYE")
	if len(p) == 0 {
		return
	}
	first := back[0]
	v.Assert(p[0].To == dest[last], "destination of the BYE")
	if last < 3 {
		v.Assert(p[0].Msg.Request.String() == contact, "request URI of the BYE")
		route(p[0].Msg.Route, back)
		v.Reach("loose route")
	} else {
		v.Assert(p[0].Msg.Request.String() == first, "request URI of the BYE")
		route(p[0].Msg.Route, append(back[1:], contact))
		v.Reach("strict route")
	}
	m.Track(p[0].Msg)
	m.Inject(dlg.Body(dlg.Response(m.Req, "200"), "", ""))
	v.Assert(m.World.Over && len(m.Errs) == 0, "the BYE's answer does not end the call")
}

// H_Proxy: the call is made through proxies.
func H_Proxy() {
	bound()
	v.Bound("calls through 1 or 2 proxies, the first one of 6 kinds (loose and strict routers, by address and by name), and 2 (thorough: 3) events of 8 kinds")
	m := dlg.Proxied(dlg.Replies, v.Case(dlg.NProxied))
	n := 2
	if v.Thorough() {
		n = 3
	}
	for i := 0; i < n && m.Phase != dlg.Over; i++ {
		m.Event([]int{0, 2, 5, 6, 12, 19, 20, 21}[v.Choose(8)])
	}
	m.After()
}
