// Package c26: next-hop routing follows RFC 3261 loose and strict routing.
package c26

import (
	"strconv"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zzv/gen"
	"github.com/jart/gosip/zzv/net"
	"github.com/jart/gosip/zzv/ref"
	"github.com/jart/gosip/zzv/v"
)

func size() int {
	v.Bound("Via chains and route sets of 0..3 (quick) or 0..5 (thorough) entries, all hosts of one octet, ports, schemes sip and sips, rport texts of 0..5 (7) arbitrary octets, own address known or not")
	if v.Thorough() {
		return 5
	}
	return 3
}

// number is the port a text stands for.
func number(s string) (n int, ok bool) {
	if s == "" {
		return 0, false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + int(s[i]-'0')
	}
	return n, n <= 65535
}

// H_Response: where responses go.
func H_Response() {
	n := v.Case(size() + 1)
	var s gen.Src
	own := s.Via(1)
	if v.Case(2) == 1 {
		own = nil
	}
	var received, rport string
	hasReceived, hasRport := v.Choose(3), v.Choose(2)
	if hasReceived == 1 {
		received = v.Str(1)
	}
	if hasRport == 1 {
		rport = v.Str(v.Choose(4))
	}
	params := func(w *sip.Via) {
		w.Param = &sip.Param{Name: "branch", Value: "x"}
		if hasReceived > 0 {
			w.Param = &sip.Param{Name: []string{"received", "Received"}[hasRport], Value: received, Next: w.Param}
		}
		if hasRport > 0 {
			w.Param = &sip.Param{Name: "rport", Value: rport, Next: w.Param}
		}
	}
	build := func() *sip.Msg {
		m := &sip.Msg{Status: 200, Via: s.Via(n), Route: s.Addr(1), CallID: s.Str(), From: s.Addr(1)}
		for w := m.Via; w != nil; w = w.Next {
			params(w)
		}
		return m
	}
	m := build()
	host, port, err := dialog.RouteMessage(own, nil, m)
	s.Rewind()
	own0 := s.Via(1)
	want := build()
	if own != nil && want.Via != nil && v.And(own0.Host == want.Via.Host, own0.Port == want.Via.Port) {
		want.Via = want.Via.Next
		v.Reach("own Via removed")
	}
	if want.Via == nil {
		v.Assert(err != nil, "routed a response without Via")
		v.Reach("no Via")
		return
	}
	ref.AssertMsg(m, want)
	wh, wp := want.Via.Host, want.Via.Port
	if hasReceived == 1 {
		wh = received
	}
	if rport != "" {
		p, ok := number(rport)
		v.Assert((err == nil) == ok, "exactly the unusable rports are errors")
		if err != nil {
			return
		}
		wp = uint16(p)
	}
	v.Assert(err == nil, "response not routed")
	v.Assert(host == wh, "host a response goes to")
	v.Assert(port == wp, "port a response goes to")
	v.Reach("routed")
}

// H_Rport: every rport text.
func H_Rport() {
	n := 5
	if size() > 3 {
		n = 7
	}
	k := v.Case(n + 1)
	rport := v.Str(k)
	m := &sip.Msg{Status: 200, Via: &sip.Via{Host: "h", Port: 7, Param: &sip.Param{Name: "rport", Value: rport}}}
	host, port, err := dialog.RouteMessage(nil, nil, m)
	if k == 0 {
		v.Assert(err == nil && host == "h" && port == 7, "empty rport")
		return
	}
	p, ok := number(rport)
	v.Assert((err == nil) == ok, "exactly the unusable rports are errors")
	if err == nil {
		v.Assert(host == "h" && int(port) == p, "port from rport")
		v.Reach("rport")
	}
}

func portOf(u *sip.URI) uint16 {
	if u.Port != 0 {
		return u.Port
	}
	if u.Scheme == "sips" {
		return 5061
	}
	return 5060
}

// H_Request: where requests go and what becomes of their routes.
func H_Request() {
	n := v.Case(size() + 1)
	method := []string{"REGISTER", "INVITE", "BYE"}[v.Case(3)]
	var s gen.Src
	schemes := []string{"sip", "sips"}
	scheme := make([]string, 3)
	for i := range scheme {
		scheme[i] = schemes[v.Choose(2)]
	}
	contact := s.Addr(1)
	contact.Uri.Scheme = scheme[0]
	known := v.Case(2) == 1
	var lr [6]int
	for i := 0; i < n && i < 2; i++ {
		lr[i] = v.Choose(3)
	}
	build := func() *sip.Msg {
		m := &sip.Msg{Method: method, Request: s.URI(), Via: s.Via(1), Route: s.Addr(n), RecordRoute: s.Addr(1), Contact: s.Addr(1)}
		i := 0
		for a := m.Route; a != nil; a = a.Next {
			a.Uri.Scheme = scheme[1+i&1]
			switch lr[i] {
			case 1:
				a.Uri.Param = &sip.URIParam{Name: "lr"}
			case 2:
				a.Uri.Param.Next.Next = &sip.URIParam{Name: "LR", Value: "on"}
			}
			i++
		}
		return m
	}
	m := build()
	c := contact
	if !known {
		c = nil
	}
	routes := m.Route
	host, port, err := dialog.RouteMessage(nil, c, m)
	s.Rewind()
	s.Addr(1)
	want := build()
	if known && want.Route != nil && v.And(contact.Uri.Host == want.Route.Uri.Host, portOf(contact.Uri) == portOf(want.Route.Uri)) {
		want.Route = want.Route.Next
		routes = routes.Next
		lr[0] = lr[1]
		v.Reach("own Route removed")
	}
	if want.Route == nil {
		v.Assert(err == nil, "request not routed")
		v.Assert(v.And(host == want.Request.Host, port == want.Request.Port), "an unrouted request goes to its request URI")
		ref.AssertMsg(m, want)
		v.Reach("no route")
		return
	}
	if method == "REGISTER" {
		v.Assert(err != nil, "routed a REGISTER")
		v.Reach("REGISTER")
		return
	}
	v.Assert(err == nil, "request not routed")
	v.Assert(v.And(host == want.Route.Uri.Host, port == want.Route.Uri.Port), "a routed request goes to its top Route")
	loose := lr[0] > 0
	if !loose {
		// the caller's route set is not touched
		was := want.Route
		for a := routes; a != nil && was != nil; a = a.Next {
			v.Assert(ref.URIEqual(a.Uri, was.Uri) && (a.Next == nil) == (was.Next == nil), "the caller's route set changed")
			was = was.Next
		}
		// build the expected list
		old, top := want.Request, want.Route
		want.Request = top.Uri
		tail := &sip.Addr{Uri: old}
		if top.Next == nil {
			want.Route = tail
		} else {
			want.Route = top.Next
			a := want.Route
			for a.Next != nil {
				a = a.Next
			}
			a.Next = tail
		}
		v.Reach("strict")
	} else {
		v.Reach("loose")
	}
	ref.AssertMsg(m, want)
}

// H_Address: from next hop to socket addresses.
func H_Address() {
	size()
	net.Reset()
	net.Hosts = map[string]string{"example.com": "198.51.100.7", "six.example": "2001:db8::5"}
	net.SRVs = map[string][]*net.SRV{
		"example.com": {{Target: "a.example.com.", Port: 5070}, {Target: "b.example.com.", Port: 5060}, {Target: "a.example.com.", Port: 1}},
		"empty.com":   {},
		"one.com":     {{Target: "2001:db8::9", Port: v.Uint16()}},
	}
	kind := v.Case(6)
	port := v.Uint16()
	if kind == 2 || kind == 3 { // these read the number back
		switch v.Choose(3) {
		case 0:
			v.Assume(port < 10)
		case 1:
			v.Assume(v.And(port >= 10, port < 100))
		case 2:
			port = []uint16{100, 5060, 9999, 10000, 65535}[v.Choose(5)]
		}
	}
	srv := v.Bool()
	want := int(port)
	if port == 0 {
		want = 5060
	}
	w := strconv.Itoa(want)
	check := func(r *dialog.AddressRoute, err error, addrs ...string) {
		v.Assert(err == nil, "address refused")
		for _, a := range addrs {
			v.Assert(r != nil, "too few routes")
			if r == nil {
				return
			}
			v.Assert(r.Address == a, "route address")
			r = r.Next
		}
		v.Assert(r == nil, "too many routes")
		v.Reach("address")
	}
	switch kind {
	case 0:
		d := v.Str(2)
		v.Assume(v.And(v.And(d[0] >= '1', d[0] <= '9'), v.And(d[1] >= '0', d[1] <= '9')))
		ip := "10.0.2." + d
		r, err := dialog.RouteAddress(ip, port, srv)
		check(r, err, ip+":"+w)
	case 1:
		ip := []string{"::1", "2001:db8::7", "1.2.3.4"}[v.Choose(3)]
		r, err := dialog.RouteAddress(ip, port, srv)
		if ip == "1.2.3.4" {
			check(r, err, ip+":"+w)
		} else {
			check(r, err, "["+ip+"]:"+w)
		}
	case 2:
		r, err := dialog.RouteAddress("example.com", port, srv)
		if port == 0 && srv {
			check(r, err, "a.example.com.:5070", "b.example.com.:5060", "a.example.com.:1")
		} else {
			check(r, err, "198.51.100.7:"+w)
		}
	case 3:
		r, err := dialog.RouteAddress("six.example", port, srv)
		check(r, err, "[2001:db8::5]:"+w)
	case 4:
		r, err := dialog.RouteAddress([]string{"nowhere.com", "empty.com"}[v.Choose(2)], port, srv)
		v.Assert(r == nil && err != nil, "routes to an unknown name")
	case 5:
		r, err := dialog.RouteAddress("one.com", port, srv)
		if port == 0 && srv {
			check(r, err, "[2001:db8::9]:"+strconv.Itoa(int(net.SRVs["one.com"][0].Port)))
		} else {
			v.Assert(r == nil && err != nil, "routes to an unknown name")
		}
	}
}
