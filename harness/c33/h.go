// Package c33: transports send exactly the completed message to the next hop.
package c33

import (
	"errors"
	"strconv"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
	rand "github.com/jart/gosip/zzv/crand"
	"github.com/jart/gosip/zzv/net"
	"github.com/jart/gosip/zzv/ref"
	"github.com/jart/gosip/zzv/v"
)

func bound() {
	v.Bound("requests with texts containing arbitrary letters, all combinations of absent parts, hop limits 0..255, destinations given by name, address or unknown, with any one- or two-digit port or one of 5 others, by request URI, loose or strict route; responses with received and rport; failing sockets; one send or two")
}

func world() {
	net.Reset()
	rand.Restart()
	net.Hosts = map[string]string{"example.com": "198.51.100.7", "here": "192.0.2.1"}
}

func letter() string {
	s := v.Str(1)
	v.Assume(v.And(s[0] >= 'a', s[0] <= 'z'))
	return s
}

func open(port uint16) *dialog.Transport {
	tp, err := dialog.NewTransport(&sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "me", Host: "192.0.2.1", Port: port}})
	v.Assert(err == nil && tp != nil, "transport not opened")
	return tp
}

func sent() (r []net.Packet) {
	for _, c := range net.Conns {
		r = append(r, c.Sent...)
	}
	return
}

func param(p *sip.Param) (r []*sip.Param) {
	for ; p != nil; p = p.Next {
		if p.Name != "usi" {
			r = append(r, p)
		}
	}
	return
}

// destination is a host and port and what they resolve to.
func destination() (host string, port uint16, addr string) {
	switch v.Choose(4) {
	case 0:
		host, addr = "198.51.100.1", "198.51.100.1"
	case 1:
		host, addr = "example.com", "198.51.100.7"
	case 2:
		host, addr = "2001:db8::7", "2001:db8::7"
	case 3:
		host = "unknown.example"
	}
	switch v.Choose(3) {
	case 0:
	case 1:
		port = v.Uint16()
		v.Assume(v.And(port > 0, port < 100))
	case 2:
		port = []uint16{5060, 5061, 9999, 10000, 65535}[v.Choose(5)]
	}
	if addr != "" {
		p := 5060
		if port != 0 {
			p = int(port)
		}
		addr = net.JoinHostPort(addr, strconv.Itoa(p))
	}
	return
}

// check asserts that exactly this was sent, and only this.
func check(tp *dialog.Transport, msg *sip.Msg, err error, addr string, n int) *sip.Msg {
	p := sent()
	if addr == "" {
		v.Assert(err != nil, "no error")
		v.Assert(len(p) == n, "sent all the same")
		v.Reach("not sent")
		return nil
	}
	v.Assert(err == nil, "not sent")
	v.Assert(len(p) == n+1 && len(tp.Sock.Sent) == n+1, "number of datagrams")
	if len(p) != n+1 {
		return nil
	}
	v.Assert(p[n].Addr != nil && p[n].Addr.String() == addr, "destination")
	m, e := sip.ParseMsg(p[n].Data)
	v.Assert(e == nil && m != nil, "not a SIP message")
	v.Reach("sent")
	return m
}

// H_Request: requests.
func H_Request() {
	bound()
	world()
	c := v.Case(16)
	tp := open(uint16(c>>3) * 7000)
	host, port, addr := destination()
	uri := &sip.URI{Scheme: "sip", User: letter(), Host: host, Port: port}
	target := &sip.URI{Scheme: "sip", User: "to", Host: "example.com"}
	m := &sip.Msg{Method: "MESSAGE", Request: uri, Subject: letter()}
	last := uri
	var route *sip.Addr
	switch c & 3 {
	case 1: // loose route
		uri.Param = &sip.URIParam{Name: "lr"}
		m.Request, last = target, target
		route = &sip.Addr{Uri: uri, Next: &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "second"}}}
	case 2: // strict route
		m.Request, last = target, target
		route = &sip.Addr{Uri: uri, Next: &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "second"}}}
	case 3: // our own route
		route = &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "192.0.2.1", Port: tp.Contact.Uri.Port}}
	}
	m.Route = route
	full := c&4 > 0
	max := 70
	if full {
		m.CallID, m.CSeq, m.UserAgent = letter(), 77, letter()
		m.From = &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: letter(), Host: "f"}, Param: &sip.Param{Name: "tag", Value: letter()}}
		m.To = &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: letter(), Host: "t"}}
		m.Payload = &sip.MiscPayload{T: "text/plain", D: []byte(letter())}
		max = 1 + v.Choose(4)
		if max == 4 {
			max = 255
		}
		m.MaxForwards = max
	}
	if max == 1 {
		addr = ""
	}
	err := tp.Send(m)
	got := check(tp, m, err, addr, 0)
	if got == nil {
		return
	}
	v.Assert(got.Method == "MESSAGE" && got.CSeqMethod == "MESSAGE", "method sent")
	v.Assert(got.MaxForwards == max-1, "hop limit sent")
	v.Assert(got.Subject == m.Subject, "text sent")
	w := got.Via
	v.Assert(w != nil && w.Next == nil, "number of Vias")
	v.Assert(w.Host == "192.0.2.1" && int(w.Port) == tp.Sock.LocalAddr().(*net.UDPAddr).Port, "Via does not name our socket")
	b := w.Param.Get("branch")
	v.Assert(b != nil && len(b.Value) > 7 && b.Value[:7] == "z9hG4bK", "branch")
	v.Assert(ref.AddrEqual(got.Contact, tp.Contact), "Contact is not the transport's")
	if full {
		v.Assert(v.And(got.CallID == m.CallID, got.CSeq == 77), "Call-ID or CSeq sent")
		v.Assert(ref.AddrEqual(got.From, m.From) && ref.AddrEqual(got.To, m.To), "From or To sent")
		p, is := got.Payload.(*sip.MiscPayload)
		v.Assert(is && p.T == "text/plain" && string(p.D) == string(m.Payload.Data()), "payload sent")
		v.Assert(got.UserAgent == m.UserAgent, "User-Agent sent")
	} else {
		v.Assert(len(got.CallID) > 0 && got.CSeq > 0 && got.From != nil && got.From.Param.Get("tag") != nil && got.To != nil && len(got.UserAgent) > 0, "part missing")
		v.Assert(ref.URIEqual(got.To.Uri, last), "To is not the target")
	}
	switch c & 3 {
	case 0, 3:
		v.Assert(ref.URIEqual(got.Request, uri) && got.Route == nil, "request URI or Route sent")
	case 1:
		v.Assert(ref.URIEqual(got.Request, target) && ref.AddrEqual(got.Route, route), "request URI or Route sent")
	case 2:
		v.Assert(ref.URIEqual(got.Request, uri), "request URI sent")
		r := got.Route
		v.Assert(r != nil && r.Next != nil && r.Next.Next == nil && r.Uri.Host == "second" && ref.URIEqual(r.Next.Uri, target), "Route sent")
	}

	// another one has another branch
	m2 := &sip.Msg{Method: "A", Request: &sip.URI{Scheme: "sip", Host: "198.51.100.1"}}
	got2 := check(tp, m2, tp.Send(m2), "198.51.100.1:5060", 1)
	if got2 != nil {
		v.Assert(got2.Via.Param.Get("branch") != nil && got2.Via.Param.Get("branch").Value != b.Value, "the branch of another request")
	}
}

// H_Response: responses.
func H_Response() {
	bound()
	world()
	c := v.Case(8)
	tp := open(5060)
	host, port, addr := destination()
	w := &sip.Via{Host: host, Port: port, Param: &sip.Param{Name: "branch", Value: letter()}}
	if c&1 > 0 { // received elsewhere
		w = &sip.Via{Host: "h", Port: 9, Param: &sip.Param{Name: "received", Value: host, Next: &sip.Param{Name: "rport", Value: strconv.Itoa(int(port))}}}
	}
	top := w
	if c&2 > 0 {
		top = &sip.Via{Host: "192.0.2.1", Port: 5060, Next: w}
	}
	if c&4 > 0 {
		w.Next = &sip.Via{Host: "below"}
	}
	m := &sip.Msg{Status: 200, Phrase: "Fine", Via: top, CallID: letter(), CSeq: 5, CSeqMethod: "INVITE",
		From: &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "f"}}, To: &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "t"}, Param: &sip.Param{Name: "tag", Value: letter()}}}
	got := check(tp, m, tp.Send(m), addr, 0)
	if got == nil {
		return
	}
	v.Assert(got.Status == 200 && got.Phrase == "Fine" && got.CallID == m.CallID && got.CSeq == 5 && got.CSeqMethod == "INVITE", "another response sent")
	v.Assert(ref.AddrEqual(got.From, m.From) && ref.AddrEqual(got.To, m.To), "From or To sent")
	n := 0
	for g, x := got.Via, w; g != nil || x != nil; g, x = g.Next, x.Next {
		v.Assert(g != nil && x != nil, "number of Vias sent")
		if g == nil || x == nil {
			return
		}
		v.Assert(g.Host == x.Host && g.Port == x.Port, "Via sent")
		p, q := param(g.Param), param(x.Param)
		v.Assert(len(p) == len(q), "parameters of the Via sent")
		for i := range p {
			if i < len(q) {
				v.Assert(p[i].Name == q[i].Name && p[i].Value == q[i].Value, "parameters of the Via sent")
			}
		}
		n++
	}
	v.Assert(n > 0, "no Via")
	v.Assert(got.Contact == nil && got.Route == nil && got.Payload == nil, "parts added to a response")
}

// H_Refused: messages that can't be sent.
func H_Refused() {
	bound()
	world()
	tp := open(5060)
	to := &sip.URI{Scheme: "sip", Host: "198.51.100.1"}
	var m *sip.Msg
	switch v.Case(4) {
	case 0: // routed REGISTER
		m = &sip.Msg{Method: "REGISTER", Request: to, Route: &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "198.51.100.2"}}}
	case 1: // nobody to respond to
		m = &sip.Msg{Status: 200, Via: &sip.Via{Host: "192.0.2.1", Port: 5060}}
	case 2: // failing socket
		net.OnWrite = func(c *net.UDPConn, p net.Packet) error { return errors.New("failure") }
		m = &sip.Msg{Method: "A", Request: to}
	case 3: // closed socket
		tp.Sock.Close()
		m = &sip.Msg{Method: "A", Request: to}
	}
	check(tp, m, tp.Send(m), "", 0)
}

// H_Open: opening transports and receiving through them.
func H_Open() {
	bound()
	world()
	host := []string{"192.0.2.1", "here", "unknown.example"}[v.Case(3)]
	port := []uint16{0, 5060, 7, 65535}[v.Choose(4)]
	if v.Case(2) == 1 {
		net.ListenErr = func(string) error { return errors.New("in use") }
	}
	build := func() *sip.Addr {
		return &sip.Addr{Display: "d", Uri: &sip.URI{Scheme: "sip", User: "me", Host: host, Port: port, Param: &sip.URIParam{Name: "x", Value: "y"}},
			Param: &sip.Param{Name: "q", Value: "1"}, Next: &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "next"}}}
	}
	contact := build()
	tp, err := dialog.NewTransport(contact)
	v.Assert(ref.AddrEqual(contact, build()), "the caller's Contact changed")
	if host == "unknown.example" || net.ListenErr != nil {
		v.Assert(err != nil && tp == nil, "opened a transport without socket")
		v.Reach("not opened")
		return
	}
	v.Assert(err == nil && tp != nil && len(net.Conns) == 1, "not opened")
	v.Reach("opened")
	a := net.Conns[0].LocalAddr().(*net.UDPAddr)
	v.Assert(tp.Sock == net.Conns[0] && a.IP.String() == "192.0.2.1" && (port == 0 || a.Port == int(port)), "bound elsewhere")
	v.Assert(tp.Via != nil && tp.Via.Host == "192.0.2.1" && int(tp.Via.Port) == a.Port && tp.Via.Next == nil, "Via of the transport")
	u := tp.Contact.Uri
	v.Assert(tp.Contact.Next == nil && tp.Contact.Display == "d" && u.Scheme == "sip" && u.User == "me" && u.Host == host && int(u.Port) == a.Port, "Contact of the transport")
	n := 0
	for p := u.Param; p != nil; p = p.Next {
		n++
	}
	t, x := u.Param.Get("transport"), u.Param.Get("x")
	v.Assert(n == 2 && t != nil && t.Value == "udp" && x != nil && x.Value == "y", "parameters of the transport's Contact")

	k := v.Choose(3)
	var ids []string
	for i := 0; i < k; i++ {
		id := letter()
		ids = append(ids, id)
		tp.Sock.Inject([]byte("A sip:b SIP/2.0\r\nVia: SIP/2.0/UDP 192.0.2.7\r\nCall-ID: "+id+"\r\n\r\n"), &net.UDPAddr{IP: net.IPv4(192, 0, 2, 7), Port: 5060})
	}
	for _, id := range ids {
		v.Settle()
		select {
		case m := <-tp.C:
			v.Assert(m != nil && m.CallID == id, "another message received")
		default:
			v.Assert(false, "message not received")
		}
	}
	if v.Choose(2) == 1 {
		tp.Sock.Close()
	} else {
		tp.Sock.InjectErr(errors.New("broken"))
	}
	v.Settle()
	select {
	case e, ok := <-tp.E:
		v.Assert(ok && e != nil, "no error reported")
	default:
		v.Assert(false, "the end of the socket is not reported")
	}
	v.Settle()
	_, ok1 := <-tp.C
	_, ok2 := <-tp.E
	v.Assert(!ok1 && !ok2, "channels not closed")
}
