// Package c27: received messages are vetted, stamped and stay intact.
package c27

import (
	"errors"
	"strconv"
	"strings"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zzv/net"
	"github.com/jart/gosip/zzv/ref"
	"github.com/jart/gosip/zzv/v"
)

type rx struct {
	sock *net.UDPConn
	c    chan *sip.Msg
	e    chan error
}

func open(local string, port int) *rx {
	net.Reset()
	ip := net.ParseIP(local)
	if v4 := ip.To4(); v4 != nil {
		ip = v4
	}
	r := &rx{net.NewUDPConn(&net.UDPAddr{IP: ip, Port: port}, nil), make(chan *sip.Msg), make(chan error)}
	go dialog.ReceiveMessages(r.sock, r.c, r.e)
	return r
}

func addr(ip string, port int) *net.UDPAddr {
	p := net.ParseIP(ip)
	if v4 := p.To4(); v4 != nil {
		p = v4
	}
	return &net.UDPAddr{IP: p, Port: port}
}

var peer = addr("192.0.2.7", 5060)

// poll is the message waiting, if any.
func (r *rx) poll() *sip.Msg {
	v.Settle()
	select {
	case m, ok := <-r.c:
		v.Assert(ok && m != nil, "message channel closed while datagrams keep arriving")
		return m
	case <-r.e:
		v.Assert(false, "a datagram stopped the receiver")
	default:
	}
	return nil
}

func size() int {
	v.Bound("datagrams of up to 3 (quick) or 5 (thorough) arbitrary octets, whole messages with windows of that many, all combinations of absent headers, sender and Via addresses from lists of 4 to 6 with parameters present or absent, sequences of two datagrams and a probe")
	if v.Thorough() {
		return 5
	}
	return 3
}

const probe = "OPTIONS sip:x SIP/2.0\r\nVia: SIP/2.0/UDP 192.0.2.7\r\nCall-ID: probe\r\n\r\n"

func via(m *sip.Msg) *sip.Via { return m.Via }

// expected is what a datagram should be delivered as before its Via is
// stamped and its routes fixed.
func expected(b string) *sip.Msg {
	m, err := sip.ParseMsg([]byte(b))
	if err != nil || m == nil || m.Via == nil {
		return nil
	}
	return m
}

// alive asserts that the receiver still delivers.
func (r *rx) alive() {
	r.sock.Inject([]byte(probe), peer)
	m := r.poll()
	v.Assert(m != nil && m.CallID == "probe" && m.Method == "OPTIONS", "receiver stopped delivering")
	v.Assert(r.poll() == nil, "more messages than datagrams")
}

// deliver injects one datagram and asserts that it comes out if it should.
func (r *rx) deliver(b string, from *net.UDPAddr) *sip.Msg {
	r.sock.Inject([]byte(b), from)
	m := r.poll()
	want := expected(b)
	if want == nil {
		v.Assert(m == nil, "delivered a datagram that is no complete message")
		v.Reach("dropped")
		return nil
	}
	v.Assert(m != nil, "dropped a message")
	v.Reach("delivered")
	return m
}

// H_Garbage: arbitrary datagrams.
func H_Garbage() {
	n := size()
	r := open("192.0.2.1", 5060)
	r.deliver(v.Str(v.Case(n+1)), peer)
	r.alive()
}

var full = []string{
	"BYE sip:a@192.0.2.1;lr SIP/2.0\r\n", "Via: SIP/2.0/UDP h;branch=z;rport\r\n", "From: <sip:b>;tag=1\r\n", "To: <sip:c>\r\n", "Call-ID: i\r\n",
	"CSeq: 7 BYE\r\n", "Route: <sip:192.0.2.1>, <sip:d>\r\n", "X: y\r\n", "Content-Type: t/u\r\nContent-Length: 3\r\n", "\r\nabc",
}

// H_Absent: every combination of absent headers, in requests and responses.
func H_Absent() {
	size()
	start := []string{full[0], "SIP/2.0 200 OK\r\n", "SIP/9.1 700 \r\n", "\x00 sip:b SIP/2.0\r\n"}[v.Case(4)]
	b := start
	for _, h := range full[1:] {
		if v.Choose(2) == 1 {
			b += h
		}
	}
	r := open("192.0.2.1", 5060)
	v.Obs("datagram", b)
	r.deliver(b, peer)
	r.alive()
}

// H_Window: arbitrary octets anywhere in a message.
func H_Window() {
	n := size() - 1
	b := strings.Join(full, "")
	const step = 4
	i := v.Case((len(b)+step-1)/step)*step + v.Choose(step)
	if i > len(b)-n {
		v.Skip()
	}
	b = b[:i] + v.Str(n) + b[i+n:]
	r := open("192.0.2.1", 5060)
	r.deliver(b, peer)
	r.alive()
}

func others(p *sip.Param) (r []*sip.Param) {
	for ; p != nil; p = p.Next {
		if p.Name != "rport" && p.Name != "received" {
			r = append(r, p)
		}
	}
	return
}

// H_Stamp: the sender's address on requests, and on nothing else.
func H_Stamp() {
	size()
	from := []*net.UDPAddr{addr("192.0.2.7", 5060), addr("192.0.2.7", 7002), addr("192.0.2.70", 5060), addr("2001:db8::7", 5060), addr("2001:db8::7", 7002)}[v.Case(5)]
	response := v.Case(2) == 1
	host := []string{"192.0.2.7", "192.0.2.7:5060", "192.0.2.7:7002", "h", "[2001:db8::7]", "[2001:db8::7]:7002", "192.0.2." + v.Str(1)}[v.Choose(7)]
	if len(host) == 9 {
		v.Assume(ref.Digit(host[8]))
	}
	params := []string{"", ";branch=z", ";rport", ";rport;branch=z", ";x;rport=9;branch=z"}[v.Choose(5)] + []string{"", ";received=203.0.113.9", ";received=192.0.2.7"}[v.Choose(3)]
	b := "BYE sip:b SIP/2.0\r\n"
	if response {
		b = "SIP/2.0 200 OK\r\n"
	}
	b += "Via: SIP/2.0/UDP " + host + params + ", SIP/2.0/TCP below;rport\r\nCall-ID: i\r\n\r\n"
	r := open("192.0.2.1", 5060)
	m := r.deliver(b, from)
	want := expected(b)
	v.Assert(want != nil && m != nil, "template refused")
	if want == nil || m == nil {
		return
	}
	if response {
		ref.AssertMsg(m, want)
		return
	}
	w, g := want.Via, m.Via
	v.Assert(v.And(g.Host == w.Host, g.Port == w.Port) && ref.ViaEqual(g.Next, w.Next), "another Via")
	x, y := others(g.Param), others(w.Param)
	v.Assert(len(x) == len(y), "other parameters changed")
	for i := range x {
		v.Assert(x[i].Name == y[i].Name && x[i].Value == y[i].Value, "other parameters changed")
	}
	ip := from.IP.String()
	rport, received := g.Param.Get("rport"), g.Param.Get("received")
	if int(w.Port) != from.Port || w.Param.Get("rport") != nil {
		if w.Port != 0 || from.Port != 5060 || w.Param.Get("rport") != nil {
			v.Assert(rport != nil && rport.Value == strconv.Itoa(from.Port), "real port missing")
		} else {
			v.Assert(rport == nil || rport.Value == "5060", "wrong real port")
		}
	} else {
		v.Assert(rport == nil, "real port added for nothing")
	}
	if w.Host != ip {
		v.Assert(received != nil && received.Value == ip, "real address missing")
	} else {
		v.Assert(received == nil || received.Value == ip, "wrong real address")
	}
	m.Via, want.Via = nil, nil
	ref.AssertMsg(m, want)
}

// H_Route: our Route entry and strict routers.
func H_Route() {
	size()
	local := v.Case(3)
	r := open([]string{"192.0.2.1", "192.0.2.1", "2001:db8::1"}[local], []int{5060, 7000, 7000}[local])
	own := []string{"sip:192.0.2.1", "sip:192.0.2.1:7000", "sip:[2001:db8::1]:7000"}[local]
	us := func(u *sip.URI) bool {
		p := int(u.Port)
		if p == 0 {
			p = 5060
		}
		return u.Host == []string{"192.0.2.1", "192.0.2.1", "2001:db8::1"}[local] && p == []int{5060, 7000, 7000}[local]
	}
	uris := []string{own, own + ";lr", "sip:u@192.0.2.1:5060;lr;x", "sip:p;lr", "sips:u@192.0.2.1:7001"}
	uri := func() string { return uris[v.Choose(len(uris))] }
	start := "BYE " + uri() + " SIP/2.0\r\n"
	response := v.Case(2) == 1
	if response {
		start = "SIP/2.0 200 OK\r\n"
	}
	b := start + "Via: SIP/2.0/UDP 192.0.2.7:5060\r\nCall-ID: i\r\nContact: <" + own + ">\r\nRecord-Route: <" + own + ">\r\n"
	n := v.Choose(4)
	for i := 0; i < n; i++ {
		if i == 2 {
			b += "Route: Joe <sip:last>;q\r\n"
		} else {
			b += "Route: <" + uri() + ">\r\n"
		}
	}
	b += "\r\n"
	v.Obs("datagram", b)
	m := r.deliver(b, peer)
	want := expected(b)
	v.Assert(want != nil && m != nil, "template refused")
	if want == nil || m == nil {
		return
	}
	if want.Route != nil && us(want.Route.Uri) {
		want.Route = want.Route.Next
		v.Reach("own Route removed")
	}
	if !response && want.Route != nil && us(want.Request) && want.Request.Param.Get("lr") != nil {
		var list []*sip.Addr
		for a := want.Route; a != nil; a = a.Next {
			list = append(list, a)
		}
		want.Request = list[len(list)-1].Uri
		if len(list) == 1 {
			want.Route = nil
		} else {
			list[len(list)-2].Next = nil
		}
		v.Reach("strict router")
	}
	ref.AssertMsg(m, want)
}

// H_Intact: a delivered message stays as it is while others arrive.
func H_Intact() {
	size()
	body := func(k int) string { return v.Str(k) }
	k := v.Case(4)
	texts := []string{
		"MESSAGE sip:b SIP/2.0\r\nVia: SIP/2.0/UDP 192.0.2.7:5060\r\nCall-ID: i\r\nX-H: value\r\nContent-Type: text/plain\r\nContent-Length: 4\r\n\r\n" + body(4),
		"SIP/2.0 180 Ringing\r\nVia: SIP/2.0/UDP 192.0.2.7:5060\r\nSubject: s\r\nX-H: value\r\nY: z\r\nCall-ID: i\r\n\r\n",
		"SIP/2.0 200 OK\r\nVia: SIP/2.0/UDP 192.0.2.7:5060\r\nCall-ID: i\r\nX: 1\r\nContent-Type: application/sdp\r\nContent-Length: 74\r\n\r\nv=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\nc=IN IP4 1.2.3.4\r\nt=0 0\r\nm=audio 1 X 0\r\n",
		"NOTIFY sip:u@h;p SIP/2.0\r\nVia: SIP/2.0/UDP 192.0.2.7:5060;branch=q\r\nFrom: \"A B\" <sip:f>;tag=1\r\nTo: <sip:t>\r\nCall-ID: i\r\nE: f\r\nContent-Length: 1\r\n\r\nx",
	}
	b := texts[k]
	r := open("192.0.2.1", 5060)
	m := r.deliver(b, peer)
	if m == nil {
		v.Assert(false, "template refused")
		return
	}
	was := m.String()
	want := expected(b)
	second := []string{strings.Repeat("#", 400), texts[(k+1)%4] + "tail", v.Str(3) + strings.Repeat("\r\n", 150)}[v.Choose(3)]
	r.sock.Inject([]byte(second), peer)
	m2 := r.poll()
	v.Assert(m2 != m, "the same message again")
	r.alive()
	v.Assert(m.String() == was, "a delivered message changed when others arrived")
	ref.AssertMsg(m, want)
}

// H_Large: datagrams of any size.
func H_Large() {
	size()
	n := []int{1400, 2047, 2048, 2049, 4096, 9000, 65507}[v.Case(7)]
	r := open("192.0.2.1", 5060)
	kind := v.Case(3)
	if kind == 2 && n > 9000 {
		v.Skip()
	}
	last := v.Str(2)
	b := ""
	switch kind {
	case 0: // a large payload
		head := "MESSAGE sip:b SIP/2.0\r\nVia: SIP/2.0/UDP 192.0.2.7:5060\r\nCall-ID: i\r\nContent-Type: t/u\r\n"
		l := n - len(head) - len("Content-Length: 00000\r\n\r\n")
		t := strconv.Itoa(l)
		b = head + "Content-Length: " + strings.Repeat("0", 5-len(t)) + t + "\r\n\r\n" + strings.Repeat("x", l-2) + last
	case 1: // a large payload without a length
		head := "MESSAGE sip:b SIP/2.0\r\nVia: SIP/2.0/UDP 192.0.2.7:5060\r\nCall-ID: i\r\nContent-Type: t/u\r\n\r\n"
		b = head + strings.Repeat("x", n-len(head)-2) + last
	case 2: // many headers
		head := "SIP/2.0 200 OK\r\nVia: SIP/2.0/UDP 192.0.2.7:5060\r\nCall-ID: i\r\nSubject: "
		tail := "\r\nX: " + last + "\r\n\r\n"
		b = head + strings.Repeat("s", n-len(head)-len(tail)) + tail
	}
	v.Assert(len(b) == n, "length of the template")
	m := r.deliver(b, peer)
	if m != nil {
		ref.AssertMsg(m, expected(b))
		v.Reach("whole")
	}
	r.alive()
}

// H_Order: messages come in the order they arrived in.
func H_Order() {
	size()
	r := open("192.0.2.1", 5060)
	texts := []string{"A sip:b SIP/2.0\r\nVia: SIP/2.0/UDP 192.0.2.7:5060\r\n", "SIP/2.0 100 T\r\nVia: SIP/2.0/UDP 192.0.2.7:5060\r\n", "A sip:b SIP/2.0\r\n", "bad", ""}
	var ids []string
	for i := 0; i < 4; i++ {
		t := texts[v.Choose(len(texts))]
		id := string(rune('a' + i))
		if len(t) > 30 {
			ids = append(ids, id)
		}
		if len(t) > 3 {
			t += "Call-ID: " + id + "\r\n\r\n"
		}
		r.sock.Inject([]byte(t), peer)
	}
	for _, id := range ids {
		m := r.poll()
		v.Assert(m != nil && m.CallID == id, "messages out of order")
	}
	v.Assert(r.poll() == nil, "more messages than datagrams")
	// the end of the socket is reported once, then both channels are closed
	r.sock.InjectErr(errors.New("end"))
	v.Settle()
	err, ok := <-r.e
	v.Assert(ok && err != nil && err.(*net.OpError).Err.Error() == "end", "read error not reported")
	v.Settle()
	_, ok1 := <-r.c
	_, ok2 := <-r.e
	v.Assert(!ok1 && !ok2, "channels not closed")
}
