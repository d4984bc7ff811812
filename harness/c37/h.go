// Package c37: tracing and time stamps leave the messages alone.
package c37

import (
	"strconv"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
	rand "github.com/jart/gosip/zzv/crand"
	"github.com/jart/gosip/zzv/dlg"
	"github.com/jart/gosip/zzv/net"
	"github.com/jart/gosip/zzv/ref"
	"github.com/jart/gosip/zzv/v"
)

func bound() {
	v.Bound("tracing, time stamps or both; datagrams of up to 3 (thorough: 5) arbitrary octets, messages of 4 kinds with a window of that many less one; requests and responses with any letters and hop limits 0..3 sent twice in a row to a server or to nobody; calls in each of 9 states with every single event of 24 kinds")
}

// settings switches tracing and time stamps on.
func settings(k int) (stamps bool) {
	dlg.Defaults()
	if k != 1 {
		dlg.Set("trace", "true")
	}
	if k != 0 {
		dlg.Set("timestampTagging", "true")
	}
	return k != 0
}

var peer = &net.UDPAddr{IP: net.ParseIP("192.0.2.7").To4(), Port: 5060}

// strip removes the time stamps of the topmost Via, which must be now.
func strip(m *sip.Msg, stamps bool) {
	if m == nil || m.Via == nil {
		return
	}
	now := strconv.FormatInt(time.Now().UnixNano()/1000, 10)
	n := 0
	var list []*sip.Param
	for p := m.Via.Param; p != nil; p = p.Next {
		if p.Name == "usi" {
			n++
			v.Assert(p.Value == now, "wrong time stamp")
			continue
		}
		list = append(list, p)
	}
	v.Assert(n > 0 || !stamps, "no time stamp")
	v.Assert(n == 0 || stamps, "a time stamp for nothing")
	m.Via.Param = nil
	for i := len(list) - 1; i >= 0; i-- {
		list[i].Next = m.Via.Param
		m.Via.Param = list[i]
	}
	for w := m.Via.Next; w != nil; w = w.Next {
		v.Assert(w.Param.Get("usi") == nil, "time stamp in another Via")
	}
}

var texts = []string{
	"BYE sip:a@192.0.2.9 SIP/2.0\r\nVia: SIP/2.0/UDP 192.0.2.7;branch=z, SIP/2.0/UDP below:7\r\nFrom: <sip:b>;tag=1\r\nCall-ID: i\r\nCSeq: 7 BYE\r\nX: y\r\nContent-Type: t/u\r\nContent-Length: 3\r\n\r\nabc",
	"SIP/2.0 200 OK\r\nVia: SIP/2.0/UDP 192.0.2.1:5060\r\nCall-ID: i\r\n\r\n",
	"OPTIONS sip:a SIP/2.0\r\nVia: SIP/2.0/UDP 192.0.2.7;usi\r\nCall-ID: i\r\n\r\n",
	"OPTIONS sip:a SIP/2.0\r\nCall-ID: i\r\n\r\n",
}

// H_Receive: receiving.
func H_Receive() {
	bound()
	net.Reset()
	stamps := settings(v.Case(3))
	n := 3
	if v.Thorough() {
		n = 5
	}
	sock := net.NewUDPConn(&net.UDPAddr{IP: net.ParseIP("192.0.2.1").To4(), Port: 5060}, nil)
	c, e := make(chan *sip.Msg), make(chan error)
	go dialog.ReceiveMessages(sock, c, e)
	var b string
	if k := v.Case(5); k < 4 {
		b = texts[k]
		if k == 0 {
			const step = 4
			i := v.Choose((len(b)+step-1)/step) * step
			if i > len(b)-n+1 {
				v.Skip()
			}
			b = b[:i] + v.Str(n-1) + b[i+n-1:]
		}
	} else {
		b = v.Str(v.Choose(n + 1))
	}
	for i := 0; i < 2; i++ {
		want, err := sip.ParseMsg([]byte(b))
		if err != nil || want.Via == nil {
			want = nil
		}
		sock.Inject([]byte(b), peer)
		v.Settle()
		var got *sip.Msg
		select {
		case got = <-c:
			v.Assert(got != nil, "channel closed")
		case <-e:
			v.Assert(false, "a datagram stopped the receiver")
		default:
		}
		v.Assert((got == nil) == (want == nil), "dropped or delivered because of the setting")
		if got == nil || want == nil {
			v.Reach("dropped")
		} else {
			v.Reach("delivered")
			if want.Via.Param.Get("usi") != nil {
				// There already: the parameters are not looked at.
				got.Via, want.Via = nil, nil
			} else {
				strip(got, stamps)
				unreceive(got)
				unreceive(want)
			}
			got.Route, want.Route = nil, nil
			ref.AssertMsg(got, want)
		}
		b = texts[1]
	}
}

// unreceive removes the parameters a receiver adds.
func unreceive(m *sip.Msg) {
	if m.Via == nil || m.IsResponse() {
		return
	}
	var list []*sip.Param
	for p := m.Via.Param; p != nil; p = p.Next {
		if p.Name != "received" && p.Name != "rport" {
			list = append(list, p)
		}
	}
	m.Via.Param = nil
	for i := len(list) - 1; i >= 0; i-- {
		list[i].Next = m.Via.Param
		m.Via.Param = list[i]
	}
}

func letter() string {
	s := v.Str(1)
	v.Assume(v.And(s[0] >= 'a', s[0] <= 'z'))
	return s
}

// H_Send: sending.
func H_Send() {
	bound()
	net.Reset()
	rand.Restart()
	k := v.Case(3)
	dlg.Defaults()
	tp, err := dialog.NewTransport(&sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "me", Host: "192.0.2.1"}})
	v.Assert(err == nil && tp != nil, "transport not opened")
	response := v.Case(2) == 1
	hop := v.Choose(4)
	host := []string{"198.51.100.1", "unknown.example"}[v.Choose(2)]
	word := letter()
	build := func() *sip.Msg {
		if response {
			return &sip.Msg{Status: 200, CallID: word, CSeq: 1, CSeqMethod: "A", MaxForwards: hop,
				Via: &sip.Via{Host: "192.0.2.1", Port: uint16(tp.Sock.LocalAddr().(*net.UDPAddr).Port), Next: &sip.Via{Host: host, Param: &sip.Param{Name: "branch", Value: word}}},
				To:  &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "t"}}, From: &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "f"}}}
		}
		return &sip.Msg{Method: "MESSAGE", Request: &sip.URI{Scheme: "sip", User: word, Host: host}, MaxForwards: hop, Subject: word,
			Payload: &sip.MiscPayload{T: "text/plain", D: []byte(word)}}
	}
	// what is sent without the settings
	send := func() *sip.Msg {
		n := len(tp.Sock.Sent)
		err := tp.Send(build())
		if err != nil {
			v.Assert(len(tp.Sock.Sent) == n, "sent all the same")
			return nil
		}
		v.Assert(len(tp.Sock.Sent) == n+1, "number of datagrams")
		p := tp.Sock.Sent[n]
		v.Assert(p.Addr.String() == host+":5060", "destination")
		m, err := sip.ParseMsg(p.Data)
		v.Assert(err == nil && m != nil, "not a SIP message")
		return m
	}
	rand.Restart()
	plain := send()
	rand.Restart()
	plain2 := send()
	stamps := settings(k)
	rand.Restart()
	first := send()
	rand.Restart()
	second := send()
	for i, got := range []*sip.Msg{first, second} {
		want := []*sip.Msg{plain, plain2}[i]
		v.Assert((got == nil) == (want == nil), "sent or not because of the setting")
		if got == nil || want == nil {
			v.Reach("not sent")
			continue
		}
		v.Reach("sent")
		n := 0
		for p := got.Via.Param; p != nil; p = p.Next {
			if p.Name == "usi" {
				n++
			}
		}
		v.Assert(n == 0 && !stamps || n == 1 && stamps, "number of time stamps")
		strip(got, stamps)
		ref.AssertMsg(got, want)
	}
}

// H_Call: calls go on as usual.
func H_Call() {
	bound()
	s := v.Case(2) * 2
	var stamps bool
	dlg.Setup = func(m *dlg.Model) {
		stamps = settings(s)
		m.Stamps = stamps
	}
	dlg.OnSent = func(m *sip.Msg) {
		now := strconv.FormatInt(time.Now().UnixNano()/1000, 10)
		is := false
		for p := m.Via.Param; p != nil; p = p.Next {
			is = is || p.Name == "usi" && p.Value == now
		}
		v.Assert(is == stamps, "time stamp missing or for nothing")
	}
	dlg.Few = true
	m := dlg.Prefix(dlg.Reports|dlg.Replies|dlg.Requests, v.Case(dlg.NPrefixes))
	m.Event(v.Choose(dlg.NEvents))
	if m.Phase != dlg.Over {
		m.Request(dlg.Ask{Method: "OPTIONS", Digits: "200", CSeq: 200})
	}
	m.After()
}
