// Package c24: in-dialog messages are constructed as RFC 3261 requires.
package c24

import (
	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zzv/gen"
	"github.com/jart/gosip/zzv/ref"
	"github.com/jart/gosip/zzv/v"
)

func bound() {
	v.Bound("all contents with texts of one arbitrary octet, Via chains of 1..3 hops, address lists and route sets of 0..3 (quick) or 0..6 (thorough) entries, all numbers; absent parts one at a time")
}

func routes() int {
	bound()
	if v.Thorough() {
		return v.Case(7)
	}
	return v.Case(4)
}

// message has everything a received message can have.
func message(s *gen.Src, vias, rr int) *sip.Msg {
	return &sip.Msg{VersionMajor: 2, Via: s.Via(vias), From: s.Addr(1), To: s.Addr(1), CallID: s.Str(), CSeq: s.Num(), CSeqMethod: s.Str(),
		RecordRoute: s.Addr(rr), Route: s.Addr(2), Contact: s.Addr(1), Authorization: s.Str(), ProxyAuthorization: s.Str(), UserAgent: s.Str(), MaxForwards: s.Num(), Subject: s.Str()}
}

func request(s *gen.Src, method string, vias, rr int) *sip.Msg {
	m := message(s, vias, rr)
	m.Method, m.Request = method, s.URI()
	return m
}

func response(s *gen.Src, status, vias, rr int) *sip.Msg {
	m := message(s, vias, rr)
	m.Status, m.Phrase = status, s.Str()
	return m
}

// reversed is a's list backwards.
func reversed(a *sip.Addr) *sip.Addr {
	var r *sip.Addr
	for ; a != nil; a = a.Next {
		b := *a
		b.Next = r
		r = &b
	}
	return r
}

// H_Response: responses to all requests.
func H_Response() {
	rr := routes()
	vias := 1 + v.Case(3)
	status := v.Int()
	v.Assume(v.And(status >= 100, status <= 699))
	method := v.Str(1)
	var s gen.Src
	req := request(&s, method, vias, rr)
	if v.Case(2) == 1 {
		req.From, req.To, req.RecordRoute = nil, nil, nil
	}
	r := dialog.NewResponse(req, status)
	s.Rewind()
	was := request(&s, method, vias, rr)
	if req.From == nil {
		was.From, was.To, was.RecordRoute = nil, nil, nil
	}
	ref.AssertMsg(req, was)
	v.Assert(r.Status == status && r.Method == "" && r.Request == nil, "not a response with the status")
	v.Assert(ref.ViaEqual(r.Via, was.Via), "Via of the response")
	v.Assert(ref.AddrEqual(r.From, was.From), "From of the response")
	v.Assert(ref.AddrEqual(r.To, was.To), "To of the response")
	v.Assert(r.CallID == was.CallID, "Call-ID of the response")
	v.Assert(v.And(r.CSeq == was.CSeq, r.CSeqMethod == was.CSeqMethod), "CSeq of the response")
	v.Assert(ref.AddrEqual(r.RecordRoute, was.RecordRoute), "Record-Route of the response")
	v.Assert(r.Route == nil && r.Payload == nil, "the response carries too much")
}

// H_Phrase: the phrase of every standard status.
func H_Phrase() {
	bound()
	status := 100 + v.Case(6)*100 + v.Choose(100)
	r := dialog.NewResponse(&sip.Msg{}, status)
	want, ok := phrases[status]
	v.Assert(!ok || r.Phrase == want, "phrase of a standard status")
	v.Assert(r.Phrase != "" && r.Status == status, "no phrase")
}

// H_Ack: ACKs of all responses.
func H_Ack() {
	rr := routes()
	vias := 1 + v.Case(3)
	status := v.Int()
	v.Assume(v.And(status >= 200, status <= 699))
	contact := v.Case(2) == 1
	var s gen.Src
	build := func() (msg, invite *sip.Msg) {
		msg, invite = response(&s, status, vias, rr), request(&s, "INVITE", 1, 1)
		if !contact {
			msg.Contact = nil
		}
		return
	}
	msg, invite := build()
	a := dialog.NewAck(msg, invite)
	s.Rewind()
	msg0, invite0 := build()
	ref.AssertMsg(msg, msg0)
	ref.AssertMsg(invite, invite0)
	v.Assert(a.Method == "ACK" && a.Status == 0 && a.CSeqMethod == "ACK", "method of the ACK")
	if status >= 300 {
		v.Reach("failure")
		v.Assert(ref.URIEqual(a.Request, invite0.Request), "request URI of the ACK is not the INVITE's")
		v.Assert(ref.AddrEqual(a.Route, invite0.Route), "route of the ACK of a failure")
	} else {
		v.Reach("success")
		v.Assert(!contact || ref.URIEqual(a.Request, msg0.Contact.Uri), "request URI of the ACK is not the Contact")
		v.Assert(ref.AddrEqual(a.Route, reversed(msg0.RecordRoute)), "route set of the ACK")
	}
	v.Assert(ref.AddrEqual(a.From, msg0.From), "From of the ACK")
	v.Assert(ref.AddrEqual(a.To, msg0.To), "To of the ACK")
	v.Assert(v.And(a.CallID == msg0.CallID, a.CSeq == msg0.CSeq), "Call-ID or CSeq of the ACK")
	v.Assert(a.Via != nil && a.Via.Next == nil, "number of Vias of the ACK")
	first := *msg0.Via
	first.Next = nil
	v.Assert(ref.ViaEqual(a.Via, &first), "Via of the ACK")
	v.Assert(v.And(a.Authorization == invite0.Authorization, a.ProxyAuthorization == invite0.ProxyAuthorization), "credentials of the ACK")
	v.Assert(a.Payload == nil, "the ACK has a payload")
}

// H_Cancel: the CANCEL of every INVITE.
func H_Cancel() {
	vias := 1 + routes()%3
	var s gen.Src
	hasRoute := v.Case(2) == 1
	build := func() *sip.Msg {
		m := request(&s, "INVITE", vias, 1)
		if !hasRoute {
			m.Route = nil
		}
		return m
	}
	invite := build()
	c := dialog.NewCancel(invite)
	s.Rewind()
	was := build()
	ref.AssertMsg(invite, was)
	v.Assert(c.Method == "CANCEL" && c.Status == 0 && c.CSeqMethod == "CANCEL", "method of the CANCEL")
	v.Assert(ref.URIEqual(c.Request, was.Request), "request URI of the CANCEL")
	v.Assert(ref.ViaEqual(c.Via, was.Via), "Via of the CANCEL")
	v.Assert(ref.AddrEqual(c.From, was.From), "From of the CANCEL")
	v.Assert(ref.AddrEqual(c.To, was.To), "To of the CANCEL")
	v.Assert(v.And(c.CallID == was.CallID, c.CSeq == was.CSeq), "Call-ID or CSeq of the CANCEL")
	v.Assert(ref.AddrEqual(c.Route, was.Route), "Route of the CANCEL")
	v.Assert(c.Payload == nil, "the CANCEL has a payload")
}

// H_Bye: successive BYEs.
func H_Bye() {
	rr := routes()
	withSeq := v.Case(2) == 1
	var s gen.Src
	lseq := v.Int()
	v.Assume(v.And(lseq >= 0, lseq < 1<<31))
	invite, remote := request(&s, "INVITE", 1, 1), response(&s, 200, 1, rr)
	v.Assume(v.And(invite.CSeq >= 0, invite.CSeq < 1<<31))
	next := invite.CSeq + 1
	var p *int
	if withSeq {
		n := lseq
		p = &n
		next = lseq + 1
	}
	for i := 0; i < 3; i++ {
		b := dialog.NewBye(invite, remote, p)
		s.Rewind()
		invite0, remote0 := request(&s, "INVITE", 1, 1), response(&s, 200, 1, rr)
		ref.AssertMsg(invite, invite0)
		ref.AssertMsg(remote, remote0)
		v.Assert(b.Method == "BYE" && b.Status == 0 && b.CSeqMethod == "BYE", "method of the BYE")
		v.Assert(ref.URIEqual(b.Request, remote0.Contact.Uri), "request URI of the BYE")
		v.Assert(ref.AddrEqual(b.From, invite0.From), "From of the BYE")
		v.Assert(ref.AddrEqual(b.To, remote0.To), "To of the BYE")
		v.Assert(b.CallID == invite0.CallID, "Call-ID of the BYE")
		v.Assert(ref.AddrEqual(b.Route, reversed(remote0.RecordRoute)), "route set of the BYE")
		v.Assert(b.Payload == nil, "the BYE has a payload")
		if withSeq {
			v.Assert(b.CSeq == next+i, "CSeq of the BYE")
			v.Assert(*p == b.CSeq, "the last CSeq is not remembered")
		} else {
			v.Assert(b.CSeq == next, "CSeq of the BYE")
		}
	}
}
