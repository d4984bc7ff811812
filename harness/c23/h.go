// Package c23: outgoing requests are completed without overwriting what was
// set.
package c23

import (
	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zzv/gen"
	"github.com/jart/gosip/zzv/ref"
	"github.com/jart/gosip/zzv/v"
)

// param is a parameter list without the named parameter, or with it.
func param(s *gen.Src, name string, has bool) *sip.Param {
	p := &sip.Param{Name: "x" + s.Str(), Value: s.Str()}
	if has {
		p.Next = &sip.Param{Name: name, Value: s.Str(), Next: &sip.Param{Name: "lr"}}
	}
	return p
}

type opts struct {
	via, branch, contact, to, from, tag, callID, cseq, cseqMethod, max, ua bool
	spelling                                                               int
	n                                                                      int
}

func message(s *gen.Src, o opts) *sip.Msg {
	m := &sip.Msg{Method: s.Str(), Request: s.URI(), VersionMajor: 2, Route: s.Addr(1), RecordRoute: s.Addr(o.n), Subject: s.Str(), Expires: s.Num()}
	if o.via {
		m.Via = s.Via(1 + o.n)
		m.Via.Param = param(s, []string{"branch", "Branch"}[o.spelling], o.branch)
	}
	if o.contact {
		m.Contact = s.Addr(1 + o.n)
	}
	if o.to {
		m.To = s.Addr(1)
	}
	if o.from {
		m.From = s.Addr(1)
		m.From.Param = param(s, []string{"tag", "TAG"}[o.spelling], o.tag)
	}
	if o.callID {
		m.CallID = s.Str()
	}
	if o.cseq {
		m.CSeq = s.Num()
		v.Assume(m.CSeq != 0)
	}
	if o.cseqMethod {
		m.CSeqMethod = s.Str()
	}
	if o.max {
		m.MaxForwards = s.Num()
		v.Assume(m.MaxForwards != 0)
	}
	if o.ua {
		m.UserAgent = s.Str()
	}
	return m
}

func options(scalars bool) opts {
	c := v.Case(32)
	o := opts{via: c&1 > 0, contact: c&2 > 0, from: c&4 > 0, to: c&8 > 0, n: c >> 4}
	o.branch, o.tag = o.via && v.Choose(2) == 1, o.from && v.Choose(2) == 1
	if o.branch || o.tag {
		o.spelling = v.Choose(2)
	}
	if !scalars {
		return o
	}
	o.callID, o.cseq, o.cseqMethod, o.max, o.ua = v.Choose(2) == 1, v.Choose(2) == 1, v.Choose(2) == 1, v.Choose(2) == 1, v.Choose(2) == 1
	return o
}

func has(p *sip.Param, name string) bool { return p.Get(name) != nil }

func cookie(s string) bool { return len(s) > 7 && s[:7] == "z9hG4bK" }

// H_Populate: all combinations of present and absent parts.
func H_Populate() {
	v.Bound("all 2^12 combinations of present and absent parts; texts of one arbitrary octet, lists of 1 or 2 elements, all numbers and ports")
	o := options(true)
	var s gen.Src
	m := message(&s, o)
	// what the transport offers
	var t gen.Src
	via, contact := t.Via(1), t.Addr(1)
	via.Param = param(&t, "rport", v.Choose(2) == 1)
	dialog.PopulateMessage(via, contact, m)
	t.Rewind()
	via0, contact0 := t.Via(1), t.Addr(1)
	if has(via.Param, "rport") {
		via0.Param = param(&t, "rport", true)
	} else {
		via0.Param = param(&t, "rport", false)
	}
	v.Assert(ref.ViaEqual(via, via0), "the transport's Via changed")
	v.Assert(ref.AddrEqual(contact, contact0), "the transport's Contact changed")

	s.Rewind()
	want := message(&s, o)
	if !o.via {
		want.Via = via0
	}
	if !o.contact {
		want.Contact = contact0
	}
	if !o.to {
		want.To = &sip.Addr{Uri: want.Request}
	}
	if !o.from {
		v.Assert(m.From != nil && m.From.Uri != nil, "From still missing")
		c := want.Contact
		want.From = &sip.Addr{Uri: &sip.URI{Scheme: c.Uri.Scheme, User: c.Uri.User, Pass: c.Uri.Pass, Host: c.Uri.Host, Port: c.Uri.Port, Header: c.Uri.Header}, Display: c.Display}
	}
	if !o.callID {
		v.Assert(len(m.CallID) > 0, "Call-ID still missing")
		want.CallID = m.CallID
	}
	if !o.cseq {
		v.Assert(m.CSeq > 0, "CSeq still missing")
		want.CSeq = m.CSeq
	}
	if !o.cseqMethod {
		want.CSeqMethod = want.Method
	}
	if !o.max {
		want.MaxForwards = 70
	}
	if !o.ua {
		v.Assert(len(m.UserAgent) > 0, "User-Agent still missing")
		want.UserAgent = m.UserAgent
	}
	if !o.via || !o.branch {
		b := m.Via.Param.Get("branch")
		v.Assert(b != nil, "branch still missing")
		if b != nil {
			v.Assert(cookie(b.Value), "branch does not start with the magic cookie")
			v.Assert(!has(want.Via.Param, "branch"), "a second branch")
			want.Via.Param = &sip.Param{Name: "branch", Value: b.Value, Next: want.Via.Param}
		}
	}
	if !o.from || !o.tag {
		b := m.From.Param.Get("tag")
		v.Assert(b != nil, "From tag still missing")
		if b != nil {
			v.Assert(len(b.Value) > 0, "From tag is empty")
			want.From.Param = &sip.Param{Name: "tag", Value: b.Value, Next: want.From.Param}
		}
	}
	ref.AssertMsg(m, want)
	v.Reach("populated")

	// doing it again changes nothing
	dialog.PopulateMessage(via, contact, m)
	ref.AssertMsg(m, want)
}

// H_Two: requests completed from the same transport do not share their branch,
// and their parts stay apart.
func H_Two() {
	var t gen.Src
	via, contact := t.Via(1), t.Addr(1)
	a := &sip.Msg{Method: "A", Request: t.URI()}
	b := &sip.Msg{Method: "B", Request: t.URI()}
	dialog.PopulateMessage(via, contact, a)
	x := a.Via.Param.Get("branch")
	v.Assert(x != nil, "branch missing")
	was := x.Value
	dialog.PopulateMessage(via, contact, b)
	y := b.Via.Param.Get("branch")
	v.Assert(y != nil && x != y, "branch missing or shared")
	v.Assert(a.Via != b.Via, "Via shared")
	y.Value = "other"
	v.Assert(x.Value == was && a.Via.Param.Get("branch").Value == was, "branch changed with another request's")
	v.Assert(via.Param.Get("branch") == nil, "the transport's Via got a branch")
}

// H_Response: responses are left alone.
func H_Response() {
	o := options(v.Case(2) == 1 && v.Thorough())
	var s gen.Src
	st := v.Int()
	v.Assume(st > 0)
	m := message(&s, o)
	m.Status = st
	var t gen.Src
	dialog.PopulateMessage(t.Via(1), t.Addr(1), m)
	s.Rewind()
	want := message(&s, o)
	want.Status = st
	ref.AssertMsg(m, want)
}

// H_New: a new request is complete but for what the transport adds.
func H_New() {
	var s gen.Src
	n := 1 + v.Case(2)
	hasFrom := v.Case(2) == 1
	to, from := s.Addr(n), s.Addr(n)
	via, contact := s.Via(1), s.Addr(1)
	method := v.Str(1)
	tp := &dialog.Transport{Via: via, Contact: contact}
	if !hasFrom {
		from = nil
	}
	m := dialog.NewRequest(tp, method, to, from)
	s.Rewind()
	to0, from0 := s.Addr(n), s.Addr(n)
	via0, contact0 := s.Via(1), s.Addr(1)
	v.Assert(ref.AddrEqual(to, to0), "to changed")
	v.Assert(ref.ViaEqual(via, via0), "the transport's Via changed")
	v.Assert(ref.AddrEqual(contact, contact0), "the transport's Contact changed")
	if hasFrom {
		v.Assert(ref.AddrEqual(from, from0), "from changed")
	} else {
		from0 = contact0
	}
	want := &sip.Msg{Method: method, Request: to0.Uri, Via: via0, From: from0, To: to0, CSeqMethod: method}
	want.CallID, want.CSeq, want.UserAgent = m.CallID, m.CSeq, m.UserAgent
	v.Assert(len(m.CallID) > 0 && m.CSeq > 0 && len(m.UserAgent) > 0, "part missing")
	b := m.Via.Param
	v.Assert(b != nil && b.Name == "branch" && cookie(b.Value), "branch")
	want.Via.Param = &sip.Param{Name: "branch", Value: b.Value, Next: want.Via.Param}
	t := m.From.Param
	v.Assert(t != nil && t.Name == "tag" && len(t.Value) > 0, "tag")
	from1 := *want.From
	from1.Param = &sip.Param{Name: "tag", Value: t.Value, Next: from1.Param}
	want.From = &from1
	ref.AssertMsg(m, want)
	v.Assert(m.Request != to.Uri && m.To != to && m.From != from && m.From != contact && m.Via != via, "a part is shared")
}
