// Package c25: responses and ACKs are matched to exactly their transaction.
package c25

import (
	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zzv/v"
)

func size() int {
	v.Bound("Via chains of 0..3 (quick) or 0..5 (thorough) hops with hosts of 0..2 octets, all ports, 0..2 parameters with names branch (any case), rport or an arbitrary octet and values of 0..2 octets; methods INVITE, ACK, BYE or arbitrary ones of 0..3 octets; all CSeq numbers and statuses")
	if v.Thorough() {
		return 5
	}
	return 3
}

// param is a list with or without a branch; branch is its value if there is one.
func param() (p *sip.Param, branch string, has bool) {
	switch v.Choose(5) {
	case 0:
		return nil, "", false
	case 1:
		return &sip.Param{Name: v.Str(1), Value: v.Str(1)}, "", false
	case 2:
		branch = v.StrUpTo(2)
		return &sip.Param{Name: "branch", Value: branch, Next: &sip.Param{Name: "branch", Value: "second"}}, branch, true
	case 3:
		branch = v.StrUpTo(2)
		return &sip.Param{Name: "rport", Next: &sip.Param{Name: "BRanch", Value: branch}}, branch, true
	}
	return &sip.Param{Name: "branc", Value: "x", Next: &sip.Param{Name: "branchx", Value: "x"}}, "", false
}

func via() (w *sip.Via, branch string, has bool) {
	w = &sip.Via{Protocol: v.Str(1), Transport: v.Str(1), Host: v.StrUpTo(2), Port: v.Uint16()}
	w.Param, branch, has = param()
	return
}

// other is a hop that must not matter.
func other(i int, like *sip.Via) *sip.Via {
	if i&1 == 0 {
		w := *like
		w.Next = nil
		return &w
	}
	return &sip.Via{Host: v.Str(1), Port: v.Uint16(), Param: &sip.Param{Name: "branch", Value: v.Str(1)}}
}

func method() string {
	switch v.Choose(5) {
	case 0:
		return "INVITE"
	case 1:
		return "ACK"
	case 2:
		return "BYE"
	case 3:
		return v.Str(3)
	}
	return ""
}

// chain puts n-1 other hops above last.
func chain(n int, last, like *sip.Via) *sip.Via {
	if n == 0 {
		return nil
	}
	w := last
	for i := 1; i < n; i++ {
		o := other(i, like)
		o.Next = w
		w = o
	}
	return w
}

// H_Response: all pairs of request and response or request.
func H_Response() {
	n := v.Case(size() + 1)
	sent, b1, has1 := via()
	req := &sip.Msg{Method: method(), CSeq: v.Int(), CSeqMethod: "x", Via: sent}
	if v.Choose(2) == 1 {
		req.Via.Next = &sip.Via{Host: "below", Param: &sip.Param{Name: "branch", Value: "q"}}
	}
	last, b2, has2 := via()
	status := v.Int()
	v.Assume(status >= 0)
	rsp := &sip.Msg{Status: status, CSeq: v.Int(), CSeqMethod: method(), Via: chain(n, last, sent)}
	got := dialog.ResponseMatch(req, rsp)
	want := n > 0 && has1 && has2
	if want {
		want = v.And(v.And(status > 0, rsp.CSeq == req.CSeq), v.And(rsp.CSeqMethod == req.Method,
			v.And(v.And(last.Host == sent.Host, last.Port == sent.Port), b1 == b2)))
	}
	v.Assert(got == want, "response matched wrongly")
	if got {
		v.Reach("match")
	} else {
		v.Reach("no match")
	}
}

// H_Ack: all pairs of response and ACK or other message.
func H_Ack() {
	n := v.Case(size() + 1)
	sent, _, _ := via()
	msg := &sip.Msg{Status: 200, CSeq: v.Int(), CSeqMethod: method(), Via: sent}
	last, _, _ := via()
	status := v.Int()
	v.Assume(status >= 0)
	ack := &sip.Msg{Method: method(), Status: status, CSeq: v.Int(), CSeqMethod: method(), Via: chain(n, last, sent)}
	got := dialog.AckMatch(msg, ack)
	want := n > 0
	if want {
		want = v.And(v.And(status == 0, ack.CSeq == msg.CSeq), v.And(v.And(ack.Method == "ACK", ack.CSeqMethod == "ACK"),
			v.And(last.Host == sent.Host, last.Port == sent.Port)))
	}
	v.Assert(got == want, "ACK matched wrongly")
	if got {
		v.Reach("match")
	} else {
		v.Reach("no match")
	}
}

// H_NoVia: requests sent without Via never match.
func H_NoVia() {
	last, _, _ := via()
	c := v.Int()
	v.Assert(!dialog.ResponseMatch(&sip.Msg{Method: "A", CSeq: c}, &sip.Msg{Status: 200, CSeq: c, CSeqMethod: "A", Via: last}), "matched a request without Via")
	v.Assert(!dialog.AckMatch(&sip.Msg{Status: 200, CSeq: c}, &sip.Msg{Method: "ACK", CSeq: c, CSeqMethod: "ACK", Via: last}), "ACK matched a message without Via")
	v.Assert(!dialog.ResponseMatch(&sip.Msg{Method: "A", CSeq: c}, &sip.Msg{Status: 200, CSeq: c, CSeqMethod: "A"}), "matched without any Via")
}
