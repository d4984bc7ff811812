// Package c13: Via formatting and parsing are inverse.
package c13

import (
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zzv/ref"
	"github.com/jart/gosip/zzv/v"
)

func same(w *sip.Via) {
	m := &sip.Msg{VersionMajor: 2, Status: 200, Phrase: "OK", CallID: "c", CSeqMethod: "A", Via: w,
		From: &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "a"}}, To: &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "b"}}}
	s := m.String()
	v.Obs("text", s)
	got, err := sip.ParseMsg([]byte(s))
	v.Assert(err == nil, "formatted Via does not parse")
	if err != nil || got == nil {
		return
	}
	v.Reach("round trip")
	n := 0
	p, q := got.Via, w
	for p != nil && q != nil {
		def := func(s, d string) string {
			if s == "" {
				return d
			}
			return s
		}
		v.Assert(p.Protocol == def(q.Protocol, "SIP"), "protocol changed")
		v.Assert(p.Version == def(q.Version, "2.0"), "version changed")
		v.Assert(p.Transport == def(q.Transport, "UDP"), "transport changed")
		v.Assert(p.Host == q.Host, "host changed")
		v.Assert(p.Port == q.Port, "port changed")
		v.Assert(ref.ParamEqual(p.Param, q.Param), "parameters changed")
		p, q = p.Next, q.Next
		n++
	}
	v.Assert(p == nil && q == nil, "number of hops changed")
	v.Assert(got.XHeader == nil && got.CallID == "c", "Via changed other headers")
}

func run(n int, class func(byte) bool) string {
	b := v.Bytes(n)
	for i := range b {
		v.Assume(class(b[i]))
	}
	return string(b)
}

func nameC(c byte) bool { return v.Or(ref.Alnum(c), ref.In(c, "-.")) }

func via(h string) *sip.Via {
	return &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: h}
}

func size() int {
	v.Bound("tokens and hosts of 1..3 (quick) or 1..6 (thorough) octets, all ports; parameter values up to 3 (5) arbitrary quotable octets")
	if v.Thorough() {
		return 6
	}
	return 3
}

// H_Tokens: protocol, version and transport.
func H_Tokens() {
	n := size()
	w := via("h")
	k := 1 + v.Case(n)
	switch v.Case(3) {
	case 0:
		w.Protocol = run(k, ref.Token)
	case 1:
		w.Version = run(k, ref.Token)
	case 2:
		w.Transport = run(k, ref.Token)
	}
	same(w)
}

// H_Host: every host, with and without a port.
func H_Host() {
	n := size()
	k := 1 + v.Case(n)
	var w *sip.Via
	if v.Case(2) == 0 {
		w = via(run(k, nameC))
	} else {
		h := run(k, ref.Host6C)
		i := v.Choose(k)
		v.Assume(h[i] == ':')
		w = via(h)
	}
	if v.Choose(2) == 1 {
		w.Port = 5060
	}
	if v.Choose(2) == 1 {
		w.Param = &sip.Param{Name: "branch", Value: "z"}
	}
	same(w)
}

// H_Port: every port.
func H_Port() {
	w := via([]string{"h", "1.2.3.4", "::1"}[v.Case(3)])
	w.Port = v.Uint16()
	same(w)
}

// H_Param: every parameter.
func H_Param() {
	n := size()
	w := via("h")
	val := v.Str(v.Case(n + 1))
	v.Assume(ref.Quotable(val))
	w.Param = &sip.Param{Name: run(1+v.Choose(2), ref.Token), Value: val}
	switch v.Choose(3) {
	case 1:
		w.Param.Next = &sip.Param{Name: "rport", Next: &sip.Param{Name: "x", Value: "::1, a"}}
	case 2:
		w.Param = &sip.Param{Name: "rport", Next: w.Param}
		w.Port = 1
		w.Next = via("::")
	}
	same(w)
}

// H_Chain: chains keep their order and every hop its own parts.
func H_Chain() {
	n := 4
	if v.Thorough() {
		n = 5
	}
	v.Bound("chains of 0..4 (quick) or 0..5 (thorough) hops of five shapes each")
	var w *sip.Via
	tail := &w
	k := v.Case(n + 1)
	for i := 0; i < k; i++ {
		x := via(run(1, nameC))
		switch v.Choose(5) {
		case 1:
			x.Port = 5061
		case 2:
			x.Host = "fe80::1"
			x.Param = &sip.Param{Name: "a", Value: ",SIP/2.0/UDP z"}
		case 3:
			x.Param = &sip.Param{Name: "a", Next: &sip.Param{Name: "b", Value: run(1, ref.Token)}}
			x.Port = 80
		case 4:
			x.Protocol, x.Version, x.Transport = "", "", ""
			x.Transport = []string{"", "TCP"}[v.Choose(2)]
		}
		*tail = x
		tail = &x.Next
	}
	same(w)
}
