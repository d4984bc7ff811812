// Package c20: list and lookup helpers.
package c20

import (
	"bytes"

	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zzv/ref"
	"github.com/jart/gosip/zzv/v"
)

func size() int {
	v.Bound("lists of 0..4 (quick) or 0..7 (thorough) elements; names of up to 2 (3) arbitrary ASCII octets in lists of up to 3 entries; hosts of 0..2 octets, all ports, schemes of 3 or 4 arbitrary octets")
	if v.Thorough() {
		return 7
	}
	return 4
}

// H_Addr: Reversed, Last, Len and Or.
func H_Addr() {
	n := v.Case(size() + 1)
	var a *sip.Addr
	nodes := make([]*sip.Addr, n)
	snap := make([]sip.Addr, n)
	for i := n - 1; i >= 0; i-- {
		a = &sip.Addr{Uri: &sip.URI{Host: v.Str(1), Port: v.Uint16()}, Display: v.Str(1), Param: &sip.Param{Name: v.Str(1), Value: v.Str(1)}, Next: a}
		nodes[i], snap[i] = a, *a
	}
	r := a.Reversed()
	i := 0
	for p := r; p != nil && i < n; p = p.Next {
		o := nodes[n-1-i]
		v.Assert(p.Uri == o.Uri && p.Param == o.Param && p.Display == o.Display, "reversed list has another element")
		i++
	}
	v.Assert(i == n && (n > 0) == (r != nil), "reversed list has another length")
	for i := range nodes {
		x := *nodes[i]
		v.Assert(x.Uri == snap[i].Uri && x.Param == snap[i].Param && x.Next == snap[i].Next && x.Display == snap[i].Display, "reversing changed the original")
	}
	v.Assert(r.Len() == n, "length of the reversed list")
	v.Assert(a.Len() == n, "length")
	rr := r.Reversed()
	i = 0
	for p := rr; p != nil; p = p.Next {
		v.Assert(i < n && p.Uri == nodes[i].Uri, "reversed twice differs")
		i++
	}
	v.Assert(i == n, "reversed twice has another length")
	if n == 0 {
		v.Assert(a.Last() == nil && r == nil, "last of nothing")
	} else {
		v.Assert(a.Last() == nodes[n-1], "last element")
		v.Assert(r.Last().Uri == nodes[0].Uri, "last of the reversed list")
	}
	other := &sip.Addr{}
	if n == 0 {
		v.Assert(a.Or(other) == other && a.Or(nil) == nil, "Or of nil")
	} else {
		v.Assert(a.Or(other) == a && a.Or(nil) == a, "Or")
	}
}

// H_Via: Last and Detach.
func H_Via() {
	n := v.Case(size() + 1)
	var w *sip.Via
	nodes := make([]*sip.Via, n)
	for i := n - 1; i >= 0; i-- {
		w = &sip.Via{Protocol: v.Str(1), Version: v.Str(1), Transport: v.Str(1), Host: v.Str(1), Port: v.Uint16(), Param: &sip.Param{Name: v.Str(1)}, Next: w}
		nodes[i] = w
	}
	if n == 0 {
		v.Assert(w.Last() == nil, "last of nothing")
		return
	}
	v.Assert(w.Last() == nodes[n-1], "last hop")
	was := *w
	d := w.Detach()
	v.Assert(d != w && d.Next == nil, "detached hop has a next hop")
	v.Assert(*w == was, "detaching changed the original")
	was.Next = nil
	v.Assert(*d == was, "detached hop differs from the first")
	d.Host = "new"
	d.Next = &sip.Via{}
	was.Next = w.Next
	v.Assert(*w == was, "changing the detached hop changed the original")
}

func ascii(n int) string {
	b := v.Bytes(n)
	for i := range b {
		v.Assume(b[i] < 0x80)
	}
	return string(b)
}

func fold(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := 0; i < len(a); i++ {
		r = v.And(r, ref.Lower(a[i]) == ref.Lower(b[i]))
	}
	return r
}

// H_Get: the first entry with the name, whatever its case.
func H_Get() {
	l := 2
	if v.Thorough() {
		l = 3
	}
	n := v.Case(4)
	names := make([]string, n)
	for i := range names {
		names[i] = ascii(v.Choose(l + 1))
	}
	want := ascii(v.Choose(l + 1))
	found := -1
	pick := func(i int, ok bool) {
		found = v.IteInt(v.And(found < 0, ok), i, found)
	}
	for i := range names {
		pick(i, fold(names[i], want))
	}
	got := -1
	switch v.Case(4) {
	case 0:
		var p *sip.Param
		nodes := make([]*sip.Param, n)
		for i := n - 1; i >= 0; i-- {
			p = &sip.Param{Name: names[i], Next: p}
			nodes[i] = p
		}
		x := p.Get(want)
		for i := range nodes {
			if nodes[i] == x {
				got = i
			}
		}
		v.Assert((got >= 0) == (x != nil), "entry outside the list")
	case 1:
		var p *sip.URIParam
		nodes := make([]*sip.URIParam, n)
		for i := n - 1; i >= 0; i-- {
			p = &sip.URIParam{Name: names[i], Next: p}
			nodes[i] = p
		}
		x := p.Get(want)
		for i := range nodes {
			if nodes[i] == x {
				got = i
			}
		}
		v.Assert((got >= 0) == (x != nil), "entry outside the list")
	case 2:
		var p *sip.URIHeader
		nodes := make([]*sip.URIHeader, n)
		for i := n - 1; i >= 0; i-- {
			p = &sip.URIHeader{Name: names[i], Next: p}
			nodes[i] = p
		}
		x := p.Get(want)
		for i := range nodes {
			if nodes[i] == x {
				got = i
			}
		}
		v.Assert((got >= 0) == (x != nil), "entry outside the list")
	case 3:
		var p *sip.XHeader
		nodes := make([]*sip.XHeader, n)
		for i := n - 1; i >= 0; i-- {
			p = &sip.XHeader{Name: names[i], Next: p}
			nodes[i] = p
		}
		x := p.Get(want)
		for i := range nodes {
			if nodes[i] == x {
				got = i
			}
		}
		v.Assert((got >= 0) == (x != nil), "entry outside the list")
	}
	v.Assert(got == found, "lookup does not find the first entry of the name")
	if got >= 0 {
		v.Reach("found")
	} else {
		v.Reach("absent")
	}
}

func uri() *sip.URI {
	if v.Choose(4) == 0 {
		return nil
	}
	return &sip.URI{Scheme: ascii(3 + v.Choose(2)), Host: ascii(v.Choose(3)), Port: v.Uint16(), User: v.Str(1)}
}

func port(u *sip.URI) int {
	return v.IteInt(u.Port != 0, int(u.Port), v.IteInt(u.Scheme == "sips", 5061, 5060))
}

// H_CompareURI: a missing port is the scheme's default port.
func H_CompareURI() {
	a, b := uri(), uri()
	want := false
	if a != nil && b != nil {
		want = v.And(a.Host == b.Host, port(a) == port(b))
		v.Assert(int(a.GetPort()) == port(a), "port")
	}
	v.Assert(a.CompareHostPort(b) == want, "URI host and port comparison")
	x, y := &sip.Addr{Uri: a}, &sip.Addr{Uri: b}
	v.Assert(x.CompareHostPort(y) == want, "address host and port comparison")
	var none *sip.Addr
	v.Assert(!x.CompareHostPort(none) && !none.CompareHostPort(x) && !none.CompareHostPort(none), "comparison with nothing")
}

func via() *sip.Via {
	if v.Choose(4) == 0 {
		return nil
	}
	w := &sip.Via{Host: ascii(v.Choose(3)), Port: v.Uint16(), Transport: v.Str(1)}
	switch v.Choose(4) {
	case 1:
		w.Param = &sip.Param{Name: "branch", Value: v.StrUpTo(2)}
	case 2:
		w.Param = &sip.Param{Name: "x", Value: "y", Next: &sip.Param{Name: "BRANCH", Value: v.StrUpTo(1), Next: &sip.Param{Name: "branch", Value: "zz"}}}
	case 3:
		w.Param = &sip.Param{Name: "branch2", Value: "a"}
	}
	return w
}

func branch(w *sip.Via) (string, bool) {
	for p := w.Param; p != nil; p = p.Next {
		if fold(p.Name, "branch") {
			return p.Value, true
		}
	}
	return "", false
}

// H_CompareVia: host, port and branch comparison.
func H_CompareVia() {
	a, b := via(), via()
	hp, br := false, false
	if a != nil && b != nil {
		hp = v.And(a.Host == b.Host, a.Port == b.Port)
		x, ok := branch(a)
		y, ok2 := branch(b)
		br = v.And(ok && ok2, x == y)
	}
	v.Assert(a.CompareHostPort(b) == hp, "Via host and port comparison")
	v.Assert(a.CompareBranch(b) == br, "Via branch comparison")
}

// H_Nil: lists without elements and things that are absent.
func H_Nil() {
	var (
		a *sip.Addr
		w *sip.Via
		u *sip.URI
		m *sip.Msg
		h *sip.XHeader
		p *sip.Param
		q *sip.URIParam
		r *sip.URIHeader
		s *sdp.SDP
		b bytes.Buffer
	)
	a.Append(&b)
	u.Append(&b)
	m.Append(&b)
	h.Append(&b)
	p.Append(&b)
	q.Append(&b)
	r.Append(&b)
	v.Assert(b.Len() == 0, "nothing is formatted as something")
	v.Assert(a.String() == "" && u.String() == "" && m.String() == "" && h.String() == "" && s.String() == "" && s.Data() == nil, "the text of nothing")
	name := ascii(v.Case(3))
	v.Assert(p.Get(name) == nil && q.Get(name) == nil && r.Get(name) == nil && h.Get(name) == nil, "found something in nothing")
	v.Assert(a.Len() == 0 && a.Last() == nil && a.Reversed() == nil && a.Or(nil) == nil && w.Last() == nil, "a list without elements")
	v.Assert(a.Copy() == nil && w.Copy() == nil && u.Copy() == nil && m.Copy() == nil, "a copy of nothing")
	v.Assert(!a.CompareHostPort(nil) && !w.CompareHostPort(nil) && !w.CompareBranch(nil) && !u.CompareHostPort(nil), "comparison of nothing")
	v.Assert(s.ContentType() == sdp.ContentType, "content type")
}
