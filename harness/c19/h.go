// Package c19: copies are equal to and independent of the original.
package c19

import (
	"net"

	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zzv/ref"
	"github.com/jart/gosip/zzv/v"
)

// src hands out the same arbitrary values each time it is rewound.
type src struct {
	s       []string
	n       []int
	p       []uint16
	i, j, k int
}

func (s *src) str() string {
	if s.i == len(s.s) {
		s.s = append(s.s, v.Str(1))
	}
	s.i++
	return s.s[s.i-1]
}

func (s *src) num() int {
	if s.j == len(s.n) {
		s.n = append(s.n, v.Int())
	}
	s.j++
	return s.n[s.j-1]
}

func (s *src) port() uint16 {
	if s.k == len(s.p) {
		s.p = append(s.p, v.Uint16())
	}
	s.k++
	return s.p[s.k-1]
}

func (s *src) rewind() { s.i, s.j, s.k = 0, 0, 0 }

func (s *src) uri() *sip.URI {
	return &sip.URI{Scheme: s.str(), User: s.str(), Pass: s.str(), Host: s.str(), Port: s.port(),
		Param:  &sip.URIParam{Name: s.str(), Value: s.str(), Next: &sip.URIParam{Name: s.str()}},
		Header: &sip.URIHeader{Name: s.str(), Value: s.str(), Next: &sip.URIHeader{Name: s.str()}}}
}

func (s *src) param() *sip.Param {
	return &sip.Param{Name: s.str(), Value: s.str(), Next: &sip.Param{Name: s.str(), Value: s.str()}}
}

func (s *src) addr(n int) *sip.Addr {
	if n == 0 {
		return nil
	}
	return &sip.Addr{Uri: s.uri(), Display: s.str(), Param: s.param(), Next: s.addr(n - 1)}
}

func (s *src) via(n int) *sip.Via {
	if n == 0 {
		return nil
	}
	return &sip.Via{Protocol: s.str(), Version: s.str(), Transport: s.str(), Host: s.str(), Port: s.port(), Param: s.param(), Next: s.via(n - 1)}
}

type payload struct{ d []byte }

func (p *payload) ContentType() string { return "x/y" }
func (p *payload) Data() []byte        { return p.d }

var thePayload = &payload{[]byte("z")}
var theAddr = &net.UDPAddr{Port: 7}

func (s *src) msg(n int) *sip.Msg {
	m := new(sip.Msg)
	m.VersionMajor, m.VersionMinor = uint8(s.num()), uint8(s.num())
	m.Method, m.Status, m.Phrase = s.str(), s.num(), s.str()
	m.Request = s.uri()
	m.Via = s.via(n)
	m.CallID, m.CSeq, m.CSeqMethod = s.str(), s.num(), s.str()
	for _, x := range ref.TextNames {
		*ref.Texts(m, x) = s.str()
	}
	for _, x := range ref.AddrNames {
		*ref.Addrs(m, x) = s.addr(n)
	}
	for _, x := range ref.IntNames {
		*ref.Ints(m, x) = s.num()
	}
	m.XHeader = &sip.XHeader{Name: s.str(), Value: []byte(s.str()), Next: &sip.XHeader{Name: s.str()}}
	return m
}

func equal(a, b *sip.Msg, what string) {
	v.Assert((a == nil) == (b == nil), what)
	if a == nil || b == nil {
		return
	}
	v.Assert(a.Payload == b.Payload && a.SourceAddr == b.SourceAddr, what)
	x, y := *a, *b
	x.Payload, y.Payload, x.SourceAddr, y.SourceAddr = nil, nil, nil, nil
	ref.AssertMsg(&x, &y)
}

// at returns element i.
func at(a *sip.Addr, i int) *sip.Addr {
	for ; i > 0; i-- {
		a = a.Next
	}
	return a
}

func viaAt(a *sip.Via, i int) *sip.Via {
	for ; i > 0; i-- {
		a = a.Next
	}
	return a
}

func changeURI(u *sip.URI, k int) {
	switch k {
	case 0:
		u.Scheme = "new"
	case 1:
		u.User = "new"
	case 2:
		u.Pass = "new"
	case 3:
		u.Host = "new"
	case 4:
		u.Port++
	case 5:
		u.Param = &sip.URIParam{Name: "new", Next: u.Param}
	case 6:
		u.Header = nil
	case 7:
		u.Param = nil
	case 8:
		u.Header = &sip.URIHeader{Name: "new", Next: u.Header}
	}
}

const uriChanges = 9

func changeAddr(a *sip.Addr, k int) {
	switch k {
	case 0:
		a.Display = "new"
	case 1:
		a.Param = &sip.Param{Name: "new", Next: a.Param}
	case 2:
		a.Param = nil
	case 3:
		a.Next = nil
	case 4:
		a.Next = &sip.Addr{Uri: &sip.URI{Host: "new"}, Next: a.Next}
	case 5:
		a.Uri = nil
	case 6:
		a.Tag()
	default:
		changeURI(a.Uri, k-7)
	}
}

const addrChanges = 7 + uriChanges

func changeVia(w *sip.Via, k int) {
	switch k {
	case 0:
		w.Protocol = "new"
	case 1:
		w.Version = "new"
	case 2:
		w.Transport = "new"
	case 3:
		w.Host = "new"
	case 4:
		w.Port++
	case 5:
		w.Param = &sip.Param{Name: "new", Next: w.Param}
	case 6:
		w.Param = nil
	case 7:
		w.Next = nil
	case 8:
		w.Next = &sip.Via{Host: "new", Next: w.Next}
	case 9:
		w.Branch()
	}
}

const viaChanges = 10

func n() int {
	v.Bound("messages with every field arbitrary, address lists and Via chains of 0..2 (quick) or 0..3 (thorough) elements; one change of any field of any element of the copy or the original")
	if v.Thorough() {
		return 3
	}
	return 2
}

// H_Equal: a copy equals the original.
func H_Equal() {
	k := v.Case(n() + 1)
	s := new(src)
	m := s.msg(k)
	m.Payload, m.SourceAddr = thePayload, theAddr
	if v.Choose(2) == 1 {
		m.Request, m.Payload, m.SourceAddr, m.XHeader = nil, nil, nil, nil
	}
	c := m.Copy()
	v.Assert(c != m && c != nil, "copy is the original")
	equal(c, m, "copy differs")
	v.Reach("copied")
}

// H_Nil: nil copies to nil.
func H_Nil() {
	var m *sip.Msg
	var a *sip.Addr
	var u *sip.URI
	var w *sip.Via
	v.Assert(m.Copy() == nil && a.Copy() == nil && u.Copy() == nil && w.Copy() == nil, "copy of nil is not nil")
}

// H_Change: changing one side leaves the other as it was.
func H_Change() {
	l := n()
	s := new(src)
	m := s.msg(l)
	s.rewind()
	was := s.msg(l)
	c := m.Copy()
	side, other := c, m
	if v.Case(2) == 1 {
		side, other = m, c
	}
	switch v.Case(6) {
	case 0:
		for _, x := range ref.TextNames {
			*ref.Texts(side, x) = "new"
		}
		for _, x := range ref.IntNames {
			*ref.Ints(side, x) = 5
		}
		side.VersionMajor, side.VersionMinor, side.Method, side.Status, side.Phrase = 9, 9, "new", 9, "new"
		side.CallID, side.CSeq, side.CSeqMethod = "new", 9, "new"
		side.Payload, side.SourceAddr = thePayload, theAddr
	case 1:
		side.XHeader = &sip.XHeader{Name: "new", Next: side.XHeader}
		for _, x := range ref.AddrNames {
			*ref.Addrs(side, x) = nil
		}
		side.Via, side.Request = nil, nil
	case 2:
		changeURI(side.Request, v.Choose(uriChanges))
	case 3:
		changeVia(viaAt(side.Via, v.Choose(l)), v.Choose(viaChanges))
	case 4:
		x := ref.AddrNames[v.Choose(len(ref.AddrNames))]
		changeAddr(at(*ref.Addrs(side, x), v.Choose(l)), v.Choose(addrChanges))
	case 5:
		for _, x := range ref.AddrNames {
			changeAddr(*ref.Addrs(side, x), 6)
		}
		side.Via.Branch()
	}
	equal(other, was, "changing one side changed the other")
	v.Reach("changed")
}

// H_Parts: the same for addresses, URIs and Via chains copied on their own.
func H_Parts() {
	l := n()
	s := new(src)
	switch v.Case(3) {
	case 0:
		a := s.addr(l)
		s.rewind()
		was := s.addr(l)
		c := a.Copy()
		v.Assert(ref.AddrEqual(c, was), "address copy differs")
		i, k := v.Choose(l), v.Choose(addrChanges)
		if v.Choose(2) == 1 {
			a, c = c, a
		}
		changeAddr(at(c, i), k)
		v.Assert(ref.AddrEqual(a, was), "changing one side changed the other")
	case 1:
		a := s.via(l)
		s.rewind()
		was := s.via(l)
		c := a.Copy()
		v.Assert(ref.ViaEqual(c, was), "Via copy differs")
		i, k := v.Choose(l), v.Choose(viaChanges)
		if v.Choose(2) == 1 {
			a, c = c, a
		}
		changeVia(viaAt(c, i), k)
		v.Assert(ref.ViaEqual(a, was), "changing one side changed the other")
	case 2:
		a := s.uri()
		s.rewind()
		was := s.uri()
		c := a.Copy()
		v.Assert(ref.URIEqual(c, was), "URI copy differs")
		k := v.Choose(uriChanges)
		if v.Choose(2) == 1 {
			a, c = c, a
		}
		changeURI(c, k)
		v.Assert(ref.URIEqual(a, was), "changing one side changed the other")
	}
}
