// Package gen builds SIP values with arbitrary contents, the same ones again
// after a rewind.
package gen

import (
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zzv/v"
)

// Src hands out the same arbitrary values each time it is rewound.
type Src struct {
	s       []string
	n       []int
	p       []uint16
	c       []int
	i, j, k int
	l       int
}

// Str is a text of one arbitrary octet.
func (s *Src) Str() string {
	if s.i == len(s.s) {
		s.s = append(s.s, v.Str(1))
	}
	s.i++
	return s.s[s.i-1]
}

func (s *Src) Num() int {
	if s.j == len(s.n) {
		s.n = append(s.n, v.Int())
	}
	s.j++
	return s.n[s.j-1]
}

func (s *Src) Port() uint16 {
	if s.k == len(s.p) {
		s.p = append(s.p, v.Uint16())
	}
	s.k++
	return s.p[s.k-1]
}

// Choose is v.Choose.
func (s *Src) Choose(n int) int {
	if s.l == len(s.c) {
		s.c = append(s.c, v.Choose(n))
	}
	s.l++
	return s.c[s.l-1]
}

func (s *Src) Rewind() { s.i, s.j, s.k, s.l = 0, 0, 0, 0 }

func (s *Src) URI() *sip.URI {
	return &sip.URI{Scheme: s.Str(), User: s.Str(), Pass: s.Str(), Host: s.Str(), Port: s.Port(),
		Param:  &sip.URIParam{Name: s.Str(), Value: s.Str(), Next: &sip.URIParam{Name: s.Str()}},
		Header: &sip.URIHeader{Name: s.Str(), Value: s.Str(), Next: &sip.URIHeader{Name: s.Str()}}}
}

func (s *Src) Param() *sip.Param {
	return &sip.Param{Name: s.Str(), Value: s.Str(), Next: &sip.Param{Name: s.Str(), Value: s.Str()}}
}

func (s *Src) Addr(n int) *sip.Addr {
	if n == 0 {
		return nil
	}
	return &sip.Addr{Uri: s.URI(), Display: s.Str(), Param: s.Param(), Next: s.Addr(n - 1)}
}

func (s *Src) Via(n int) *sip.Via {
	if n == 0 {
		return nil
	}
	return &sip.Via{Protocol: s.Str(), Version: s.Str(), Transport: s.Str(), Host: s.Str(), Port: s.Port(), Param: s.Param(), Next: s.Via(n - 1)}
}
