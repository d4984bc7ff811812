// Package c21: SDP formatting and parsing are inverse.
package c21

import (
	"net"
	"strings"

	"github.com/jart/gosip/sdp"
	rand "github.com/jart/gosip/zzv/crand"
	"github.com/jart/gosip/zzv/v"
)

func size() int {
	v.Bound("texts of up to 3 (quick) or 6 (thorough) arbitrary octets per field, up to 3 codecs, attributes and unknown fields each, all ports and payload types, rates and packet times in shapes with up to 3 arbitrary digits")
	if v.Thorough() {
		return 6
	}
	return 3
}

// text is n arbitrary octets that can stand on a line, without those in not.
func text(n int, not string) string {
	b := v.Bytes(n)
	for i := range b {
		ok := v.And(b[i] != '\r', b[i] != '\n')
		for j := 0; j < len(not); j++ {
			ok = v.And(ok, b[i] != not[j])
		}
		v.Assume(ok)
	}
	return string(b)
}

func base() *sdp.SDP {
	return &sdp.SDP{
		Origin:  sdp.Origin{User: "root", ID: "31589", Version: "31590", Addr: "10.0.0.38"},
		Addr:    "10.0.0.39",
		Audio:   &sdp.Media{Proto: "RTP/AVP", Port: 30126, Codecs: []sdp.Codec{{PT: 0, Name: "PCMU", Rate: 8000}}},
		Session: "session", Time: "0 0",
	}
}

func mediaEqual(a, b *sdp.Media) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if len(a.Codecs) != len(b.Codecs) {
		return false
	}
	ok := v.And(a.Proto == b.Proto, a.Port == b.Port)
	for i := range a.Codecs {
		x, y := a.Codecs[i], b.Codecs[i]
		ok = v.And(ok, v.And(x.PT == y.PT, v.And(x.Name == y.Name, v.And(x.Rate == y.Rate, v.And(x.Param == y.Param, x.Fmtp == y.Fmtp)))))
	}
	return ok
}

func pairsEqual(a, b [][2]string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = v.And(ok, v.And(a[i][0] == b[i][0], a[i][1] == b[i][1]))
	}
	return ok
}

func copyMedia(m *sdp.Media) *sdp.Media {
	if m == nil {
		return nil
	}
	r := *m
	r.Codecs = append([]sdp.Codec(nil), m.Codecs...)
	return &r
}

// same asserts that d and w are equal descriptions.
func same(d, w *sdp.SDP, what string) {
	v.Assert(v.And(d.Origin.User == w.Origin.User, v.And(d.Origin.ID == w.Origin.ID, d.Origin.Version == w.Origin.Version)), what+" origin")
	v.Assert(d.Origin.Addr == w.Origin.Addr, what+" origin address")
	v.Assert(d.Addr == w.Addr, what+" address")
	v.Assert(d.Session == w.Session, what+" session name")
	v.Assert(d.Time == w.Time, what+" time")
	v.Assert(d.Ptime == w.Ptime, what+" packet time")
	v.Assert(v.And(d.SendOnly == w.SendOnly, d.RecvOnly == w.RecvOnly), what+" direction")
	v.Assert(mediaEqual(d.Audio, w.Audio), what+" audio")
	v.Assert(mediaEqual(d.Video, w.Video), what+" video")
	v.Assert(pairsEqual(d.Attrs, w.Attrs), what+" attributes")
	v.Assert(pairsEqual(d.Other, w.Other), what+" unknown fields")
}

func round(d *sdp.SDP) string {
	w := *d
	w.Audio, w.Video = copyMedia(d.Audio), copyMedia(d.Video)
	w.Attrs, w.Other = append([][2]string(nil), d.Attrs...), append([][2]string(nil), d.Other...)
	s := d.String()
	v.Obs("text", s)
	v.Assert(string(d.Data()) == s, "the payload data is not the string form")
	same(d, &w, "formatting changed the")
	got, err := sdp.Parse(s)
	v.Assert(err == nil, "formatted description does not parse")
	if err != nil || got == nil {
		return s
	}
	v.Reach("round trip")
	same(got, &w, "parsing the formatted description changed the")
	v.Assert(got.String() == s, "formatting is not stable")
	return s
}

func colon(s string) bool {
	r := false
	for i := 0; i < len(s); i++ {
		r = v.Or(r, s[i] == ':')
	}
	return r
}

// H_Origin: all origin fields.
func H_Origin() {
	n := size()
	d := base()
	k := 1 + v.Case(n)
	switch v.Case(4) {
	case 0:
		d.Origin.User = text(k, " ")
	case 1:
		d.Origin.ID = text(k, " ")
	case 2:
		d.Origin.Version = text(k, " ")
	case 3:
		d.Origin.Addr = text(k, " /")
		s := round(d)
		six := strings.HasPrefix(s, "v=0\r\no=root 31589 31590 IN IP6 ")
		four := strings.HasPrefix(s, "v=0\r\no=root 31589 31590 IN IP4 ")
		v.Assert(v.And(v.Iff(six, colon(d.Origin.Addr)), v.Iff(four, !six)), "address family of the origin")
		return
	}
	round(d)
}

// H_Texts: connection address, session name and time.
func H_Texts() {
	n := size()
	d := base()
	k := 1 + v.Case(n)
	switch v.Case(3) {
	case 0:
		d.Addr = text(k, " /")
		s := round(d)
		six := strings.Contains(s, "\r\nc=IN IP6 ")
		four := strings.Contains(s, "\r\nc=IN IP4 ")
		v.Assert(v.And(v.Iff(six, colon(d.Addr)), v.Iff(four, !six)), "address family of the connection")
		return
	case 1:
		d.Session = text(k, "")
	case 2:
		d.Time = text(k, "")
	}
	round(d)
}

// attr is one attribute that is not one of those with a field of their own.
func attr(n int) [2]string {
	return [2]string{text(n, ":"), text(v.Choose(n+1), "")}
}

// H_Attrs: attributes in order.
func H_Attrs() {
	n := size()
	d := base()
	switch v.Case(3) {
	case 0:
		d.Attrs = [][2]string{attr(1 + v.Choose(3))}
	case 1:
		d.Attrs = [][2]string{attr(1), {"silenceSupp", "off - - - -"}, attr(1)}
		d.Ptime = 20
	case 2:
		// the name or its whole line differs from those with fields in one octet or by one
		name := []string{"rtpmap", "fmtp", "ptime", "sendrecv", "sendonly", "recvonly"}[v.Choose(6)]
		c := v.Str(1)
		v.Assume(v.And(c[0] != '\r', v.And(c[0] != '\n', c[0] != ':')))
		switch v.Choose(3) {
		case 0:
			i := v.Choose(len(name))
			v.Assume(c[0] != name[i])
			name = name[:i] + c + name[i+1:]
		case 1:
			name += c
		case 2:
			name = c + name
		}
		d.Attrs = [][2]string{{name, text(v.Choose(n), "")}}
	}
	round(d)
}

// H_Other: fields of other kinds in order.
func H_Other() {
	n := size()
	d := base()
	field := func() [2]string {
		return [2]string{text(1, "mstcoa="), text(1+v.Choose(n), "")}
	}
	switch v.Case(3) {
	case 0:
		d.Other = [][2]string{field()}
	case 1:
		d.Other = [][2]string{{"b", "AS:64"}, field()}
		d.Attrs = [][2]string{{"x", "y"}}
	case 2:
		d.Other = [][2]string{field(), {"k", "="}, {"b", "1"}}
	}
	round(d)
}

func pick(media int, d *sdp.SDP, m *sdp.Media) {
	switch media {
	case 0:
		d.Audio = m
	case 1:
		d.Audio, d.Video = nil, m
	case 2:
		d.Video = m
	}
}

// H_Media: ports, protocols and the parts of codecs.
func H_Media() {
	n := size()
	d := base()
	m := &sdp.Media{Proto: "RTP/AVP", Port: 1, Codecs: []sdp.Codec{{PT: 97, Name: "speex", Rate: 16000}}}
	pick(v.Case(3), d, m)
	c := &m.Codecs[0]
	switch v.Case(6) {
	case 0:
		m.Port = v.Uint16()
	case 1:
		m.Proto = text(1+v.Choose(n), " ")
	case 2:
		c.Name = text(1+v.Choose(n), "/")
	case 3:
		c.Param = text(v.Choose(n+1), "/")
	case 4:
		c.Fmtp = text(v.Choose(n+1), "")
		c.Param = text(v.Choose(2), "/")
	case 5:
		c.Rate = number()
	}
	round(d)
}

// H_Codecs: lists of codecs with all payload types, in both kinds of media.
func H_Codecs() {
	size()
	d := base()
	codecs := func(n int) []sdp.Codec {
		var r []sdp.Codec
		for i := 0; i < n; i++ {
			c := sdp.Codec{PT: v.Byte(), Name: text(1, "/"), Rate: 8000 + i}
			for j := range r {
				v.Assume(r[j].PT != c.PT)
			}
			if v.Choose(2) == 1 {
				c.Fmtp = text(1, "")
			}
			r = append(r, c)
		}
		return r
	}
	switch v.Case(6) {
	case 4: // any payload type with any parameters
		d.Audio.Codecs = codecs(1)
		d.Audio.Codecs[0].Param = text(1, "/")
	case 5: // what the payload type stands for by itself, but for one field
		d.Audio.Codecs[0] = sdp.StandardCodecs[[]uint8{0, 3, 8, 9, 10, 11, 18, 31, 34}[v.Choose(9)]]
		c := &d.Audio.Codecs[0]
		switch v.Choose(3) {
		case 0:
			c.Name = text(v.Choose(2)+1, "/")
		case 1:
			c.Rate = number()
		case 2:
			c.Param = text(v.Choose(3), "/")
			c.Fmtp = text(1, "")
		}
		d.Video = &sdp.Media{Proto: "RTP/AVP", Port: 80, Codecs: []sdp.Codec{*c}}
	case 0:
		d.Audio.Codecs = codecs(2)
	case 1:
		d.Audio.Codecs = codecs(1)
		d.Video = &sdp.Media{Proto: "TCP/IP", Port: 80, Codecs: codecs(1)}
	case 2:
		d.Audio = nil
		d.Video = &sdp.Media{Proto: "TCP/IP", Port: 80, Codecs: codecs(2)}
	case 3:
		if v.Thorough() {
			d.Audio.Codecs = codecs(3)
		} else {
			d.Audio.Codecs = append(codecs(1), sdp.Codec{PT: 101, Name: "telephone-event", Rate: 8000, Fmtp: "0-16"}, sdp.Codec{PT: 10, Name: "L16", Rate: 44100, Param: "2"})
			v.Assume(v.And(d.Audio.Codecs[0].PT != 101, d.Audio.Codecs[0].PT != 10))
		}
	}
	round(d)
}

func number() int {
	switch v.Choose(4) {
	case 0:
		return v.InRange(1, 9)
	case 1:
		return v.InRange(10, 999)
	case 2:
		return v.InRange(44000, 48000)
	}
	return int(v.Uint16())
}

// H_Ptime: packet time and direction.
func H_Ptime() {
	size()
	d := base()
	if v.Choose(2) == 1 {
		d.Ptime = number()
	}
	switch v.Case(3) {
	case 1:
		d.SendOnly = true
	case 2:
		d.RecvOnly = true
	}
	if v.Choose(2) == 1 {
		d.Attrs = [][2]string{{"q", ""}}
	}
	round(d)
}

// H_New: descriptions made for an address.
func H_New() {
	size()
	rand.Restart()
	a := &net.UDPAddr{Port: int(v.Uint16())}
	host := "192.0.2.7"
	a.IP = net.IPv4(192, 0, 2, 7)
	if v.Case(2) == 1 {
		host = "2001:db8::7"
		a.IP = net.IP{0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7}
	}
	all := []sdp.Codec{sdp.ULAWCodec, sdp.DTMFCodec, {PT: 9, Name: "G722", Rate: 8000}}
	k := 1 + v.Case(3)
	codecs := append([]sdp.Codec(nil), all[:k]...)
	codecs[0].PT = v.Byte()
	v.Assume(v.And(codecs[0].PT < 96, codecs[0].PT != 9))
	codecs[0].Fmtp = text(1, "")
	d := sdp.New(a, codecs...)
	v.Assert(d != nil && d.Audio != nil && d.Video == nil, "no audio")
	if d == nil || d.Audio == nil {
		return
	}
	v.Assert(d.Addr == host && d.Origin.Addr == host, "address")
	v.Assert(int(d.Audio.Port) == a.Port, "port")
	v.Assert(d.Origin.ID != "" && d.Origin.Version == d.Origin.ID, "origin")
	v.Assert(mediaEqual(d.Audio, &sdp.Media{Proto: "RTP/AVP", Port: uint16(a.Port), Codecs: codecs}), "codecs")
	pt := d.Audio.Codecs[0].PT
	codecs[0].PT++
	v.Assert(d.Audio.Codecs[0].PT == pt, "the description changes with the list it was made of")
	got, err := sdp.Parse(d.String())
	v.Assert(err == nil, "the description made does not parse")
	if err == nil {
		v.Assert(got.Addr == host && got.Origin.ID == d.Origin.ID && got.Origin.Version == d.Origin.Version && got.Origin.Addr == host && mediaEqual(got.Audio, d.Audio) && got.Video == nil && len(got.Attrs) == 0 && !got.SendOnly && !got.RecvOnly, "the description made reads as another")
	}
}

// H_Defaults: fields that are not set.
func H_Defaults() {
	size()
	rand.Restart()
	d := base()
	d.Audio.Codecs[0].Fmtp = text(1, "")
	d.Session, d.Time = text(1, ""), text(1, "")
	unset := v.Choose(256)
	for i, p := range []*string{&d.Origin.User, &d.Origin.ID, &d.Origin.Version, &d.Origin.Addr, &d.Addr, &d.Session, &d.Time, &d.Audio.Proto} {
		if unset>>uint(i)&1 == 1 {
			*p = ""
		}
	}
	w := *d
	s := d.String()
	same(d, &w, "formatting changed the")
	for _, line := range strings.Split(strings.TrimSuffix(s, "\r\n"), "\r\n") {
		v.Assert(len(line) > 2 && line[1] == '=', "line without value")
	}
	got, err := sdp.Parse(s)
	v.Assert(err == nil, "a description with unset fields does not parse")
	if err != nil {
		return
	}
	def := func(got, set, other, what string) {
		if set == "" {
			set = other
		}
		if set == "" {
			v.Assert(got != "", what+" stays unset")
		} else {
			v.Assert(got == set, what+" changed")
		}
	}
	def(got.Origin.User, w.Origin.User, "-", "user")
	def(got.Origin.ID, w.Origin.ID, "", "ID")
	def(got.Origin.Version, w.Origin.Version, got.Origin.ID, "version")
	def(got.Origin.Addr, w.Origin.Addr, "", "origin address")
	def(got.Addr, w.Addr, "", "address")
	def(got.Session, w.Session, "", "session name")
	def(got.Time, w.Time, "0 0", "time")
	def(got.Audio.Proto, w.Audio.Proto, "RTP/AVP", "protocol")
	v.Assert(len(got.Audio.Codecs) == 1 && got.Audio.Codecs[0] == d.Audio.Codecs[0] && got.Audio.Port == 30126, "media changed")
}
