// Package c22: the SDP parser is total and keeps its documented guarantees.
package c22

import (
	"strconv"
	"strings"

	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/zzv/v"
)

// section is an m= line with the codec attributes under it.
type section struct {
	info        string
	pts         []string
	maps, fmtps []string
}

func (s *section) lists(pt string) bool {
	for _, p := range s.pts {
		if p == pt {
			return true
		}
	}
	return false
}

// find returns the first text in l for the payload type.
func find(l []string, pt string) (string, bool) {
	for _, s := range l {
		if len(s) > len(pt) && s[:len(pt)] == pt && s[len(pt)] == ' ' {
			return s[len(pt)+1:], true
		}
	}
	return "", false
}

// static is the IANA table of the payload types without rtpmap.
var static = map[uint8]sdp.Codec{
	0: {PT: 0, Name: "PCMU", Rate: 8000}, 3: {PT: 3, Name: "GSM", Rate: 8000}, 4: {PT: 4, Name: "G723", Rate: 8000},
	5: {PT: 5, Name: "DVI4", Rate: 8000}, 6: {PT: 6, Name: "DVI4", Rate: 16000}, 7: {PT: 7, Name: "LPC", Rate: 8000},
	8: {PT: 8, Name: "PCMA", Rate: 8000}, 9: {PT: 9, Name: "G722", Rate: 8000}, 10: {PT: 10, Name: "L16", Rate: 44100, Param: "2"},
	11: {PT: 11, Name: "L16", Rate: 44100}, 12: {PT: 12, Name: "QCELP", Rate: 8000}, 13: {PT: 13, Name: "CN", Rate: 8000},
	14: {PT: 14, Name: "MPA", Rate: 90000}, 15: {PT: 15, Name: "G728", Rate: 8000}, 16: {PT: 16, Name: "DVI4", Rate: 11025},
	17: {PT: 17, Name: "DVI4", Rate: 22050}, 18: {PT: 18, Name: "G729", Rate: 8000}, 25: {PT: 25, Name: "CelB", Rate: 90000},
	26: {PT: 26, Name: "JPEG", Rate: 90000}, 28: {PT: 28, Name: "nv", Rate: 90000}, 31: {PT: 31, Name: "H261", Rate: 90000},
	32: {PT: 32, Name: "MPV", Rate: 90000}, 33: {PT: 33, Name: "MP2T", Rate: 90000}, 34: {PT: 34, Name: "H263", Rate: 90000},
}

// number is the value of a token of decimal digits, if it is one.
func number(s string) (int, bool) {
	if s == "" {
		return 0, false
	}
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + int(s[i]-'0') // never longer than an int
	}
	return n, true
}

// medium asserts that m is what the section says.
func medium(m *sdp.Media, own, session, other *section) {
	if own == nil || own.info == "" {
		v.Assert(m == nil, "a medium without media line")
		return
	}
	v.Assert(m != nil, "a media line without medium")
	if m == nil {
		return
	}
	toks := strings.Split(own.info, " ")
	v.Assert(len(toks) >= 3, "accepted a media line without payload types")
	if len(toks) < 3 {
		return
	}
	portS := toks[0]
	if i := strings.IndexByte(portS, '/'); i > 0 {
		portS = portS[:i]
	}
	port, ok := number(portS)
	v.Assert(ok && port <= 65535, "accepted a port that is none")
	v.Assert(port == int(m.Port), "another port")
	v.Assert(m.Proto == toks[1], "another protocol")
	v.Assert(len(m.Codecs) == len(toks)-2, "number of codecs")
	if len(m.Codecs) != len(toks)-2 {
		return
	}
	for i, c := range m.Codecs {
		pt, ok := number(toks[2+i])
		v.Assert(ok && pt <= 255, "accepted a payload type that is none")
		v.Assert(pt == int(c.PT), "payload types out of order")
		p := strconv.Itoa(pt)
		from := []*section{own}
		for _, s := range []*section{session, other} {
			if s != nil && !s.lists(p) {
				from = append(from, s)
			}
		}
		want := sdp.Codec{PT: uint8(pt)}
		for _, s := range from {
			if t, ok := find(s.maps, p); ok {
				f := strings.Split(t, "/")
				v.Assert(len(f) >= 2, "accepted an rtpmap without rate")
				if len(f) < 2 {
					return
				}
				rate, err := strconv.Atoi(f[1])
				v.Assert(err == nil, "accepted an rtpmap whose rate is no number")
				want.Name, want.Rate = f[0], rate
				if len(f) > 2 {
					want.Param = f[2]
				}
				break
			}
		}
		if want.Name == "" {
			v.Assert(pt < 96, "accepted a dynamic payload type without rtpmap")
			s, ok := static[uint8(pt)]
			v.Assert(ok, "accepted an unknown static payload type")
			want = s
		}
		for _, s := range from {
			if t, ok := find(s.fmtps, p); ok {
				want.Fmtp = t
				break
			}
		}
		v.Assert(c.Name == want.Name, "codec name")
		v.Assert(c.Rate == want.Rate, "codec rate")
		v.Assert(c.Param == want.Param, "codec parameter")
		v.Assert(c.Fmtp == want.Fmtp, "codec format string")
		v.Reach("codec")
	}
}

// check parses s and asserts all guarantees.
func list(got, want [][2]string, what string) {
	v.Assert(len(got) == len(want), "number of "+what+" differs")
	for i := range want {
		if i < len(got) {
			v.Assert(got[i] == want[i], what+" differ")
		}
	}
}

func check(s string) *sdp.SDP {
	v.Obs("text", s)
	d, err := sdp.Parse(s)
	v.Assert((d == nil) != (err == nil), "neither or both of description and error")
	if d == nil || err != nil {
		return nil
	}
	v.Reach("accepted")
	var lines []string
	for b := 0; ; {
		i := b
		for i < len(s) && !(s[i] == '\r' && i+1 < len(s) && s[i+1] == '\n') {
			i++
		}
		lines = append(lines, s[b:i])
		if i >= len(s) {
			break
		}
		b = i + 2
	}
	v.Assert(lines[0] == "v=0", "accepted without version line")
	session := &section{}
	var audio, video, conn, origin *section
	at := session
	connS, originS := "", ""
	session_, time_, ptime, known := "", "", 0, true
	var send, recv bool
	var attrs, other [][2]string
	for _, l := range lines[1:] {
		if len(l) < 3 || l[1] != '=' {
			continue
		}
		val := l[2:]
		switch l[0] {
		case 'm':
			at = &section{}
			for i, kind := range []string{"audio ", "video "} {
				if strings.HasPrefix(val, kind) {
					at.info = val[6:]
					if t := strings.Split(at.info, " "); len(t) > 2 {
						at.pts = t[2:]
					}
					if i == 0 {
						audio = at
					} else {
						video = at
					}
				}
			}
		case 'c':
			if conn == nil {
				conn, connS = at, val
			}
		case 'o':
			origin, originS = at, val
		case 'a':
			if strings.HasPrefix(val, "rtpmap:") {
				at.maps = append(at.maps, val[7:])
			} else if strings.HasPrefix(val, "fmtp:") {
				at.fmtps = append(at.fmtps, val[5:])
			} else if strings.HasPrefix(val, "ptime:") {
				if n, ok := number(val[6:]); !ok {
					known = false
				} else if n > 0 {
					ptime = n
				}
			} else if val == "sendonly" {
				send = true
			} else if val == "recvonly" {
				recv = true
			} else if i := strings.IndexByte(val, ':'); i > 0 {
				attrs = append(attrs, [2]string{val[:i], val[i+1:]})
			} else if i < 0 && val != "sendrecv" {
				attrs = append(attrs, [2]string{val, ""})
			}
		case 's':
			session_ = val
		case 't':
			time_ = val
		default:
			if l[0] != '=' {
				other = append(other, [2]string{l[:1], val})
			}
		}
	}
	v.Assert(session_ == "" || d.Session == session_, "another session name than the last session line's")
	v.Assert(time_ == "" || d.Time == time_, "another time than the last time line's")
	v.Assert(!known || d.Ptime == ptime, "another packet time than the last valid one")
	v.Assert(d.SendOnly == send && d.RecvOnly == recv, "another direction than the lines say")
	list(d.Attrs, attrs, "attributes")
	list(d.Other, other, "other fields")
	v.Assert(strings.IndexByte(d.Origin.Addr, '/') < 0, "accepted a multicast origin")
	v.Assert(conn != nil, "accepted without connection line")
	v.Assert(origin != nil, "accepted without origin line")
	v.Assert(d.Addr != "", "accepted a blank address")
	v.Assert(strings.IndexByte(d.Addr, '/') < 0, "accepted a multicast address")
	v.Assert(connS == "IN IP4 "+d.Addr || connS == "IN IP6 "+d.Addr, "another address than the first connection line's")
	o := d.Origin.User + " " + d.Origin.ID + " " + d.Origin.Version + " IN IP"
	v.Assert(originS == o+"4 "+d.Origin.Addr || originS == o+"6 "+d.Origin.Addr, "another origin")
	v.Assert(d.Audio != nil || d.Video != nil, "accepted without audio or video")
	medium(d.Audio, audio, session, video)
	medium(d.Video, video, session, audio)
	return d
}

func size() int {
	v.Bound("windows of 2 (quick) or 4 (thorough) arbitrary octets at every position of the templates, line values of up to 4 (6) arbitrary octets for every line kind, sequences of 3 (4) lines of a menu of 16, port and payload type tokens of up to 6 digits")
	if v.Thorough() {
		return 4
	}
	return 2
}

var templates = []string{
	"v=0\r\no=- 1 2 IN IP4 1.2.3.4\r\ns=-\r\nc=IN IP4 5.6.7.8\r\nt=0 0\r\nm=audio 9 X 0 101\r\na=rtpmap:101 t/8000/2\r\na=fmtp:101 0-16\r\na=ptime:20\r\na=sendonly\r\n",
	"v=0\r\nc=IN IP6 ::1\r\no=u 3 4 IN IP6 ::2\r\na=rtpmap:99 s/16000\r\nm=video 80/2 TCP 34 99\r\nb=AS:1\r\na=fmtp:99 q\r\nm=audio 7 Y 99\r\na=rtpmap:99 a/8\r\na=x:y\r\n",
}

// H_Window: arbitrary octets at every position of whole descriptions.
func H_Window() {
	n := size()
	t := templates[v.Case(len(templates))]
	const step = 8
	i := v.Case((len(t) + step - 1) / step)
	i = i*step + v.Choose(step)
	if i > len(t) {
		v.Skip()
	}
	w := v.Str(v.Choose(n + 1))
	cut := i
	if v.Choose(2) == 1 {
		cut += len(w)
	}
	if cut > len(t) {
		v.Skip()
	}
	check(t[:i] + w + t[cut:])
}

// H_Prefix: every prefix of the templates, and arbitrary short texts.
func H_Prefix() {
	n := size()
	t := templates[v.Case(len(templates))]
	i := v.Choose(len(t) + 1)
	check(t[:i])
	check(t[i:])
	check(v.Str(v.Choose(n + 3)))
	check("v=0\r\n" + v.Str(v.Choose(n+2)))
}

// H_Line: a line of every kind with an arbitrary value.
func H_Line() {
	n := size() + 2
	kind := []string{"o=", "c=", "c=IN ", "c=IN IP4 ", "o=- 1 1 IN IP4 ", "s=", "t=", "m=", "m=audio ", "m=video 1 X ", "a=", "a=x", "a=rtpmap:", "a=rtpmap:0 ", "a=rtpmap:101 ", "a=fmtp:", "a=fmtp:0 ", "a=ptime:", "b=", "=", ""}
	k := kind[v.Case(len(kind))]
	line := k + v.Str(v.Choose(n+1)) + "\r\n"
	o, c, m := "o=- 1 2 IN IP4 1.2.3.4\r\n", "c=IN IP4 5.6.7.8\r\n", "m=audio 9 X 0 101\r\na=rtpmap:101 t/8\r\n"
	switch v.Choose(3) {
	case 0:
		check("v=0\r\n" + line + o + c + m)
	case 1:
		check("v=0\r\n" + o + c + m + line)
	case 2:
		switch k[:len(k)&1] {
		default:
			check("v=0\r\n" + o + line + m)
		}
	}
}

var menu = []string{
	"o=- 1 2 IN IP4 1.2.3.4", "c=IN IP4 5.6.7.8", "m=audio 9 X 0 101", "m=audio 7 Y 8", "m=video 8 Z 34 101", "m=video 80 T 0", "m=app 1 U 0",
	"a=rtpmap:101 t/8000", "a=rtpmap:101 h/90000/1", "a=rtpmap:0 ulaw/1", "a=rtpmap:0 /1", "a=fmtp:101 a", "a=fmtp:0 b", "a=recvonly", "a=x:y", "o=x 9 8 IN IP6 ::", "c=IN IP6 ::1", "a=ptime:3",
}

// H_Order: sequences of lines around a complete description.
func H_Order() {
	n := 3
	if size() > 2 {
		n = 4
	}
	pre := []string{"", "o=- 1 2 IN IP4 1.2.3.4\r\nc=IN IP4 5.6.7.8\r\n", "o=- 1 2 IN IP4 1.2.3.4\r\nc=IN IP4 5.6.7.8\r\nm=audio 1 P 0 101\r\n"}[v.Case(3)]
	s := "v=0\r\n" + pre + menu[v.Case(len(menu))] + "\r\n"
	for i := 1; i < n; i++ {
		s += menu[v.Choose(len(menu))] + "\r\n"
	}
	check(s)
}

// H_Numbers: every port and payload type, in and out of range.
func H_Numbers() {
	size()
	digits := func(k int) string {
		b := v.Bytes(k)
		for i := range b {
			v.Assume(v.And(b[i] >= '0', b[i] <= '9'))
		}
		return string(b)
	}
	pre := "v=0\r\no=- 1 2 IN IP4 1.2.3.4\r\nc=IN IP4 5.6.7.8\r\nm=" + []string{"audio ", "video "}[v.Case(2)]
	k := 1 + v.Case(4)
	switch v.Case(3) {
	case 0:
		p := digits(k + v.Choose(2)*3)
		d := check(pre + p + " X 0\r\n")
		n, _ := number(p)
		v.Assert((d == nil) == (n > 65535), "exactly the ports above 65535 are errors")
	case 1:
		p := digits(k)
		d := check(pre + "1 X " + p + "\r\n")
		n, _ := number(p)
		_, ok := static[uint8(n)]
		v.Assert((d != nil) == (n < 96 && ok), "exactly the static payload types need no rtpmap")
	case 2:
		p := digits(k)
		q := digits(1 + v.Choose(3))
		d := check(pre + "1 X " + p + "\r\na=rtpmap:" + q + " n/8\r\n")
		n, _ := number(p)
		_, ok := static[uint8(n)]
		if d == nil {
			v.Assert(n > 255 || n >= 96 || !ok, "refused a static payload type")
			v.Assert(n > 255 || p != q || p[0] == '0' && len(p) > 1, "refused a payload type with rtpmap")
		} else {
			v.Assert(n <= 255, "accepted a payload type above 255")
		}
	}
}
