// Package c17: numeric header values are exact or refused.
package c17

import (
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zzv/ref"
	"github.com/jart/gosip/zzv/v"
)

// digits returns k arbitrary decimal digits.
func digits(k int) string {
	b := v.Bytes(k)
	for i := range b {
		v.Assume(ref.Digit(b[i]))
	}
	return string(b)
}

// value is the number written, and whether it is at most max.
func value(d string, max uint64) (uint64, bool) {
	n, fits := uint64(0), true
	for i := 0; i < len(d); i++ {
		c := uint64(d[i] - '0')
		// n*10+c <= max, written without overflow
		ok := v.Or(n < max/10, v.And(n == max/10, c <= max%10))
		fits = v.And(fits, ok)
		n = n*10 + c
	}
	return n, fits
}

type field struct {
	pre, post string
	max       uint64
	get       func(m *sip.Msg) uint64
}

const head = "SIP/2.0 200 OK\r\n"

var fields = []field{
	{"SIP/", ".0 200 OK\r\n\r\n", 255, func(m *sip.Msg) uint64 { return uint64(m.VersionMajor) }},
	{"SIP/2.", " 200 OK\r\n\r\n", 255, func(m *sip.Msg) uint64 { return uint64(m.VersionMinor) }},
	{"A sip:b SIP/", ".0\r\n\r\n", 255, func(m *sip.Msg) uint64 { return uint64(m.VersionMajor) }},
	{"A sip:b SIP/2.", "\r\n\r\n", 255, func(m *sip.Msg) uint64 { return uint64(m.VersionMinor) }},
	{head + "CSeq: ", " A\r\n\r\n", maxInt, func(m *sip.Msg) uint64 { return uint64(m.CSeq) }},
	{head + "CSeq: 3 B\r\nCSeq:", " A\r\n\r\n", maxInt, func(m *sip.Msg) uint64 { return uint64(m.CSeq) }},
	{head + "Max-Forwards: ", "\r\n\r\n", maxInt, func(m *sip.Msg) uint64 { return uint64(m.MaxForwards) }},
	{head + "Max-Forwards: 7\r\nMax-Forwards:", "\r\n\r\n", maxInt, func(m *sip.Msg) uint64 { return uint64(m.MaxForwards) }},
	{head + "Expires: ", "\r\n\r\n", maxInt, func(m *sip.Msg) uint64 { return uint64(m.Expires) }},
	{head + "Min-Expires: ", "\r\n\r\n", maxInt, func(m *sip.Msg) uint64 { return uint64(m.MinExpires) }},
	{head + "Expires: 7\r\nExpires:", "\r\n\r\n", maxInt, func(m *sip.Msg) uint64 { return uint64(m.Expires) }},
	{head + "Min-Expires: 7\r\nExpires: 5\r\nMin-Expires:", "\r\nCSeq: 6 A\r\n\r\n", maxInt, func(m *sip.Msg) uint64 { return uint64(m.MinExpires) }},
	{head + "v: S/2/U h:5060,S/2/U i:", "\r\nv: S/2/U j:1\r\n\r\n", 65535, func(m *sip.Msg) uint64 { return uint64(m.Via.Next.Port) }},
	{head + "Record-Route: <sip:g:77>, <sip:u@h:", ">\r\n\r\n", 65535, func(m *sip.Msg) uint64 { return uint64(m.RecordRoute.Next.Uri.Port) }},
	{head + "Via: S/2/U h:", "\r\n\r\n", 65535, func(m *sip.Msg) uint64 { return uint64(m.Via.Port) }},
	{head + "v: S/2/U [::1] : ", ";x,S/2/U i:9\r\n\r\n", 65535, func(m *sip.Msg) uint64 { return uint64(m.Via.Port) }},
	{head + "To: <sip:h:", ">\r\n\r\n", 65535, func(m *sip.Msg) uint64 { return uint64(m.To.Uri.Port) }},
	{"A sip:b:", " SIP/2.0\r\n\r\n", 65535, func(m *sip.Msg) uint64 { return uint64(m.Request.Port) }},
}

const maxInt = 1<<63 - 1

// long are shapes of numbers around the limits of 64-bit integers; each '?'
// is an arbitrary digit.
var long = []string{
	"9223372036854775???", "922337203685477????", "92233720368547758??", "?223372036854775808", "?223372036854775807",
	"18446744073709551???", "1844674407370955161??", "?8446744073709551616", "0000000000000000000000???", "?0000000000000000000",
	"99999999999999999999??", "12345678????9", "42949672??", "21474836??",
}

var ports = []string{"?", "??", "???", "????", "?????", "??????", "000000?????", "65???", "6553?", "6553??", "42949?????", "18446744073709?????"}
var shorts = []string{"?", "??", "???", "????", "000???", "25?", "1844674407370955161?"}
var ints = append([]string{"?", "??", "???", "????", "?????"}, long...)

func fill(shape string) string {
	b := []byte(shape)
	for i := range b {
		if b[i] == '?' {
			b[i] = v.Byte()
			v.Assume(ref.Digit(b[i]))
		}
	}
	return string(b)
}

func shapes(max uint64) []string {
	switch max {
	case 255:
		return shorts
	case 65535:
		return ports
	}
	return ints
}

// H_Fields: every digit string of the shapes above in every numeric field.
func H_Fields() {
	v.Bound("numbers: all digit strings of up to 5 digits, and up to five arbitrary digits inside longer numbers around 2^8, 2^16, 2^32, 2^63 and 2^64, with and without leading zeros")
	f := fields[v.Case(len(fields))]
	sh := shapes(f.max)
	i := v.Case(len(ints))
	if i >= len(sh) {
		v.Skip()
	}
	d := fill(sh[i])
	field1(f, d)
}

func field1(f field, d string) {
	m, err := sip.ParseMsg([]byte(f.pre + d + f.post))
	val, fits := value(d, f.max)
	v.Assert((err == nil) == fits, "a number is accepted exactly when it fits")
	if err != nil || m == nil {
		v.Reach("refused")
		return
	}
	v.Reach("accepted")
	v.Assert(f.get(m) == val, "number differs from the one written")
}

// H_Digits: every digit string of the given lengths (thorough).
func H_Digits() {
	if !v.Thorough() {
		v.Skip()
	}
	v.Bound("thorough: all digit strings of 1..20 digits in each numeric field (1..12 for ports and versions)")
	f := fields[v.Case(len(fields))]
	k := 1 + v.Case(20)
	if f.max < maxInt && k > 12 {
		v.Skip()
	}
	field1(f, digits(k))
}

// H_Status: every three-digit status.
func H_Status() {
	d := v.Bytes(3)
	m, err := sip.ParseMsg([]byte("SIP/2.0 " + string(d) + " x\r\n\r\n"))
	ok := v.And(ref.Digit(d[0]), v.And(ref.Digit(d[1]), ref.Digit(d[2])))
	v.Assert((err == nil) == ok, "status accepted exactly when it is three digits")
	if err == nil && m != nil {
		v.Assert(m.Status == int(d[0]-'0')*100+int(d[1]-'0')*10+int(d[2]-'0'), "status differs from the one written")
	}
}

// H_Length: the Content-Length is the number written: a payload is accepted
// exactly when it has that many octets.
func H_Length() {
	v.Bound("payloads of 0, 1 and 12 octets against every Content-Length of those shapes")
	body := []string{"", "b", "hello world!"}[v.Case(3)]
	name := []string{"l:", "Content-Length: 9\r\nContent-Length:"}[v.Case(2)]
	d := fill(ints[v.Case(len(ints))])
	m, err := sip.ParseMsg([]byte(head + name + d + "\r\nX: y\r\n\r\n" + body))
	val, fits := value(d, maxInt)
	want := v.And(fits, v.Or(val == 0, val == uint64(len(body))))
	v.Assert((err == nil) == want, "declared length does not decide the payload")
	if err == nil && m != nil {
		v.Assert(v.And(m.Expires == 0, v.And(m.MaxForwards == 0, m.MinExpires == 0)), "a length changed another header's number")
		v.Assert((m.Payload != nil) == v.And(len(body) > 0, val > 0), "payload presence does not follow the length")
	}
}

// H_Separate: the numbers of one message do not influence each other.
func H_Separate() {
	v.Bound("every order of two of five numeric headers, two digits each")
	names := []string{"CSeq", "Expires", "Min-Expires", "Max-Forwards", "l"}
	i, j := v.Case(5), v.Case(5)
	if i == j {
		v.Skip()
	}
	a, b := digits(2), digits(2)
	line := func(k int, d string) string {
		if k == 0 {
			d += " A"
		}
		return names[k] + ":" + d + "\r\n"
	}
	m, err := sip.ParseMsg([]byte(head + line(i, a) + line(j, b) + "\r\n"))
	x, _ := value(a, 99)
	y, _ := value(b, 99)
	if i == 4 && x != 0 || j == 4 && y != 0 {
		v.Assert(err != nil, "missing payload accepted")
		return
	}
	v.Assert(err == nil, "two numeric headers refused")
	if err != nil {
		return
	}
	want := [5]uint64{}
	want[i], want[j] = x, y
	v.Assert(uint64(m.CSeq) == want[0], "CSeq")
	v.Assert(uint64(m.Expires) == want[1], "Expires")
	v.Assert(uint64(m.MinExpires) == want[2], "Min-Expires")
	v.Assert(uint64(m.MaxForwards) == want[3], "Max-Forwards")
}
