package ref

import (
	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zzv/v"
)

// Character classes of the message grammar (sip.rl).
func Token(c byte) bool   { return v.Or(Alnum(c), In(c, "-.!%*_+`'~")) }
func word(c byte) bool    { return v.Or(Token(c), In(c, "()<>:\\\"/[]?{}")) }
func wsp(c byte) bool     { return v.Or(c == ' ', c == '\t') }
func uric(c byte) bool    { return v.Or(unreserved(c), In(c, ";/?:@&=+$,%[]")) }
func tokHost(c byte) bool { return v.Or(Token(c), In(c, "[]:")) }
func reason(c byte) bool  { return v.Or(unreserved(c), In(c, ";/?:@&=+$, \t")) }
func notSP(c byte) bool   { return c != ' ' }
func qdtext(c byte) bool {
	return v.Or(c == 0x21, v.Or(v.And(c >= 0x23, c <= 0x5B), v.And(c >= 0x5D, c <= 0x7E)))
}
func quotable(c byte) bool { return v.And(c < 0x80, v.And(c != '\n', c != '\r')) }

type mscan struct {
	b []byte
	p int
}

func (s *mscan) more() bool { return s.p < len(s.b) }

func (s *mscan) is(c byte) bool {
	if s.p < len(s.b) && s.b[s.p] == c {
		s.p++
		return true
	}
	return false
}

func (s *mscan) lit(t string) bool {
	for i := 0; i < len(t); i++ {
		if !s.is(t[i]) {
			return false
		}
	}
	return true
}

// foldAt reports a line fold: CR LF followed by white space.
func (s *mscan) foldAt(p int) bool {
	return p+2 < len(s.b) && v.And(s.b[p] == '\r', v.And(s.b[p+1] == '\n', wsp(s.b[p+2])))
}

// crlf reads a line end, which must not be a fold.
func (s *mscan) crlf() bool {
	if s.p+1 < len(s.b) && v.And(s.b[s.p] == '\r', s.b[s.p+1] == '\n') && !s.foldAt(s.p) {
		s.p += 2
		return true
	}
	return false
}

func (s *mscan) wsps() int {
	n := 0
	for s.more() && wsp(s.b[s.p]) {
		s.p++
		n++
	}
	return n
}

// lws reads white space with at most k folds and returns how much it read.
func (s *mscan) lws(k int) int {
	at := s.p
	s.wsps()
	for k > 0 && s.foldAt(s.p) {
		s.p += 2
		s.wsps()
		k--
	}
	return s.p - at
}

// sep reads SWS c SWS; extra is a further fold allowed before c.
func (s *mscan) sep(c byte, extra int) bool {
	at := s.p
	s.lws(1 + extra)
	if s.is(c) {
		s.lws(1)
		return true
	}
	s.p = at
	return false
}

func (s *mscan) run(class func(byte) bool) string {
	at := s.p
	for s.more() && class(s.b[s.p]) {
		s.p++
	}
	return string(s.b[at:s.p])
}

// utf8 reads one structurally valid multi-octet sequence.
func (s *mscan) utf8() bool {
	c := s.b[s.p]
	n := 0
	switch {
	case v.And(c >= 0xC0, c <= 0xDF):
		n = 1
	case v.And(c >= 0xE0, c <= 0xEF):
		n = 2
	case v.And(c >= 0xF0, c <= 0xF7):
		n = 3
	case v.And(c >= 0xF8, c <= 0xFB):
		n = 4
	case v.And(c >= 0xFC, c <= 0xFD):
		n = 5
	default:
		return false
	}
	if s.p+n >= len(s.b) {
		return false
	}
	ok := true
	for i := 1; i <= n; i++ {
		ok = v.And(ok, v.And(s.b[s.p+i] >= 0x80, s.b[s.p+i] <= 0xBF))
	}
	if !ok {
		return false
	}
	s.p += 1 + n
	return true
}

func (s *mscan) number(max uint64) (uint64, bool) {
	n, d := uint64(0), 0
	for s.more() && Digit(s.b[s.p]) {
		c := uint64(s.b[s.p] - '0')
		if n > (max-c)/10 {
			return 0, false
		}
		n = n*10 + c
		d++
		s.p++
	}
	return n, d > 0
}

const maxInt = 1<<63 - 1

// quoted reads a quoted string; the opening quote has been read.
func (s *mscan) quoted() (string, bool) {
	var o []byte
	for s.more() {
		c := s.b[s.p]
		switch {
		case c == '"':
			s.p++
			return string(o), true
		case c == '\\':
			if s.p+1 >= len(s.b) || !quotable(s.b[s.p+1]) {
				return "", false
			}
			o = append(o, s.b[s.p+1])
			s.p += 2
		case v.Or(qdtext(c), wsp(c)):
			o = append(o, c)
			s.p++
		case c == '\r':
			if !s.foldAt(s.p) {
				return "", false
			}
			o = append(o, '\r', '\n')
			s.p += 2
		default:
			at := s.p
			if !s.utf8() {
				return "", false
			}
			o = append(o, s.b[at:s.p]...)
		}
	}
	return "", false
}

func (s *mscan) version() (maj, min uint8, ok bool) {
	if !s.lit("SIP/") {
		return
	}
	a, ok := s.number(255)
	if !ok || !s.is('.') {
		return 0, 0, false
	}
	b, ok := s.number(255)
	return uint8(a), uint8(b), ok
}

func (s *mscan) startLine(m *sip.Msg) bool {
	ok := false
	meth := s.run(Token)
	if meth == "SIP" && s.more() && s.b[s.p] == '/' {
		s.p = 0
		if m.VersionMajor, m.VersionMinor, ok = s.version(); !ok || !s.is(' ') {
			return false
		}
		if s.p+3 > len(s.b) {
			return false
		}
		for i := 0; i < 3; i++ {
			if !Digit(s.b[s.p]) {
				return false
			}
			m.Status = m.Status*10 + int(s.b[s.p]-'0')
			s.p++
		}
		if !s.is(' ') {
			return false
		}
		var o []byte
		for s.more() {
			c := s.b[s.p]
			if c == '%' {
				if s.p+2 >= len(s.b) || !v.And(Xdigit(s.b[s.p+1]), Xdigit(s.b[s.p+2])) {
					return false
				}
				o = append(o, Hexval(s.b[s.p+1])*16+Hexval(s.b[s.p+2]))
				s.p += 3
				continue
			}
			if reason(c) {
				o = append(o, c)
				s.p++
				continue
			}
			at := s.p
			if !s.utf8() {
				break
			}
			o = append(o, s.b[at:s.p]...)
		}
		m.Phrase = string(o)
		return len(o) > 0 && s.crlf()
	}
	m.Method = meth
	if meth == "" || !s.is(' ') {
		return false
	}
	u := s.run(notSP)
	if u == "" || !s.is(' ') {
		return false
	}
	if m.Request = URI([]byte(u)); m.Request == nil {
		return false
	}
	m.VersionMajor, m.VersionMinor, ok = s.version()
	return ok && s.crlf()
}

// param reads name [ = value ].
func (s *mscan) param(next *sip.Param) (*sip.Param, bool) {
	p := &sip.Param{Next: next}
	p.Name = s.run(Token)
	if p.Name == "" {
		return nil, false
	}
	if s.sep('=', 0) {
		if s.is('"') {
			ok := false
			if p.Value, ok = s.quoted(); !ok {
				return nil, false
			}
		} else if p.Value = s.run(tokHost); p.Value == "" {
			return nil, false
		}
	}
	return p, true
}

func (s *mscan) via(tail **sip.Via) bool {
	for {
		w := new(sip.Via)
		ok := false
		if w.Protocol = s.run(Token); w.Protocol == "" || !s.sep('/', 0) {
			return false
		}
		if w.Version = s.run(Token); w.Version == "" || !s.sep('/', 0) {
			return false
		}
		if w.Transport = s.run(Token); w.Transport == "" || s.lws(1) == 0 {
			return false
		}
		if s.is('[') {
			w.Host = s.run(Host6C)
			if !s.is(']') {
				return false
			}
		} else {
			w.Host = s.run(viaHost)
		}
		if w.Host == "" {
			return false
		}
		if s.sep(':', 0) {
			n, ok := s.number(65535)
			if !ok {
				return false
			}
			w.Port = uint16(n)
		}
		for s.sep(';', 0) {
			if w.Param, ok = s.param(w.Param); !ok {
				return false
			}
		}
		*tail = w
		tail = &w.Next
		if !s.sep(',', 0) {
			return s.crlf()
		}
	}
}

func viaHost(c byte) bool { return v.Or(Alnum(c), In(c, "-.")) }

// uriText reads scheme ":" uric+, ending before any octet of stop.
func (s *mscan) uriText(stop string) *sip.URI {
	at := s.p
	if !s.more() || !Alpha(s.b[s.p]) {
		return nil
	}
	s.run(SchemeC)
	if !s.is(':') {
		return nil
	}
	n := 0
	for s.more() && uric(s.b[s.p]) && (n == 0 || !In(s.b[s.p], stop)) {
		s.p++
		n++
	}
	if n == 0 {
		return nil
	}
	return URI(s.b[at:s.p])
}

func (s *mscan) addr(tail **sip.Addr) bool {
	for *tail != nil {
		tail = &(*tail).Next
	}
	for {
		a := new(sip.Addr)
		ok, angled := false, true
		if !s.more() {
			return false
		}
		switch c := s.b[s.p]; {
		case c == '<':
			s.p++
		case c == '"':
			s.p++
			if a.Display, ok = s.quoted(); !ok {
				return false
			}
			s.lws(1)
			if !s.is('<') {
				return false
			}
		default:
			at := s.p
			for s.run(Token) != "" && s.lws(1) > 0 {
			}
			end := s.p
			if s.is('<') {
				for end > at && v.Or(wsp(s.b[end-1]), v.Or(s.b[end-1] == '\r', s.b[end-1] == '\n')) {
					end--
				}
				if end == s.p-1 { // no white space before <
					return false
				}
				a.Display = string(s.b[at:end])
			} else {
				s.p = at
				angled = false
			}
		}
		extra := 0
		if angled {
			a.Uri = s.uriText("")
			if a.Uri == nil || !s.is('>') {
				return false
			}
			extra = 1
		} else {
			a.Uri = s.uriText(";,")
			if a.Uri == nil {
				return false
			}
		}
		par := false
		for s.sep(';', extra) {
			extra = 0
			par = true
			if a.Param, ok = s.param(a.Param); !ok {
				return false
			}
		}
		*tail = a
		tail = &a.Next
		if !s.sep(',', extra) {
			if angled && !par {
				s.lws(1)
			}
			return s.crlf()
		}
	}
}

// text reads a raw header value up to the line end.
func (s *mscan) text() (string, bool) {
	at := s.p
	for s.more() {
		c := s.b[s.p]
		switch {
		case v.Or(v.And(c >= 0x21, c <= 0x7F), wsp(c)):
			s.p++
		case c == '\r':
			if s.foldAt(s.p) {
				s.p += 2
				continue
			}
			t := string(s.b[at:s.p])
			return t, s.crlf()
		default:
			if !s.utf8() {
				return "", false
			}
		}
	}
	return "", false
}

// Texts maps every header kept as text to its field, by lower-case name.
func Texts(m *sip.Msg, name string) *string {
	switch name {
	case "accept":
		return &m.Accept
	case "accept-contact", "a":
		return &m.AcceptContact
	case "accept-encoding":
		return &m.AcceptEncoding
	case "accept-language":
		return &m.AcceptLanguage
	case "alert-info":
		return &m.AlertInfo
	case "allow":
		return &m.Allow
	case "allow-events", "u":
		return &m.AllowEvents
	case "authentication-info":
		return &m.AuthenticationInfo
	case "authorization":
		return &m.Authorization
	case "call-info":
		return &m.CallInfo
	case "content-disposition":
		return &m.ContentDisposition
	case "content-encoding", "e":
		return &m.ContentEncoding
	case "content-language":
		return &m.ContentLanguage
	case "date":
		return &m.Date
	case "error-info":
		return &m.ErrorInfo
	case "event", "o":
		return &m.Event
	case "in-reply-to":
		return &m.InReplyTo
	case "mime-version":
		return &m.MIMEVersion
	case "organization":
		return &m.Organization
	case "priority":
		return &m.Priority
	case "proxy-authenticate":
		return &m.ProxyAuthenticate
	case "proxy-authorization":
		return &m.ProxyAuthorization
	case "proxy-require":
		return &m.ProxyRequire
	case "refer-to", "r":
		return &m.ReferTo
	case "referred-by", "b":
		return &m.ReferredBy
	case "reply-to":
		return &m.ReplyTo
	case "require":
		return &m.Require
	case "retry-after":
		return &m.RetryAfter
	case "server":
		return &m.Server
	case "subject", "s":
		return &m.Subject
	case "supported", "k":
		return &m.Supported
	case "timestamp":
		return &m.Timestamp
	case "unsupported":
		return &m.Unsupported
	case "user-agent":
		return &m.UserAgent
	case "warning":
		return &m.Warning
	case "www-authenticate":
		return &m.WWWAuthenticate
	}
	return nil
}

// Addrs maps every address header to its field.
func Addrs(m *sip.Msg, name string) **sip.Addr {
	switch name {
	case "contact", "m":
		return &m.Contact
	case "from", "f":
		return &m.From
	case "p-asserted-identity":
		return &m.PAssertedIdentity
	case "record-route":
		return &m.RecordRoute
	case "remote-party-id":
		return &m.RemotePartyID
	case "route":
		return &m.Route
	case "to", "t":
		return &m.To
	}
	return nil
}

// Ints maps every numeric header to its field.
func Ints(m *sip.Msg, name string) *int {
	switch name {
	case "expires":
		return &m.Expires
	case "max-forwards":
		return &m.MaxForwards
	case "min-expires":
		return &m.MinExpires
	}
	return nil
}

func low(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] = Lower(b[i])
	}
	return string(b)
}

// Head is what the grammar says about the part of a message up to the blank
// line.
type Head struct {
	Msg   *sip.Msg
	Len   int // octets up to and including the blank line
	CLen  int
	CType string
}

// Parse reads the head of a message; nil means it is not one.
func Parse(b []byte) *Head {
	s := &mscan{b, 0}
	h := &Head{Msg: new(sip.Msg)}
	m := h.Msg
	if !s.startLine(m) {
		return nil
	}
	vtail := &m.Via
	for {
		if s.p+1 < len(b) && v.And(b[s.p] == '\r', b[s.p+1] == '\n') {
			h.Len = s.p + 2
			return h
		}
		name := s.run(Token)
		if name == "" {
			return nil
		}
		s.wsps()
		if !s.is(':') {
			return nil
		}
		s.lws(1)
		if !s.more() {
			return nil
		}
		key := low(name)
		if f := Texts(m, key); f != nil {
			t, ok := s.text()
			if !ok {
				return nil
			}
			*f = t
			continue
		}
		if f := Addrs(m, key); f != nil {
			if !s.addr(f) {
				return nil
			}
			continue
		}
		if f := Ints(m, key); f != nil {
			n, ok := s.number(maxInt)
			if !ok || !s.crlf() {
				return nil
			}
			*f = int(n)
			continue
		}
		switch key {
		case "via", "v":
			if !s.via(vtail) {
				return nil
			}
			for *vtail != nil {
				vtail = &(*vtail).Next
			}
		case "content-length", "l":
			n, ok := s.number(maxInt)
			if !ok || !s.crlf() {
				return nil
			}
			h.CLen = int(n)
		case "cseq":
			n, ok := s.number(maxInt)
			if !ok || s.lws(1) == 0 {
				return nil
			}
			m.CSeq = int(n)
			if m.CSeqMethod = s.run(Token); m.CSeqMethod == "" || !s.crlf() {
				return nil
			}
		case "call-id", "i":
			at := s.p
			if s.run(word) == "" {
				return nil
			}
			if s.is('@') && s.run(word) == "" {
				return nil
			}
			m.CallID = string(b[at:s.p])
			if !s.crlf() {
				return nil
			}
		case "content-type", "c":
			at := s.p
			if s.run(Token) == "" || !s.is('/') || s.run(Token) == "" {
				return nil
			}
			h.CType = string(b[at:s.p])
			for s.sep(';', 0) {
				if s.run(Token) == "" || !s.sep('=', 0) {
					return nil
				}
				if s.is('"') {
					if _, ok := s.quoted(); !ok {
						return nil
					}
				} else if s.run(Token) == "" {
					return nil
				}
			}
			if !s.crlf() {
				return nil
			}
		default:
			t, ok := s.text()
			if !ok {
				return nil
			}
			m.XHeader = &sip.XHeader{Name: name, Value: []byte(t), Next: m.XHeader}
		}
	}
}

// Message parses a whole message.
func Message(b []byte) *sip.Msg {
	h := Parse(b)
	if h == nil {
		return nil
	}
	if h.CLen > 0 {
		body := b[h.Len:]
		if h.CLen != len(body) {
			return nil
		}
		if h.CType == "application/sdp" {
			ms, err := sdp.Parse(string(body))
			if err != nil {
				return nil
			}
			h.Msg.Payload = ms
		} else {
			h.Msg.Payload = &sip.MiscPayload{T: h.CType, D: body}
		}
	}
	return h.Msg
}
