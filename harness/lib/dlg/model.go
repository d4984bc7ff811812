package dlg

import (
	"errors"
	"strconv"
	"strings"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zzv/net"
	"github.com/jart/gosip/zzv/v"
)

// Aspects of a call a Model asserts.
const (
	Reports  = 1 << iota // C29
	Replies              // C30
	Requests             // C31
)

// Phases of a call.
const (
	Calling = iota
	Proceeding
	Ringing
	Answered
	Over
)

// Model predicts what a dialog reports and sends.
type Model struct {
	*World
	Aspect int
	// Sends is how often a request is sent to one server: 1 + maxResends.
	Sends int
	// Tick is the time between transmissions.
	Tick time.Duration
	// Fine looks shortly before the end of that time as well.
	Fine bool
	// Loose is set with loose signalling.
	Loose bool

	Phase  int
	Bye    bool     // the outstanding request is a BYE
	Req    *sip.Msg // as it was sent last
	Branch string
	Dest   string   // where everything is sent
	routes []string // not tried yet
	sends  int
	timer  bool
	rseq   int
	local  int    // last CSeq of ours
	target string // request URI of the next request
	moved  string // Contact of the last re-INVITE
	respRe *sip.Msg
	resp   int // transmissions of the 200 to a re-INVITE, 0 if none is pending

	// when the events armed the timers of the request and the 200
	clock, timerAt, respAt int

	// expected of this step
	states   []int
	peers    []*net.UDPAddr
	fails    int // error with any status: -1, none: 0
	sent     []Expect
	branch   map[string]bool
	first    map[string]*sip.Msg // INVITE and BYE as they were sent first
	Hops     int                 // hop limit of the requests sent
	Host     string              // we say we're there, the socket's address if empty
	Moves    bool                // our address may change
	Keep     bool                // what was reported
	canceled bool                // hung up before the answer
	Stamps   bool                // there are time stamps in Via
	raw      string              // the request sent last
	dead     map[string]bool     // can't be dialled
	Route    string              // header of the INVITE
}

// Expect is a packet the dialog should send.
type Expect struct {
	Kind   string // INVITE, BYE, ACK, CANCEL or a status
	Status int
	To     string
	Re     *sip.Msg // what it answers or acknowledges
	Retry  bool     // is a retransmission
	URI    string
	CSeq   int
}

// Setup changes the settings of the calls that New starts.
var Setup func(m *Model)

// New starts a call; servers says which routes example.com has.
func New(aspect, servers int) *Model {
	Reset(servers)
	m := &Model{Aspect: aspect, Sends: 3, Tick: 400 * time.Millisecond, branch: map[string]bool{}, first: map[string]*sip.Msg{}, Hops: 69}
	m.routes = append(m.routes, Routes[:servers]...)
	if Setup != nil {
		Setup(m)
	}
	return m
}

// Retry sets how often requests are repeated and when.
func (m *Model) Retry(resends, interval int) {
	Set("maxResends", strconv.Itoa(resends))
	Set("resendInterval", strconv.Itoa(interval))
	m.Sends, m.Tick = 1+resends, time.Duration(interval)*time.Millisecond
}

// Loosen permits messages from anyone.
func (m *Model) Loosen() {
	Set("looseSignalling", "true")
	m.Loose = true
}

// Begin sends the INVITE.
func (m *Model) Begin(invite *sip.Msg) {
	m.start(invite, invite.Request.String())
}

func (m *Model) start(invite *sip.Msg, target string) {
	m.local = invite.CSeq
	m.target = target
	m.next()
	m.World = Start(invite)
	m.verify()
}

// Via sends the INVITE through proxies that are reached like the first one's
// address.
func (m *Model) Via(invite *sip.Msg, proxies []string) {
	var l *sip.Addr
	for i := len(proxies) - 1; i >= 0; i-- {
		u, err := sip.ParseURI([]byte(proxies[i]))
		v.Assert(err == nil, "proxy")
		l = &sip.Addr{Uri: u, Next: l}
	}
	invite.Route = l
	target := invite.Request.String()
	if strings.HasSuffix(proxies[0], ";lr") { // a loose router
		m.Route = l.String()
	} else {
		l = l.Copy()
		l.Last().Next = &sip.Addr{Uri: invite.Request}
		m.Route, target = l.Next.String(), proxies[0]
	}
	if !strings.Contains(proxies[0], "example.com") {
		m.routes = servers(proxies[0])
	}
	m.start(invite, target)
}

// next predicts a move to the next server.
func (m *Model) next() {
	for len(m.routes) > 0 {
		r := m.routes[0]
		m.routes = m.routes[1:]
		if m.dead[r] {
			continue
		}
		m.Dest, m.sends, m.timer, m.timerAt = r, 1, true, m.clock
		if !m.Bye {
			m.Phase, m.rseq = Calling, 0
		}
		m.request(false)
		return
	}
	m.fail(-1)
}

func (m *Model) request(retry bool) {
	k, c := "INVITE", m.local
	if m.Bye {
		k = "BYE"
	}
	m.sent = append(m.sent, Expect{Kind: k, To: m.Dest, Retry: retry, URI: m.target, CSeq: c})
}

func (m *Model) fail(status int) {
	m.fails = status
	m.Phase = Over
}

func (m *Model) state(s int) { m.states = append(m.states, s) }

func (m *Model) reply(req *sip.Msg, status int) {
	m.sent = append(m.sent, Expect{Kind: "response", Status: status, To: m.Dest, Re: req})
}

// verify compares what happened with what was predicted.
func (m *Model) verify() {
	w := m.World
	got := w.Take()
	if m.Aspect&Reports != 0 {
		v.Assert(len(w.States) == len(m.states), "number of state reports")
		for i := range m.states {
			if i < len(w.States) {
				v.Assert(w.States[i] == m.states[i], "state reported")
			}
		}
		v.Assert(len(w.Peers) == len(m.peers), "number of media addresses reported")
		for i := range m.peers {
			if i < len(w.Peers) {
				v.Assert(w.Peers[i].Port == m.peers[i].Port && w.Peers[i].IP.Equal(m.peers[i].IP), "media address reported")
			}
		}
		if m.fails == 0 {
			v.Assert(len(w.Errs) == 0, "error reported for nothing")
		} else {
			v.Assert(len(w.Errs) == 1, "number of errors reported")
			if len(w.Errs) > 0 {
				r, is := w.Errs[0].(*sip.ResponseError)
				if m.fails > 0 {
					v.Assert(is, "failure response not reported")
					if is {
						v.Assert(r.Msg != nil && r.Msg.Status == m.fails && r.Msg.CallID == "call", "another response reported")
					}
				}
			}
		}
		if m.Phase == Over {
			n := len(w.Order)
			v.Assert(n > 0 && (w.Order[n-1] == 'e' || w.Order[n-1] == 's'), "no final report")
			v.Assert(w.Over, "channels left open after the end")
			v.Assert(w.Sock() == nil && w.CSock() == nil, "socket left open after the end")
		} else {
			v.Assert(!w.Over && !w.errO && !w.stO && !w.peerO, "channel closed during the call")
			open := 0
			for _, c := range net.Conns {
				if !c.Closed() {
					open++
				}
			}
			want := 1
			if m.Loose {
				want = 2
			}
			v.Assert(open == want, "number of open sockets during the call")
		}
	}
	if m.Phase == Over {
		v.Reach("over")
	}
	// packets
	match := func(kinds string, aspect int) {
		if m.Aspect&aspect == 0 {
			return
		}
		var g []Packet
		for _, p := range got {
			k := "response"
			if !p.Msg.IsResponse() {
				k = p.Msg.Method
			}
			if strings.Contains(kinds, k) {
				g = append(g, p)
			}
		}
		var e []Expect
		for _, x := range m.sent {
			if strings.Contains(kinds, x.Kind) {
				e = append(e, x)
			}
		}
		v.Assert(len(g) == len(e), "number of messages sent of "+kinds)
		for i := range e {
			if i < len(g) {
				m.packet(e[i], g[i])
			}
		}
	}
	match("response ACK CANCEL", Replies)
	match("INVITE BYE", Requests)
	if m.Aspect&Requests == 0 && m.Aspect&Replies != 0 {
		// the first BYE belongs to the replies too
		n, k := 0, 0
		for _, x := range m.sent {
			if x.Kind == "BYE" && !x.Retry {
				n++
			}
		}
		for _, p := range got {
			if p.Msg.Method == "BYE" {
				k++
				if n > 0 {
					v.Assert(p.To == m.Dest, "destination of the BYE")
					v.Assert(p.Msg.CSeq == m.local && p.Msg.CSeqMethod == "BYE" && p.Msg.CallID == "call", "BYE of another call")
					v.Assert(p.Msg.Request.String() == m.target, "request URI of the BYE")
					v.Assert(p.Msg.To.Param.Get("tag") != nil && p.Msg.To.Param.Get("tag").Value == "bobtag", "To of the BYE")
					v.Assert(p.Msg.From.Param.Get("tag") != nil && p.Msg.From.Param.Get("tag").Value == "alicetag", "From of the BYE")
				}
			}
		}
		v.Assert(n == 0 || k >= n, "BYE missing")
		for _, x := range m.sent {
			if x.Kind == "BYE" {
				n = -1
			}
		}
		v.Assert(n != 0 || k == 0, "BYE for nothing")
	}
	for _, p := range got {
		if !p.Msg.IsResponse() && (p.Msg.Method == "INVITE" || p.Msg.Method == "BYE") {
			m.Req, m.raw = p.Msg, p.Raw
			if b := p.Msg.Via.Param.Get("branch"); b != nil {
				m.Branch = b.Value
				m.branch[b.Value] = true
			}
		}
	}
	if !m.Keep {
		w.States, w.Errs, w.Peers, w.Order = nil, nil, nil, ""
	}
	m.states, m.peers, m.fails, m.sent = nil, nil, 0, nil
}

// packet compares one packet.
func (m *Model) packet(x Expect, p Packet) {
	g := p.Msg
	v.Assert(p.To == x.To, "destination of "+x.Kind)
	v.Assert(g.VersionMajor == 2 && g.VersionMinor == 0 && g.CallID == "call" || x.Kind == "response", "Call-ID of "+x.Kind)
	v.Assert(g.Via != nil, "Via of "+x.Kind)
	branch := ""
	if b := g.Via.Param.Get("branch"); b != nil {
		branch = b.Value
	}
	switch x.Kind {
	case "response":
		v.Assert(g.Status == x.Status, "status of the response")
		v.Assert(g.CallID == x.Re.CallID && g.CSeq == x.Re.CSeq && g.CSeqMethod == x.Re.CSeqMethod, "response to another request")
		v.Assert(branch == "z9hG4bKr" && g.Via.Host == "198.51.100.1" && g.Via.Next == nil, "Via of the response")
		v.Assert(g.From != nil && g.To != nil && g.From.String() == x.Re.From.String() && g.To.String() == x.Re.To.String(), "From or To of the response")
	case "ACK":
		v.Assert(g.CSeq == x.Re.CSeq && g.CSeqMethod == "ACK", "CSeq of the ACK")
		v.Assert(g.From != nil && g.To != nil && g.From.String() == x.Re.From.String() && g.To.String() == x.Re.To.String(), "From or To of the ACK")
		v.Assert(g.Request != nil && g.Request.String() == x.URI, "request URI of the ACK")
		v.Assert(x.Status == 200 || g.Route.String() == m.Req.Route.String(), "Route of the ACK")
	case "CANCEL":
		v.Assert(g.CSeq == m.Req.CSeq && g.CSeqMethod == "CANCEL", "CSeq of the CANCEL")
		v.Assert(branch == m.Branch, "branch of the CANCEL")
		v.Assert(g.Request != nil && g.Request.String() == m.Req.Request.String(), "request URI of the CANCEL")
		v.Assert(g.From.String() == m.Req.From.String() && g.To.String() == m.Req.To.String(), "From or To of the CANCEL")
		v.Assert(g.Route.String() == m.Req.Route.String(), "Route of the CANCEL")
	default:
		v.Assert(g.CSeq == x.CSeq && g.CSeqMethod == x.Kind, "CSeq of "+x.Kind)
		v.Assert(g.Request != nil && g.Request.String() == x.URI, "request URI of "+x.Kind)
		v.Assert(len(branch) > 7 && branch[:7] == "z9hG4bK", "branch without the cookie")
		v.Assert(x.Kind == "BYE" || g.Route.String() == m.Route, "Route of the INVITE")
		m.same(x.Kind, g)
		if x.Retry {
			v.Assert(branch == m.Branch, "retransmission with another branch")
			v.Assert(p.Raw == m.raw || m.Stamps, "retransmission of another message")
		} else {
			v.Assert(!m.branch[branch], "a new attempt with an old branch")
		}
		s := m.Sock()
		if s != nil {
			port, host := s.LocalAddr().(*net.UDPAddr).Port, s.LocalAddr().(*net.UDPAddr).IP.String()
			via, contact := host, host
			if m.Host != "" && !m.Bye {
				via, contact = m.Host, m.Host
			}
			v.Assert(g.Via.Host == via && int(g.Via.Port) == port, "Via does not name our socket")
			if m.Loose {
				c := m.CSock()
				v.Assert(c != nil, "no open socket")
				if c == nil {
					return
				}
				port = c.LocalAddr().(*net.UDPAddr).Port
			}
			v.Assert(g.Contact != nil && g.Contact.Uri.Host == contact && int(g.Contact.Uri.Port) == port, "Contact does not name our socket")
		}
	}
}

// same compares a request to the first of its kind.
func (m *Model) same(kind string, g *sip.Msg) {
	hops := m.Hops
	if kind == "BYE" {
		hops = 69
	}
	v.Assert(g.MaxForwards == hops, "hop limit of "+kind)
	f := m.first[kind]
	if f == nil {
		m.first[kind] = g
		return
	}
	v.Assert(g.From.String() == f.From.String() && g.To.String() == f.To.String(), "From or To of a later "+kind)
	v.Assert(g.UserAgent == f.UserAgent && g.Subject == f.Subject && g.XHeader.String() == f.XHeader.String(), "headers of a later "+kind)
	v.Assert((g.Payload == nil) == (f.Payload == nil), "payload of a later "+kind)
	if g.Payload != nil && f.Payload != nil && !m.Moves {
		v.Assert(g.Payload.ContentType() == f.Payload.ContentType() && string(g.Payload.Data()) == string(f.Payload.Data()), "payload of a later "+kind)
	}
}

// ---- events ----

// Answer is a response the remote side sends.
type Answer struct {
	Status    string // three digits
	Code      int
	Method    string // CSeq method, that of the request if empty
	CSeq      string // number, that of the request if empty
	Branch    string // that of the request if empty
	CallID    string
	Contact   string // URI, none if empty
	Route     string // Record-Route header, none if empty
	Media     int    // port of the media, none if 0
	MediaHost string // its host, 203.0.113.9 if empty
	MediaText string // the same as text
	Video     bool
}

// Respond lets a response arrive.
func (m *Model) Respond(a Answer) {
	if m.Phase == Over {
		return
	}
	m.tick()
	req := m.Req
	via := "Via: SIP/2.0/UDP " + req.Via.Host + ":" + strconv.Itoa(int(req.Via.Port)) + ";branch="
	match := true
	if a.Branch == "" {
		via += m.Branch
	} else {
		via += a.Branch
		match = false
	}
	id := a.CallID
	if id == "" {
		id = "call"
	} else {
		match = false
	}
	method := a.Method
	if method == "" {
		method = req.CSeqMethod
	}
	match = match && method == req.CSeqMethod
	cseq := a.CSeq
	if cseq == "" {
		cseq = strconv.Itoa(req.CSeq)
	} else {
		n := 0
		for i := 0; i < len(cseq); i++ {
			n = n*10 + int(cseq[i]-'0')
		}
		match = match && n == req.CSeq
	}
	s := "SIP/2.0 " + a.Status + " Phrase\r\n" + via + "\r\n" +
		"From: <sip:alice@192.0.2.1>;tag=alicetag\r\nTo: <sip:bob@example.com>;tag=bobtag\r\nCall-ID: " + id + "\r\nCSeq: " + cseq + " " + method + "\r\n"
	if a.Contact != "" {
		s += "Contact: <" + a.Contact + ">\r\n"
	}
	s += a.Route
	ctype, body := "", ""
	if a.Media > 0 {
		t := a.MediaText
		if t == "" {
			t = strconv.Itoa(a.Media)
		}
		ctype, body = "application/sdp", Media(a.MediaHost, t)
	} else if a.Video {
		ctype, body = "application/sdp", Video
	}
	s = Body(s, ctype, body)
	if a.Code == 0 {
		a.Code, _ = strconv.Atoi(a.Status)
	}
	if match {
		v.Reach("matching response")
		m.respond(a)
	} else {
		v.Reach("stray response")
	}
	m.Inject(s)
	m.verify()
}

func (m *Model) media(port int, host string) {
	if port == 0 {
		return
	}
	if host == "" {
		host = MediaHost
	}
	ip := net.ParseIP(host)
	if ip == nil {
		ip = net.ParseIP(net.Hosts[host])
	}
	if ip != nil { // nothing can be sent to a host that is unknown
		m.peers = append(m.peers, &net.UDPAddr{IP: ip, Port: port})
	}
}

func (m *Model) respond(a Answer) {
	m.timer = false
	if a.Code < 200 {
		if m.Phase == Answered {
			return
		}
		m.media(a.Media, a.MediaHost)
		switch {
		case a.Code == 100:
			m.Phase = Proceeding
			m.state(dialog.Proceeding)
		case a.Code == 180 || a.Code == 183:
			m.Phase = Ringing
			m.state(dialog.Ringing)
		case m.Phase == Calling:
			m.Phase = Proceeding
			m.state(dialog.Proceeding)
		}
		return
	}
	if m.Bye {
		if a.Code == 200 {
			m.media(a.Media, a.MediaHost)
			m.state(dialog.Hangup)
			m.Phase = Over
		} else {
			m.fail(a.Code)
		}
		return
	}
	ack := Expect{Kind: "ACK", To: m.Dest, URI: a.Contact, Re: &sip.Msg{CSeq: m.Req.CSeq,
		From: address("sip:alice@192.0.2.1", "alicetag"), To: address("sip:bob@example.com", "bobtag")}}
	if a.Code >= 300 {
		ack.URI = m.Req.Request.String()
	} else if ack.Status = 200; a.Contact == "" {
		m.fail(-1)
		return
	}
	m.sent = append(m.sent, ack)
	if m.Phase == Answered && a.Code > 200 {
		return
	}
	switch {
	case a.Code == 200:
		m.routes = nil
		m.media(a.Media, a.MediaHost)
		if m.Phase != Answered {
			m.state(dialog.Answered)
		}
		m.Phase = Answered
		m.target, m.moved = a.Contact, ""
		if m.canceled {
			m.canceled = false
			m.bye()
		}
	case a.Code == 503:
		m.next()
	case (a.Code == 301 || a.Code == 302) && a.Contact != "" && !m.canceled:
		m.redirect(a.Contact)
	default:
		m.fail(a.Code)
	}
}

func address(uri, tag string) *sip.Addr {
	u, err := sip.ParseURI([]byte(uri))
	v.Assert(err == nil, "address")
	return &sip.Addr{Uri: u, Param: &sip.Param{Name: "tag", Value: tag}}
}

// servers are the servers a URI leads to.
func servers(uri string) []string {
	switch {
	case strings.Contains(uri, "203.0.113.5:5080"):
		return []string{"203.0.113.5:5080"}
	case strings.Contains(uri, "203.0.113.5"):
		return []string{"203.0.113.5:5060"}
	case strings.Contains(uri, "other.example"):
		return []string{"203.0.113.5:5060"}
	case strings.Contains(uri, "198.51.100.1"):
		return []string{"198.51.100.1:5060"}
	}
	return nil
}

func (m *Model) redirect(uri string) {
	m.target, m.Route = uri, ""
	m.routes = servers(uri)
	m.next()
}

// Ask is a request the remote side sends.
type Ask struct {
	Method    string
	CSeq      int // number
	Digits    string
	CallID    string
	Max       string // Max-Forwards, 70 if empty, absent if "-"
	Contact   string
	Media     int
	MediaHost string
	MediaText string // the same as text
	Video     bool
}

// Request lets a request arrive.
func (m *Model) Request(a Ask) {
	if m.Phase == Over {
		return
	}
	m.tick()
	id := a.CallID
	if id == "" {
		id = "call"
	}
	s := a.Method + " sip:alice@192.0.2.1 SIP/2.0\r\nVia: SIP/2.0/UDP 198.51.100.1:5060;branch=z9hG4bKr\r\n" +
		"From: <sip:bob@example.com>;tag=bobtag\r\nTo: <sip:alice@192.0.2.1>;tag=alicetag\r\nCall-ID: " + id + "\r\n" +
		"CSeq: " + a.Digits + " " + a.Method + "\r\n"
	switch a.Max {
	case "":
		s += "Max-Forwards: 70\r\n"
	case "-":
	default:
		s += "Max-Forwards: " + a.Max + "\r\n"
	}
	if a.Contact != "" {
		s += "Contact: <" + a.Contact + ">\r\n"
	}
	ctype, body := "", ""
	if a.Media > 0 {
		t := a.MediaText
		if t == "" {
			t = strconv.Itoa(a.Media)
		}
		ctype, body = "application/sdp", Media(a.MediaHost, t)
	} else if a.Video {
		ctype, body = "application/sdp", Video
	}
	s = Body(s, ctype, body)
	re := &sip.Msg{CallID: id, CSeq: a.CSeq, CSeqMethod: a.Method, From: address("sip:bob@example.com", "bobtag"), To: address("sip:alice@192.0.2.1", "alicetag")}
	m.ask(a, re)
	m.Inject(s)
	m.verify()
}

func (m *Model) ask(a Ask, re *sip.Msg) {
	if a.CallID != "" {
		if a.Method != "ACK" {
			m.reply(re, 481)
		}
		return
	}
	if a.Method == "ACK" {
		if m.resp > 0 && a.CSeq == m.respRe.CSeq {
			m.resp = 0
		}
		return
	}
	if a.Max == "0" || a.Max == "-" {
		m.reply(re, 483)
		m.fail(-1)
		return
	}
	if m.rseq != 0 && a.CSeq < m.rseq {
		m.reply(re, 500)
		v.Reach("out of order")
		return
	}
	m.rseq = a.CSeq
	switch a.Method {
	case "BYE":
		m.reply(re, 200)
		m.state(dialog.Hangup)
		m.Phase = Over
	case "OPTIONS":
		m.reply(re, 200)
	case "INVITE":
		m.media(a.Media, a.MediaHost)
		m.reply(re, 200)
		m.resp, m.respAt = 1, m.clock
		m.respRe = re
		if m.Phase == Answered && a.Contact != "" {
			m.moved = a.Contact
		}
	default:
		m.reply(re, 405)
	}
}

// Time lets the time between two transmissions pass.
func (m *Model) Time() {
	if m.Phase == Over {
		return
	}
	rest := m.Tick
	if m.Fine {
		rest = m.Tick / 10
		m.Sleep(m.Tick - rest)
		m.verify()
	}
	now := m.clock
	if m.timer && m.resp > 0 && m.respAt < m.timerAt {
		m.repeatAnswer()
		m.repeat()
	} else {
		m.repeat()
		m.repeatAnswer()
	}
	m.clock = now
	m.Sleep(rest)
	m.verify()
}

func (m *Model) repeat() {
	if m.timer && m.Phase != Over {
		if m.sends < m.Sends {
			m.sends++
			m.request(true)
		} else {
			m.clock = m.timerAt
			m.next()
		}
	}
}

func (m *Model) repeatAnswer() {
	if m.resp > 0 && m.Phase != Over {
		if m.resp < m.Sends {
			m.resp++
			m.reply(m.respRe, 200)
		} else {
			m.resp = 0 // never acknowledged
			if m.Phase == Answered && !m.Bye {
				m.clock = m.respAt
				m.bye()
			}
		}
	}
}

// tick separates events in time, so that no two timers end at once.
func (m *Model) tick() {
	m.clock++
	m.Sleep(time.Microsecond)
}

// HangUp hangs up.
func (m *Model) HangUp() {
	if m.Phase == Over {
		return
	}
	m.tick()
	switch m.Phase {
	case Calling:
		m.state(dialog.Hangup)
		m.Phase = Over
	case Proceeding, Ringing:
		m.canceled, m.routes = true, nil
		m.sent = append(m.sent, Expect{Kind: "CANCEL", To: m.Dest})
	case Answered:
		m.bye()
	}
	m.Hangup()
	m.verify()
}

func (m *Model) bye() {
	m.Bye = true
	if m.moved != "" {
		m.target = m.moved
	}
	m.local++
	m.routes = servers(m.target)
	m.next()
}

// Refused lets an ICMP refusal arrive.
func (m *Model) Refused() {
	if m.Phase == Over {
		return
	}
	m.tick()
	m.next()
	m.Refuse()
	m.verify()
}

// Broken lets reading fail.
func (m *Model) Broken() {
	if m.Phase == Over {
		return
	}
	m.fail(-1)
	m.Fail()
	m.verify()
}

// BrokenLoose lets reading from the open socket fail.
func (m *Model) BrokenLoose() {
	if m.Phase == Over {
		return
	}
	m.fail(-1)
	if c := m.CSock(); c != nil {
		c.InjectErr(errors.New("broken"))
		m.Poll()
	}
	m.verify()
}

// After asserts that nothing happens any more.
func (m *Model) After() {
	if m.Phase != Over {
		return
	}
	m.Dl.Hangup <- true
	m.Sleep(5 * m.Tick)
	v.Assert(len(m.Sent) == 0, "sent something after the end")
	v.Assert(m.Over && m.Order == "" && m.Sock() == nil && m.CSock() == nil, "reported something after the end")
}

// Waiting tells whether a request waits for its answer.
func (m *Model) Waiting() bool { return m.timer && m.Phase != Over }

// Die makes some of the servers impossible to dial.
func (m *Model) Die(set int) {
	m.dead = map[string]bool{}
	for i, r := range Routes {
		if set>>uint(i)&1 == 1 {
			m.dead[r] = true
		}
	}
	dead := m.dead
	net.DialErr = func(addr string) error {
		if dead[addr] {
			return errors.New("no route to host")
		}
		return nil
	}
}

// Track notes the request sent last.
func (m *Model) Track(req *sip.Msg) {
	m.Req = req
	if b := req.Via.Param.Get("branch"); b != nil {
		m.Branch = b.Value
	}
}
