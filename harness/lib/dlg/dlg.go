// Package dlg runs a dialog against a scripted remote side and predicts what
// it should do.
package dlg

import (
	"errors"
	"flag"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
	rand "github.com/jart/gosip/zzv/crand"
	mrand "github.com/jart/gosip/zzv/mrand"
	"github.com/jart/gosip/zzv/net"
	"github.com/jart/gosip/zzv/v"
)

// Packet is a datagram the dialog sent.
type Packet struct {
	To  string
	Msg *sip.Msg
	Raw string
}

// OnSent looks at every message sent, soon after it was.
var OnSent func(m *sip.Msg)

// World is a running dialog with everything it reported and sent.
type World struct {
	Dl     *dialog.Dialog
	States []int
	Errs   []error
	Peers  []*net.UDPAddr
	Sent   []Packet
	// Order has one letter per report: s, e or p.
	Order string
	// Over is set once all report channels are closed.
	Over bool
	// Lenient permits sending incomplete messages in answer to such.
	Lenient bool
	// From sends to the open socket instead of the connected one.
	From             *net.UDPAddr
	errO, stO, peerO bool
	seen             map[*net.UDPConn]int
}

// Routes are the servers of example.com.
var Routes = []string{"198.51.100.1:5060", "198.51.100.2:5070", "198.51.100.3:5060"}

// Reset prepares the network; n servers are responsible for example.com.
func Reset(n int) {
	net.Reset()
	rand.Restart()
	mrand.Restart()
	Defaults()
	net.Hosts = map[string]string{"other.example": "203.0.113.5"}
	var l []*net.SRV
	for i := 0; i < n; i++ {
		h, p, _ := net.SplitHostPort(Routes[i])
		q, _ := strconv.Atoi(p)
		l = append(l, &net.SRV{Target: h, Port: uint16(q)})
	}
	net.SRVs = map[string][]*net.SRV{"example.com": l}
}

// Set changes a command line setting.
func Set(name, value string) {
	if err := flag.Set(name, value); err != nil {
		v.Assert(false, "no setting "+name)
	}
}

// Defaults sets all settings to what they are without a command line.
func Defaults() {
	Set("looseSignalling", "false")
	Set("resendInterval", "400")
	Set("maxResends", "2")
	Set("trace", "false")
	Set("timestampTagging", "false")
}

// Invite is the request of a call to bob.
func Invite() *sip.Msg {
	uri := &sip.URI{Scheme: "sip", User: "bob", Host: "example.com"}
	return &sip.Msg{
		Method: sip.MethodInvite, Request: uri, CallID: "call", CSeq: 100,
		To:   &sip.Addr{Uri: uri},
		From: &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "alice", Host: "192.0.2.1"}, Param: &sip.Param{Name: "tag", Value: "alicetag"}},
		Payload: &sdp.SDP{Origin: sdp.Origin{ID: "1"}, Session: "s", Time: "0 0",
			Audio: &sdp.Media{Proto: "RTP/AVP", Port: 4000, Codecs: []sdp.Codec{sdp.ULAWCodec}}},
	}
}

// Start starts a dialog and waits until it is idle.
func Start(invite *sip.Msg) *World {
	w := &World{seen: map[*net.UDPConn]int{}}
	dl, err := dialog.NewDialog(invite)
	v.Assert(err == nil && dl != nil, "dialog not created")
	w.Dl = dl
	w.Poll()
	return w
}

// Poll collects reports and packets until the dialog is idle.
func (w *World) Poll() {
	for {
		v.Settle()
		w.collect()
		idle := false
		if !w.stO {
			select {
			case s, ok := <-w.Dl.OnState:
				if ok {
					w.States, w.Order = append(w.States, s), w.Order+"s"
				} else {
					w.stO = true
				}
				continue
			default:
			}
		}
		if !w.errO {
			select {
			case e, ok := <-w.Dl.OnErr:
				if ok {
					v.Assert(e != nil, "a nil error was reported")
					w.Errs, w.Order = append(w.Errs, e), w.Order+"e"
				} else {
					w.errO = true
				}
				continue
			default:
			}
		}
		if !w.peerO {
			select {
			case p, ok := <-w.Dl.OnPeer:
				if ok {
					v.Assert(p != nil, "a nil media address was reported")
					w.Peers, w.Order = append(w.Peers, p), w.Order+"p"
				} else {
					w.peerO = true
				}
				continue
			default:
			}
		}
		idle = true
		if idle {
			break
		}
	}
	w.Over = w.errO && w.stO && w.peerO
}

// Lose lets the next writes fail because of an ICMP refusal of something sent
// before. What should have been written is lost, which is noted like any packet.
func (w *World) Lose(n int) {
	net.OnWrite = func(c *net.UDPConn, p net.Packet) error {
		if n == 0 {
			return nil
		}
		n--
		w.collect()
		w.note(p)
		return os.NewSyscallError("write", syscall.ECONNREFUSED)
	}
}

// Break lets the next write fail for another reason.
func (w *World) Break() (broke func() bool) {
	hit := false
	net.OnWrite = func(c *net.UDPConn, p net.Packet) error {
		v.Assert(!hit, "wrote again after that failed")
		hit = true
		return os.NewSyscallError("write", syscall.ENETUNREACH)
	}
	return func() bool { return hit }
}

func (w *World) collect() {
	for _, c := range net.Conns {
		for ; w.seen[c] < len(c.Sent); w.seen[c]++ {
			w.note(c.Sent[w.seen[c]])
		}
	}
}

func (w *World) note(p net.Packet) {
	m, err := sip.ParseMsg(p.Data)
	if err != nil && w.Lenient {
		return
	}
	v.Assert(err == nil && m != nil, "the dialog sent something that is no SIP message")
	if OnSent != nil && m != nil {
		OnSent(m)
	}
	to := ""
	if p.Addr != nil {
		to = p.Addr.String()
	}
	w.Sent = append(w.Sent, Packet{to, m, string(p.Data)})
}

// Take removes and returns the packets sent so far.
func (w *World) Take() []Packet {
	p := w.Sent
	w.Sent = nil
	return p
}

// Sock is the connected socket in use, nil if all are closed.
func (w *World) Sock() *net.UDPConn {
	var s *net.UDPConn
	for _, c := range net.Conns {
		if !c.Closed() && c.RemoteAddr() != nil {
			s = c
		}
	}
	return s
}

// CSock is the socket anyone may send to, nil if there is none.
func (w *World) CSock() *net.UDPConn {
	var s *net.UDPConn
	for _, c := range net.Conns {
		if !c.Closed() && c.RemoteAddr() == nil {
			s = c
		}
	}
	return s
}

// Inject lets a text arrive.
func (w *World) Inject(text string) {
	s := w.Sock()
	if s == nil {
		return
	}
	a, _ := s.RemoteAddr().(*net.UDPAddr)
	if w.From != nil {
		if c := w.CSock(); c != nil {
			s, a = c, w.From
		}
	}
	s.Inject([]byte(text), a)
	w.Poll()
}

// Refuse lets an ICMP refusal arrive.
func (w *World) Refuse() {
	if s := w.Sock(); s != nil {
		s.InjectErr(os.NewSyscallError("read", syscall.ECONNREFUSED))
		w.Poll()
	}
}

// Fail lets reading fail for another reason.
func (w *World) Fail() {
	if s := w.Sock(); s != nil {
		s.InjectErr(errors.New("broken"))
		w.Poll()
	}
}

// Hangup hangs up locally.
func (w *World) Hangup() {
	w.Dl.Hangup <- true
	w.Poll()
}

// Sleep lets time pass.
func (w *World) Sleep(d time.Duration) {
	time.Sleep(d)
	w.Poll()
}

// MediaHost is where media is unless said otherwise.
const MediaHost = "203.0.113.9"

// Media is a description with audio at the address.
func Media(host, port string) string {
	if host == "" {
		host = MediaHost
	}
	family := "IP4"
	if strings.Contains(host, ":") {
		family = "IP6"
	}
	return "v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\nc=IN " + family + " " + host + "\r\nt=0 0\r\nm=audio " + port + " RTP/AVP 0\r\n"
}

// Video is a description without audio.
const Video = "v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=-\r\nc=IN IP4 1.2.3.4\r\nt=0 0\r\nm=video 9 RTP/AVP 34\r\n"

// Body adds a payload to a text of headers.
func Body(head, ctype, body string) string {
	if ctype == "" {
		return head + "Content-Length: 0\r\n\r\n"
	}
	return head + "Content-Type: " + ctype + "\r\nContent-Length: " + strconv.Itoa(len(body)) + "\r\n\r\n" + body
}

// Response is the head of a response to req.
func Response(req *sip.Msg, status string, extra ...string) string {
	s := "SIP/2.0 " + status + " Phrase\r\n"
	b := ""
	if p := req.Via.Param.Get("branch"); p != nil {
		b = ";branch=" + p.Value
	}
	s += "Via: SIP/2.0/UDP " + req.Via.Host + ":" + strconv.Itoa(int(req.Via.Port)) + b + "\r\n"
	s += "From: <sip:alice@192.0.2.1>;tag=alicetag\r\nTo: <sip:bob@example.com>;tag=bobtag\r\nCall-ID: " + req.CallID + "\r\n"
	s += "CSeq: " + strconv.Itoa(req.CSeq) + " " + req.CSeqMethod + "\r\n"
	return s + strings.Join(extra, "")
}

// Request is the head of a request of the remote side.
func Request(method string, cseq int, extra ...string) string {
	return method + " sip:alice@192.0.2.1 SIP/2.0\r\nVia: SIP/2.0/UDP 198.51.100.1:5060;branch=z9hG4bKr\r\n" +
		"From: <sip:bob@example.com>;tag=bobtag\r\nTo: <sip:alice@192.0.2.1>;tag=alicetag\r\nCall-ID: call\r\n" +
		"CSeq: " + strconv.Itoa(cseq) + " " + method + "\r\n" + strings.Join(extra, "")
}

// Wait lets time pass without taking notice of anything.
func (w *World) Wait(d time.Duration) { time.Sleep(d) }
