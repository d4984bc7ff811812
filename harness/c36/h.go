// Package c36: a dialog ends cleanly whatever happens at the same time.
package c36

import (
	"errors"
	"os"
	"strconv"
	"syscall"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/zzv/dlg"
	"github.com/jart/gosip/zzv/net"
	"github.com/jart/gosip/zzv/v"
)

func bound() int {
	v.Bound("calls with 2 servers in each of 9 states, with and without loose signalling, whose application is busy while 2 (thorough and without loose signalling: 3) out of 12 things happen: messages on either socket, read errors, an ICMP refusal, local hangups, time; then every order in which the dialog can take notice of them. The same for 2 things under all interleavings of the goroutines at their communications with up to 1 (quick) or 2 (thorough) preemptions; at most 4 hangups while the application is busy")
	if v.Thorough() {
		return 3
	}
	return 2
}

var stranger = &net.UDPAddr{IP: net.ParseIP("203.0.113.77").To4(), Port: 5099}

// calls is a call in state k.
func call(k int, loose bool) (*dlg.Model, int) {
	dlg.Setup = func(m *dlg.Model) {
		if loose {
			m.Loosen()
		}
	}
	n := v.Goroutines()
	hungup = k == 4
	return dlg.Prefix(0, k), n
}

const kinds = 12

var cseq int

// asked has the socket each request arrived at. What a socket receives last
// before the call moves to another server may be lost.
var asked [16]*net.UDPConn

// happen lets something happen without waiting for its effect.
func happen(m *dlg.Model, k int) {
	s, c := m.Sock(), m.CSock()
	if s == nil {
		v.Skip()
	}
	from, _ := s.RemoteAddr().(*net.UDPAddr)
	cseq++
	req := func(method string) string {
		asked[cseq] = s
		if k == 9 {
			asked[cseq] = c
		}
		return dlg.Body(dlg.Request(method, 100+cseq, "Max-Forwards: 9\r\nContact: <sip:carol@203.0.113.5>\r\n"), "application/sdp", dlg.Media("203.0.113.9", "7"+strconv.Itoa(cseq)))
	}
	resp := func(status string) string {
		return dlg.Body(dlg.Response(m.Req, status, "Contact: <sip:bob@203.0.113.5:5080>\r\n"), "application/sdp", dlg.Media("203.0.113.9", "6"+strconv.Itoa(cseq)))
	}
	if (k == 9 || k == 10) && c == nil {
		v.Skip()
	}
	switch k {
	case 0:
		s.Inject([]byte(req("BYE")), from)
	case 1:
		s.Inject([]byte(req("INVITE")), from)
	case 2:
		s.Inject([]byte(resp("180")), from)
	case 3:
		s.Inject([]byte(resp("200")), from)
	case 4:
		s.Inject([]byte(resp("486")), from)
	case 5:
		s.Inject([]byte(resp("503")), from)
	case 6:
		s.InjectErr(os.NewSyscallError("read", syscall.ECONNREFUSED))
	case 7:
		s.InjectErr(errors.New("broken"))
	case 8:
		hangup(m)
	case 9:
		c.Inject([]byte(req("BYE")), stranger)
	case 10:
		c.InjectErr(errors.New("broken too"))
	case 11:
		s.Inject([]byte("SIP/2.0 302 Moved\r\nVia: SIP/2.0/UDP 192.0.2.1\r\n\r\n"), from)
		s.Inject([]byte(req("OPTIONS")), from)
	}
}

var hangups int

// hungup is set when that happened before.
var hungup bool

// hangup hangs up, as often as the channel has room for.
func hangup(m *dlg.Model) {
	if hangups++; hangups > 4 {
		v.Skip()
	}
	m.Dl.Hangup <- true
}

// check asserts that the call has ended properly or goes on.
func check(m *dlg.Model, idle int) (over bool) {
	ends, last := len(m.Errs), false
	for i, s := range m.States {
		if s == dialog.Hangup {
			ends++
			last = i == len(m.States)-1
		}
	}
	v.Assert(ends <= 1, "ended twice")
	if !m.Over {
		v.Assert(ends == 0, "reported an end but carries on")
		v.Assert(m.Sock() != nil, "carries on without a socket")
		return false
	}
	v.Assert(ends == 1, "ended without a report")
	n := len(m.Order)
	v.Assert(n > 0 && (m.Order[n-1] == 'e' || m.Order[n-1] == 's' && last), "something was reported after the end")
	v.Assert(m.Sock() == nil && m.CSock() == nil, "a socket is left")
	for _, c := range net.Conns {
		v.Assert(c.Closes == 1, "a socket was closed more than once")
	}
	v.Settle()
	v.Assert(v.Goroutines() == idle, "a goroutine is left")
	m.Take()
	m.Sleep(5 * m.Tick)
	v.Assert(len(m.Take()) == 0, "sent something after the end")
	v.Reach("ended")
	return true
}

// finish ends a call that goes on.
func finish(m *dlg.Model, idle int) {
	if check(m, idle) {
		return
	}
	v.Reach("goes on")
	answered, left, byes := 0, 0, 0
	for _, p := range m.Take() {
		switch {
		case p.Msg.IsResponse() && p.Msg.CSeq > 100 && p.Msg.CSeq <= 100+cseq:
			answered |= 1 << uint(p.Msg.CSeq-100)
		case p.Msg.Method == "CANCEL":
			left++
		case p.Msg.Method == "BYE":
			left++
			byes++
		}
	}
	for i, s := range asked {
		v.Assert(s == nil || s.Closed() || answered>>uint(i)&1 == 1, "a request was not answered")
	}
	v.Assert(hangups == 0 || left > 0, "a local hangup had no effect")
	for _, s := range m.States {
		if s == dialog.Answered && (hangups > 0 || hungup) {
			v.Assert(byes > 0, "the answer undid a local hangup")
			v.Reach("answered after the hangup")
		}
	}
	m.Inject(dlg.Body(dlg.Request("OPTIONS", 9999, "Max-Forwards: 9\r\n"), "", ""))
	n := 0
	for _, p := range m.Take() {
		if p.Msg.IsResponse() && p.Msg.CSeq == 9999 {
			n++
		}
	}
	v.Assert(n == 1 && !check(m, idle), "the dialog is stuck")
	m.Fail()
	v.Assert(check(m, idle), "a read error did not end the call")
}

// H_Busy: the application is busy with a report meanwhile.
func H_Busy() {
	n := bound()
	cseq, hangups, asked = 0, 0, [16]*net.UDPConn{}
	k, loose := v.Case(dlg.NPrefixes), v.Case(2) == 1
	if loose {
		n = 2
	}
	m, idle := call(k, loose)
	happen(m, []int{1, 2}[v.Case(2)])
	v.Settle() // the dialog now waits for the application
	for i := 0; i < n; i++ {
		k := v.Choose(kinds + 1)
		if k == kinds {
			v.Settle()
			hangup(m)
			hangup(m)
		} else {
			happen(m, k)
		}
	}
	if v.Choose(2) == 1 {
		m.World.Wait(m.Tick)
	}
	m.Poll()
	finish(m, idle)
}

// H_Interleaved: everything at once.
func H_Interleaved() {
	v.Preemptions(bound() - 1)
	cseq, hangups, asked = 0, 0, [16]*net.UDPConn{}
	m, idle := call(v.Case(dlg.NPrefixes), v.Case(2) == 1)
	v.Interleave(true)
	for i := 0; i < 2; i++ {
		happen(m, v.Choose(kinds))
	}
	m.Poll()
	v.Interleave(false)
	finish(m, idle)
}
