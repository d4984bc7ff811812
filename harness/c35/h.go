// Package c35: with loose signalling anyone may send to the dialog.
package c35

import (
	"errors"
	"os"
	"syscall"

	"github.com/jart/gosip/zzv/dlg"
	"github.com/jart/gosip/zzv/net"
	"github.com/jart/gosip/zzv/v"
)

func bound() int {
	v.Bound("with loose signalling: calls with 2 servers, brought into each of 9 states, then every sequence of 1 (quick) or 2 (thorough) out of 24 kinds of events, messages sent by a server or by anyone else to the open socket, or a read error there; listening fails for 0..10 ports in use or for another reason at any attempt; events one at a time")
	if v.Thorough() {
		return 2
	}
	return 1
}

var stranger = &net.UDPAddr{IP: net.ParseIP("203.0.113.77").To4(), Port: 5099}

func loose(m *dlg.Model) { m.Loosen() }

// opened is the number of sockets anyone could send to.
func opened() int {
	n := 0
	for _, c := range net.Conns {
		if c.RemoteAddr() == nil {
			n++
		}
	}
	return n
}

// H_Events: the call goes on as without it, whoever sends.
func H_Events() {
	n := bound()
	dlg.Setup = loose
	dlg.Few = false
	m := dlg.Prefix(dlg.Reports|dlg.Replies|dlg.Requests, v.Case(dlg.NPrefixes))
	for i := 0; i < n; i++ {
		if v.Choose(2) == 1 {
			m.From = stranger
		} else {
			m.From = nil
		}
		dlg.Few = i > 0 || m.From != nil
		k := 0
		if i == 0 {
			k = v.Case(dlg.NEvents + 1)
		} else {
			k = v.Choose(dlg.NEvents + 1)
		}
		if k == dlg.NEvents {
			m.BrokenLoose()
			continue
		}
		if m.From != nil && k >= 19 && k <= 22 {
			v.Skip()
		}
		m.Event(k)
	}
	v.Assert(opened() == 1, "more than one open socket")
	if m.Phase != dlg.Over {
		m.From = stranger
		m.Request(dlg.Ask{Method: "OPTIONS", Digits: "200", CSeq: 200})
		m.From = nil
		m.HangUp()
	}
	m.After()
}

// H_Busy: some ports are in use.
func H_Busy() {
	bound()
	n := v.Case(10)
	dlg.Setup = loose
	m := dlg.New(dlg.Reports|dlg.Replies|dlg.Requests, 2)
	k := 0
	net.ListenErr = func(addr string) error {
		if k++; k <= n {
			return os.NewSyscallError("bind", syscall.EADDRINUSE)
		}
		return nil
	}
	m.Begin(dlg.Invite())
	v.Assert(m.Phase != dlg.Over && opened() == 1, "no open socket")
	m.From = stranger
	m.Respond(dlg.Answer{Status: "180", Code: 180})
	m.HangUp()
	m.Broken()
	m.After()
}

// H_Deaf: no socket can be opened.
func H_Deaf() {
	bound()
	servers := 1 + v.Case(3)
	inUse := v.Case(2) == 1
	dlg.Setup = loose
	m := dlg.New(dlg.Reports|dlg.Replies|dlg.Requests, servers)
	net.ListenErr = func(addr string) error {
		if inUse {
			return os.NewSyscallError("bind", syscall.EADDRINUSE)
		}
		return errors.New("permission denied")
	}
	m.Die(7)
	net.DialErr = nil
	m.Begin(dlg.Invite())
	v.Assert(m.Phase == dlg.Over, "calls although nobody can call back")
	m.After()
}
