// Package c34: RTP sessions listen on a proper port.
package c34

import (
	"errors"
	"os"
	"syscall"

	"github.com/jart/gosip/rtp"
	"github.com/jart/gosip/zzv/net"
	"github.com/jart/gosip/zzv/v"
)

func bound() {
	v.Bound("all random numbers; 6 hosts and 4 addresses with a port; 0..10 ports in use before the first free one, any other failure after 0..9 of them")
}

var inUse = os.NewSyscallError("bind", syscall.EADDRINUSE)

// number is the value of the decimal digits s.
func number(s string) int {
	n := 0
	ok := len(s) > 0 && len(s) < 6
	for i := 0; i < len(s); i++ {
		ok = v.And(ok, v.And(s[i] >= '0', s[i] <= '9'))
		n = n*10 + int(s[i]-'0')
	}
	v.Assert(ok, "the port is no number")
	return n
}

var hosts = []string{"", "192.0.2.1", "127.0.0.1", "localhost", "media.example", "2001:db8::1"}

// listen opens a socket or a session.
func listen(session bool, host string) (conn *net.UDPConn, err error) {
	if session {
		rs, err := rtp.NewSession(host)
		v.Assert((rs == nil) == (err != nil), "neither or both of session and error")
		if err != nil {
			return nil, err
		}
		v.Assert(rs.Sock != nil && rs.C != nil && rs.E != nil && rs.R != nil && rs.Peer == nil, "incomplete session")
		return rs.Sock, nil
	}
	c, err := rtp.Listen(host)
	v.Assert((c == nil) == (err != nil), "neither or both of socket and error")
	if err != nil {
		return nil, err
	}
	return c.(*net.UDPConn), nil
}

// H_Port: the port is chosen when none is given.
func H_Port() {
	bound()
	host := hosts[v.Case(6)]
	session := v.Case(2) == 1
	busy := v.Case(11)
	other := v.Choose(2) == 1
	net.Reset()
	net.Hosts = map[string]string{"localhost": "127.0.0.1", "media.example": "192.0.2.1"}
	n := 0
	last := 0
	boom := errors.New("permission denied")
	net.ListenErr = func(addr string) error {
		n++
		h, p, err := net.SplitHostPort(addr)
		v.Assert(err == nil && h == host, "another host")
		last = number(p)
		v.Assert(v.And(last >= 16384, last <= 32768), "port outside the range")
		v.Assert(last%2 == 0, "odd port")
		if n <= busy {
			return inUse
		}
		if other {
			return boom
		}
		return nil
	}
	conn, err := listen(session, host)
	v.Assert(n > 0, "did not listen")
	if busy >= 10 {
		v.Assert(err != nil && n == 10, "number of attempts while all ports are in use")
		v.Assert(len(net.Conns) == 0, "a socket is left")
		v.Reach("gave up")
		return
	}
	v.Assert(n == busy+1, "number of attempts")
	if other {
		v.Assert(err != nil && len(net.Conns) == 0, "a failure is not reported")
		v.Reach("failed")
		return
	}
	v.Assert(err == nil && len(net.Conns) == 1 && net.Conns[0] == conn, "no socket")
	if conn != nil {
		a, ok := conn.LocalAddr().(*net.UDPAddr)
		v.Assert(ok && a.Port == last && !conn.Closed(), "another port")
	}
	v.Reach("listens")
}

// H_Given: a port given is used as it is.
func H_Given() {
	bound()
	k := v.Case(4)
	session := v.Case(2) == 1
	how := v.Choose(3)
	d := v.Str(4)
	p := 0
	for i := range d {
		v.Assume(v.And(d[i] >= '0', d[i] <= '9'))
		p = p*10 + int(d[i]-'0')
	}
	v.Assume(d[0] != '0')
	addr := []string{"192.0.2.1:", ":", "[::1]:", "localhost:"}[k] + d
	net.Reset()
	net.Hosts = map[string]string{"localhost": "127.0.0.1"}
	net.ListenErr = func(string) error { return []error{nil, inUse, errors.New("permission denied")}[how] }
	conn, err := listen(session, addr)
	for _, a := range net.Listened {
		v.Assert(a == addr, "listened to another address")
	}
	if how > 0 {
		v.Assert(err != nil && len(net.Conns) == 0, "a failure is not reported")
		v.Reach("failed")
		return
	}
	v.Assert(len(net.Listened) == 1 && err == nil && len(net.Conns) == 1 && net.Conns[0] == conn, "no socket")
	if conn != nil {
		a, ok := conn.LocalAddr().(*net.UDPAddr)
		v.Assert(ok && a.Port == p && !conn.Closed(), "another port")
		want := []string{"192.0.2.1", "", "::1", "127.0.0.1"}[k]
		if ok && want != "" {
			v.Assert(a.IP.String() == want, "another host")
		}
	}
	v.Reach("listens")
}
