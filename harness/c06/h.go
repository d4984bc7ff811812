// Package c06: RTP session shutdown under every interleaving.
package c06

import (
	"errors"

	"github.com/jart/gosip/rtp"
	"github.com/jart/gosip/zzv/net"
	"github.com/jart/gosip/zzv/v"
)

var from = &net.UDPAddr{IP: net.IPv4(192, 0, 2, 7), Port: 7002}

// audio is a datagram of audio size with an arbitrary header.
func audio() []byte { return append(v.Bytes(12), make([]byte, 160)...) }

func valid(b []byte) bool { return v.And(b[0]&0xd0 == 0x80, b[1]&0x7f == 0) }

func good() []byte {
	b := audio()
	v.Assume(valid(b))
	return b
}

func open() (*rtp.Session, *net.UDPConn) {
	net.Reset()
	rs, err := rtp.NewSession("192.0.2.1:4000")
	v.Assert(err == nil, "session not created")
	return rs, net.Conns[0]
}

// stopped checks the state after a shutdown. reported is the number of errors
// the application saw itself.
func stopped(c <-chan *rtp.Frame, e <-chan error, sock *net.UDPConn) {
	v.Settle()
	v.Assert(sock.Closed(), "socket left open")
	select {
	case _, ok := <-c:
		v.Assert(!ok, "frame delivered after shutdown")
	default:
		v.Assert(false, "frame channel left open")
	}
	select {
	case _, ok := <-e:
		v.Assert(!ok, "error reported again after shutdown")
	default:
		v.Assert(false, "receiver still running")
	}
}

// H_Close: Close at any moment.
func H_Close() {
	v.Bound("Close: 0..2 datagrams of audio size with any header, 0..2 of them consumed and handed back first, a socket error queued behind them or not; all interleavings of receiver and closer at channel and socket operations")
	nd := v.Case(3)
	used := v.Case(3)
	fail := v.Case(2)
	rs, sock := open()
	c, e := rs.C, rs.E
	frames := 0
	for i := 0; i < nd; i++ {
		b := audio()
		if valid(b) {
			frames++
		}
		sock.Inject(b, from)
	}
	if used > frames {
		v.Skip()
	}
	if fail == 1 {
		sock.InjectErr(errors.New("network is down"))
	}
	v.Interleave(true)
	for i := 0; i < used; i++ {
		f := <-rs.C
		v.Assert(f != nil, "nil frame")
		rs.R <- f
	}
	rs.Close()
	v.Interleave(false)
	v.Reach("closed")
	v.Assert(rs.Sock == nil, "session keeps its socket")
	stopped(c, e, sock)
	rs.Close()
	rs.CloseAfterError()
	v.Assert(sock.Closes == 1, "socket closed more than once")
	v.Reach("closed twice")
}

// H_Error: the application sees the error first.
func H_Error() {
	v.Bound("CloseAfterError and Close after an error: 0..2 audio datagrams before the error; all interleavings")
	nd := v.Case(3)
	how := v.Case(2)
	rs, sock := open()
	c, e := rs.C, rs.E
	for i := 0; i < nd; i++ {
		sock.Inject(good(), from)
	}
	boom := errors.New("network is down")
	sock.InjectErr(boom)
	v.Interleave(true)
	n := 0
	var err error
	cc := rs.C
	for err == nil {
		select {
		case f, ok := <-cc:
			if !ok {
				cc = nil
				continue
			}
			n++
			rs.R <- f
		case err = <-rs.E:
			v.Assert(err != nil, "error channel closed without an error")
			if err == nil {
				return
			}
			if cc != nil {
				_, ok := <-cc
				v.Assert(!ok, "error reported before the frame channel is closed")
			}
		}
	}
	v.Assert(n == nd, "frames lost before the error")
	oe, ok := err.(*net.OpError)
	v.Assert(ok && oe.Err == boom, "another error reported")
	if how == 0 {
		rs.CloseAfterError()
	} else {
		rs.Close()
	}
	v.Interleave(false)
	v.Reach("closed")
	v.Assert(rs.Sock == nil, "session keeps its socket")
	stopped(c, e, sock)
	rs.Close()
	rs.CloseAfterError()
	v.Assert(sock.Closes == 1, "socket closed more than once")
}

// H_Pump: another goroutine pumps frames while the session is closed.
func H_Pump() {
	v.Bound("Close while another goroutine consumes and hands back frames: 1..2 audio datagrams; all interleavings")
	nd := v.Case(2) + 1
	rs, sock := open()
	c, e, r := rs.C, rs.E, rs.R
	for i := 0; i < nd; i++ {
		sock.Inject(good(), from)
	}
	done := make(chan bool)
	v.Interleave(true)
	go func() {
		for f := range c {
			r <- f
		}
		close(done)
	}()
	rs.Close()
	<-done
	v.Interleave(false)
	v.Reach("closed")
	stopped(c, e, sock)
}

// H_Nil: nothing to close.
func H_Nil() {
	var rs *rtp.Session
	rs.Close()
	rs.CloseAfterError()
	rs = &rtp.Session{}
	rs.Close()
	rs.CloseAfterError()
	v.Reach("nothing happened")
}
