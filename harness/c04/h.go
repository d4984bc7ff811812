// Package c04: continuity of the RTP stream a session transmits.
package c04

import (
	"errors"

	"github.com/jart/gosip/dsp"
	"github.com/jart/gosip/rtp"
	"github.com/jart/gosip/zzv/net"
	"github.com/jart/gosip/zzv/v"
)

const digits = "0123456789*#ABCD!"

func code(ch byte) byte {
	up := v.IteByte(v.And(ch >= 'a', ch <= 'd'), ch-32, ch)
	e := byte(255)
	for i := 0; i < len(digits); i++ {
		e = v.IteByte(up == digits[i], byte(i), e)
	}
	return e
}

// stream is what the peer may see next.
type stream struct {
	seq  uint16
	ts   uint32
	ssrc uint32
	// set after a failed write: the lost packet may or may not have used up
	// its sequence number and its samples
	slack bool
	lost  uint32
}

var peer = &net.UDPAddr{IP: net.IPv4(192, 0, 2, 2), Port: 4002}

func setup() (*rtp.Session, *net.UDPConn, *stream) {
	net.Reset()
	rs, err := rtp.NewSession("192.0.2.1:4000")
	v.Assert(err == nil, "session not created")
	sock := net.Conns[0]
	st := &stream{seq: v.Uint16(), ts: v.Uint32(), ssrc: v.Uint32()}
	rs.Header = rtp.Header{PT: v.Byte(), Seq: st.seq, TS: st.ts, Ssrc: st.ssrc}
	rs.Peer = peer
	return rs, sock, st
}

// check examines the fixed part of a packet and moves the stream on.
func (s *stream) check(p net.Packet, mark bool, pt byte, size int, samps uint32) {
	v.Assert(p.Addr != nil && p.Addr.Port == peer.Port && p.Addr.IP.Equal(peer.IP), "packet sent elsewhere than to the peer")
	b := p.Data
	v.Assert(len(b) == 12+size, "packet length")
	v.Assert(b[0] == 0x80, "version, padding, extension or CSRC bits")
	v.Assert(b[1] == v.IteByte(mark, 0x80, 0)|pt&0x7f, "marker bit or payload type")
	seq := uint16(b[2])<<8 | uint16(b[3])
	ts := uint32(b[4])<<24 | uint32(b[5])<<16 | uint32(b[6])<<8 | uint32(b[7])
	ssrc := uint32(b[8])<<24 | uint32(b[9])<<16 | uint32(b[10])<<8 | uint32(b[11])
	v.Assert(ssrc == s.ssrc, "SSRC differs from the session's")
	if s.slack {
		v.Assert(v.Or(seq == s.seq, seq == s.seq+1), "sequence number after a failed write")
		v.Assert(v.Or(ts == s.ts, ts == s.ts+s.lost), "timestamp after a failed write")
	} else {
		v.Assert(seq == s.seq, "sequence number is not the predecessor's plus one")
		v.Assert(ts == s.ts, "timestamp is not the predecessor's plus its samples")
	}
	s.slack, s.lost = false, 0
	s.seq, s.ts = seq+1, ts+samps
}

// op performs one send; fail is the index of the write to fail within it or
// -1. It reports whether a write failed.
func op(rs *rtp.Session, sock *net.UDPConn, st *stream, kind int, fail int) bool {
	sock.Sent = nil
	n, failed := 0, false
	net.OnWrite = func(c *net.UDPConn, p net.Packet) error {
		v.Assert(c == sock, "packet written to another socket")
		n++
		if n-1 == fail {
			failed = true
			return errors.New("host unreachable")
		}
		return nil
	}
	switch kind {
	case 0:
		var f rtp.Frame
		for i := range f {
			f[i] = v.Int16()
		}
		f0 := f
		err := rs.Send(&f)
		v.Assert((err != nil) == failed, "Send error does not match the write's outcome")
		for i := range f {
			v.Assert(f[i] == f0[i], "Send modifies the frame")
		}
		if failed {
			v.Assert(len(sock.Sent) == 0, "packets after a failed write")
			st.slack, st.lost = true, 160
			v.Reach("audio write failed")
			return true
		}
		v.Assert(len(sock.Sent) == 1, "Send transmits other than one packet")
		p := sock.Sent[0]
		st.check(p, false, 0, 160, 160)
		for i := range f {
			v.Assert(p.Data[12+i] == byte(dsp.LinearToUlaw(int64(f0[i]))), "payload octet is not the µ-law code of its sample")
		}
		v.Reach("audio")
	case 1:
		size := []int{0, 7, 1500}[v.Choose(3)]
		k := size
		if k > 8 {
			k = 8
		}
		data := append(v.Bytes(k), make([]byte, size-k)...)
		d0 := string(data)
		pt, samps := v.Byte(), v.Uint32()
		err := rs.SendRaw(pt, data, samps)
		v.Assert((err != nil) == failed, "SendRaw error does not match the write's outcome")
		v.Assert(string(data) == d0, "SendRaw modifies its data")
		if failed {
			v.Assert(len(sock.Sent) == 0, "packets after a failed write")
			st.slack, st.lost = true, samps
			return true
		}
		v.Assert(len(sock.Sent) == 1, "SendRaw transmits other than one packet")
		p := sock.Sent[0]
		st.check(p, false, pt, size, samps)
		v.Assert(string(p.Data[12:]) == d0, "raw payload altered")
		v.Reach("raw")
	case 2:
		ch := v.Byte()
		want := code(ch)
		err := rs.SendDTMF(ch)
		if want == 255 {
			v.Assert(err != nil, "a character that is no DTMF digit is accepted")
			v.Assert(n == 0, "a refused digit transmits packets")
			v.Reach("digit refused")
			return false
		}
		v.Assert((err != nil) == failed, "SendDTMF error does not match the write's outcome")
		sent := sock.Sent
		ends := 0
		last := -1
		for i, p := range sent {
			st.check(p, i == 0, 101, 4, 0)
			e := p.Data[12:]
			v.Assert(e[0] == want, "event code")
			v.Assert(e[1]&0x40 == 0, "reserved bit set")
			dur := int(e[2])<<8 | int(e[3])
			if e[1]&0x80 != 0 {
				if ends == 0 {
					v.Assert(dur > last, "event duration does not increase")
				} else {
					v.Assert(dur == last, "final packets disagree about the duration")
				}
				ends++
			} else {
				v.Assert(ends == 0, "event packet without end bit after the end")
				v.Assert(dur > last, "event duration does not increase")
				v.Assert(dur > 0, "event duration of zero")
			}
			last = dur
		}
		if failed {
			v.Assert(len(sent) == fail, "packets after a failed write")
			st.slack, st.lost = true, 0
			v.Reach("digit write failed")
			return true
		}
		v.Assert(ends == 3, "number of final packets")
		v.Assert(len(sent) > 3, "no event packet before the final ones")
		v.Reach("digit")
	case 3:
		// no peer for a while
		rs.Peer = nil
		h := rs.Header
		var f rtp.Frame
		switch v.Choose(3) {
		case 0:
			v.Assert(rs.Send(&f) == nil, "sending without a peer fails")
		case 1:
			v.Assert(rs.SendRaw(v.Byte(), v.Bytes(3), v.Uint32()) == nil, "sending without a peer fails")
		case 2:
			rs.SendDTMF('5')
		}
		v.Assert(n == 0, "packets without a peer")
		v.Assert(rs.Header == h, "stream state moves without a peer")
		rs.Peer = peer
		v.Reach("no peer")
	}
	return false
}

// H_History: histories without failing writes.
func H_History() {
	n := 3
	if v.Thorough() {
		n = 5
	}
	v.Bound("every history of up to 3 sends (quick) or 5 (thorough), each an audio frame, a raw payload of 0, 7 or 1500 octets, a DTMF character or a send without peer; every initial payload type, sequence number, timestamp and SSRC; all samples, data (first 8 octets), payload types, sample counts, digits")
	k := make([]int, n)
	for i := range k {
		k[i] = v.Case(4)
	}
	rs, sock, st := setup()
	for i := range k {
		op(rs, sock, st, k[i], -1)
	}
}

// H_Fail: one write fails, then the stream goes on.
func H_Fail() {
	v.Bound("failing writes: any one of the writes of a send fails (first to eighth), preceded by nothing or an audio frame and followed by any two sends")
	pre := v.Case(2)
	k := v.Case(3)
	nx := v.Case(4)
	rs, sock, st := setup()
	if pre == 1 {
		op(rs, sock, st, 0, -1)
	}
	fail := 0
	if k == 2 {
		fail = v.Choose(8)
	}
	op(rs, sock, st, k, fail)
	op(rs, sock, st, nx, -1)
	op(rs, sock, st, v.Choose(3), -1)
}

// H_Nil: a nil session swallows everything.
func H_Nil() {
	var rs *rtp.Session
	var f rtp.Frame
	v.Assert(rs.Send(&f) == nil, "sending on a nil session fails")
	v.Assert(rs.SendRaw(v.Byte(), v.Bytes(2), v.Uint32()) == nil, "sending on a nil session fails")
	v.Assert(rs.SendDTMF('1') == nil, "sending on a nil session fails")
	v.Reach("nil session")
}

// H_New: the header a new session starts with.
func H_New() {
	v.Bound("new sessions: every random SSRC")
	net.Reset()
	rs, err := rtp.NewSession("192.0.2.1:4000")
	v.Assert(err == nil, "session not created")
	st := &stream{seq: rs.Header.Seq, ts: rs.Header.TS, ssrc: rs.Header.Ssrc}
	rs.Peer = peer
	op(rs, net.Conns[0], st, 0, -1)
	op(rs, net.Conns[0], st, 2, -1)
	v.Reach("new session")
}
