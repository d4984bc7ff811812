// Package c05: the RTP receiver.
package c05

import (
	"github.com/jart/gosip/dsp"
	"github.com/jart/gosip/rtp"
	"github.com/jart/gosip/zzv/net"
	"github.com/jart/gosip/zzv/v"
)

var from = &net.UDPAddr{IP: net.IPv4(192, 0, 2, 7), Port: 7002}

// datagram is an arbitrary datagram of n octets, the first 172 arbitrary.
func datagram(n int) []byte {
	k := n
	if k > 172 {
		k = 172
	}
	return append(v.Bytes(k), make([]byte, n-k)...)
}

func valid(b []byte) bool {
	return len(b) == 172 && b[0]&0xd0 == 0x80 && b[1]&0x7f == 0
}

func poll(rs *rtp.Session) *rtp.Frame {
	v.Settle()
	select {
	case f, ok := <-rs.C:
		v.Assert(ok, "frame channel closed while datagrams keep arriving")
		return f
	default:
		return nil
	}
}

func verify(b []byte, f *rtp.Frame) {
	if valid(b) {
		v.Reach("delivered")
		v.Assert(f != nil, "valid audio datagram not delivered")
		if f == nil {
			return
		}
		for i := range f {
			v.Assert(f[i] == int16(dsp.UlawToLinear(int64(b[12+i]))), "sample is not the decoding of its octet")
		}
	} else {
		v.Reach("dropped")
		v.Assert(f == nil, "frame delivered for a datagram that is not valid audio")
	}
}

func open() (*rtp.Session, *net.UDPConn) {
	net.Reset()
	rs, err := rtp.NewSession("192.0.2.1:4000")
	v.Assert(err == nil, "session not created")
	return rs, net.Conns[0]
}

var sizes = []int{172, 0, 1, 11, 12, 13, 171, 173, 184, 332, 2047, 2048}

// H_Sequence: datagrams one after the other, each frame handed back at once.
func H_Sequence() {
	n := 2
	if v.Thorough() {
		n = 3
	}
	v.Bound("sequences of up to 2 datagrams (quick) or 3 (thorough) of 0, 1, 11, 12, 13, 171, 172, 173, 184, 332, 2047 or 2048 octets, all contents of the first 172 octets, followed by one more valid-size datagram")
	k := make([]int, n)
	for i := range k {
		k[i] = v.Case(len(sizes))
	}
	rs, sock := open()
	for i := 0; i <= n; i++ {
		size := 172
		if i < n {
			size = sizes[k[i]]
		}
		b := datagram(size)
		sock.Inject(b, from)
		f := poll(rs)
		verify(b, f)
		if f != nil {
			rs.R <- f
		}
	}
}

// H_Lengths: a valid datagram, then one of every length up to 200 with the
// same start: nothing left over from the first may count.
func H_Lengths() {
	v.Bound("every datagram length 0..200 after a valid 172-octet datagram")
	n := v.Case(201)
	rs, sock := open()
	b := datagram(172)
	v.Assume(valid(b))
	sock.Inject(b, from)
	f := poll(rs)
	verify(b, f)
	if f != nil {
		rs.R <- f
	}
	c := datagram(n)
	sock.Inject(c, from)
	f = poll(rs)
	verify(c, f)
}

// H_Hold: frames the application keeps for a while stay as they were, and
// arrive in order.
func H_Hold() {
	v.Bound("four datagrams, arrival while the application holds a frame, all contents")
	size := sizes[v.Case(3)]
	rs, sock := open()
	ds := [][]byte{datagram(172), datagram(172), datagram(size), datagram(172)}
	v.Assume(v.And(valid(ds[0]), v.And(valid(ds[1]), valid(ds[3]))))
	for _, d := range ds {
		sock.Inject(d, from)
	}
	for i := 0; i < 4; i++ {
		if i == 2 && !valid(ds[2]) {
			v.Reach("third dropped")
			continue
		}
		f := poll(rs)
		verify(ds[i], f)
		if f == nil {
			return
		}
		held := *f
		v.Settle()
		for j := range f {
			v.Assert(f[j] == held[j], "frame modified while the application holds it")
		}
		// handing back a different frame is allowed too
		if v.Choose(2) == 0 {
			rs.R <- f
		} else {
			rs.R <- new(rtp.Frame)
			v.Settle()
			for j := range f {
				v.Assert(f[j] == held[j], "kept frame modified after another was handed back")
			}
		}
	}
	v.Assert(poll(rs) == nil, "more frames than datagrams")
	v.Reach("all delivered")
}
