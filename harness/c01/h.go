// Package c01: RTP header wire format and parsing.
package c01

import (
	"github.com/jart/gosip/rtp"
	"github.com/jart/gosip/zzv/v"
)

func arbitrary() rtp.Header {
	return rtp.Header{Pad: v.Bool(), Mark: v.Bool(), PT: v.Byte(), Seq: v.Uint16(), TS: v.Uint32(), Ssrc: v.Uint32()}
}

// H_Write: the 12 octets of RFC 3550 after an arbitrary prefix, and back.
func H_Write() {
	n := v.Case(4)
	room := v.Choose(3) // spare capacity: none, part, plenty
	v.Bound("header serialisation: every field value; prefixes of 0..3 arbitrary octets; spare capacity 0, 5 or 40 octets")
	pre := v.Bytes(n)
	buf := make([]byte, n, n+[]int{0, 5, 40}[room])
	copy(buf, pre)
	h := arbitrary()
	h0 := h
	out := h.Write(buf)
	v.Assert(h == h0, "Write changes the header")
	v.Assert(len(out) == n+12, "Write appends other than 12 octets")
	for i := range pre {
		v.Assert(out[i] == pre[i], "Write disturbs the octets already in the buffer")
	}
	w := out[n:]
	b0 := byte(0x80)
	b0 |= v.IteByte(h.Pad, 0x20, 0)
	v.Assert(w[0] == b0, "first octet")
	v.Assert(w[1] == v.IteByte(h.Mark, 0x80, 0)|h.PT&0x7f, "marker and payload type octet")
	v.Assert(v.And(w[2] == byte(h.Seq>>8), w[3] == byte(h.Seq)), "sequence number octets")
	for i := 0; i < 4; i++ {
		v.Assert(w[4+i] == byte(h.TS>>(24-8*uint(i))), "timestamp octets")
		v.Assert(w[8+i] == byte(h.Ssrc>>(24-8*uint(i))), "SSRC octets")
	}
	v.Obs("wire", string(w))
	r := arbitrary()
	err := r.Read(w)
	v.Assert(err == nil, "Read refuses what Write produced")
	h.PT &= 0x7f
	v.Assert(r == h, "Read does not give back the header written")
	v.Reach("round trip")
}

// H_Read: arbitrary octets.
func H_Read() {
	max := 16
	if v.Thorough() {
		max = 40
	}
	n := v.Case(max + 1)
	v.Bound("header parsing: every octet string of 0..16 octets (quick) or 0..40 (thorough), every previous header value")
	b := v.Bytes(n)
	orig := string(b)
	h := arbitrary()
	h0 := h
	err := h.Read(b)
	v.Assert(string(b) == orig, "Read modifies its input")
	if n < 12 {
		v.Reach("short")
		v.Assert(err == rtp.ErrTruncatedPacket, "short packet not reported as truncated")
		v.Assert(h == h0, "failed Read changes the header")
		return
	}
	badv := b[0]>>6 != 2
	ext := b[0]&0x10 != 0
	v.Obs("err", errText(err))
	if err != nil {
		v.Reach("refused")
		v.Assert(v.Or(v.And(badv, err == rtp.ErrBadVersion), v.And(ext, err == rtp.ErrExtendedHeadersNotSupported)), "error does not apply to the packet")
		v.Assert(h == h0, "failed Read changes the header")
		return
	}
	v.Reach("accepted")
	v.Assert(!badv, "bad version accepted")
	v.Assert(!ext, "extension accepted")
	v.Assert(h.Pad == (b[0]&0x20 != 0), "padding flag")
	v.Assert(h.Mark == (b[1]&0x80 != 0), "marker")
	v.Assert(h.PT == b[1]&0x7f, "payload type")
	v.Assert(h.Seq == uint16(b[2])<<8|uint16(b[3]), "sequence number")
	v.Assert(h.TS == uint32(b[4])<<24|uint32(b[5])<<16|uint32(b[6])<<8|uint32(b[7]), "timestamp")
	v.Assert(h.Ssrc == uint32(b[8])<<24|uint32(b[9])<<16|uint32(b[10])<<8|uint32(b[11]), "SSRC")
}

func errText(e error) string {
	if e == nil {
		return ""
	}
	return e.Error()
}
