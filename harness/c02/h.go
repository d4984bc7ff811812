// Package c02: RFC 4733 telephone-event payload.
package c02

import (
	"github.com/jart/gosip/rtp"
	"github.com/jart/gosip/zzv/v"
)

func arbitrary() rtp.EventHeader {
	return rtp.EventHeader{Event: v.Byte(), E: v.Bool(), R: v.Bool(), Volume: v.Byte(), Duration: v.Uint16()}
}

// H_Write: the four octets, written over arbitrary contents.
func H_Write() {
	extra := v.Case(4)
	v.Bound("event header serialisation: every field value over every previous content of a buffer of 4..7 octets")
	b := v.Bytes(4 + extra)
	old := string(b)
	h := arbitrary()
	h0 := h
	h.Write(b)
	v.Assert(h == h0, "Write changes the header")
	v.Assert(b[0] == h.Event, "event octet")
	v.Assert(b[1]>>7 == v.IteByte(h.E, 1, 0), "end bit")
	v.Assert(b[1]>>6&1 == v.IteByte(h.R, 1, 0), "reserved bit")
	v.Assert(b[1]&0x3f == h.Volume&0x3f, "volume bits")
	v.Assert(v.And(b[2] == byte(h.Duration>>8), b[3] == byte(h.Duration)), "duration octets")
	v.Assert(string(b[4:]) == old[4:], "octets beyond the payload disturbed")
	v.Obs("wire", string(b))
	r := arbitrary()
	r.Read(b)
	v.Assert(v.And(r.Event == h.Event, v.Iff(r.E, h.E)), "event or end bit lost in the round trip")
	v.Assert(v.Iff(r.R, h.R), "reserved bit lost in the round trip")
	v.Assert(v.And(r.Volume == h.Volume&0x3f, r.Duration == h.Duration), "volume or duration lost in the round trip")
	v.Reach("round trip")
}

// H_Read: arbitrary payloads.
func H_Read() {
	extra := v.Case(4)
	v.Bound("event header parsing: every payload of 4..7 octets, every previous header value")
	b := v.Bytes(4 + extra)
	old := string(b)
	h := arbitrary()
	h.Read(b)
	v.Assert(string(b) == old, "Read modifies its input")
	v.Assert(h.Event == b[0], "event")
	v.Assert(v.Iff(h.E, b[1]&0x80 != 0), "end bit")
	v.Assert(v.Iff(h.R, b[1]&0x40 != 0), "reserved bit")
	v.Assert(h.Volume == b[1]&0x3f, "volume")
	v.Assert(h.Duration == uint16(b[2])<<8|uint16(b[3]), "duration")
	w := make([]byte, len(b))
	copy(w, b)
	h.Write(w)
	v.Assert(string(w) == old, "writing what was read gives other octets")
	v.Reach("read")
}
