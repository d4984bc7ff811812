// Package c03: DTMF digits and telephone events.
package c03

import (
	"github.com/jart/gosip/rtp"
	"github.com/jart/gosip/zzv/net"
	"github.com/jart/gosip/zzv/v"
)

const digits = "0123456789*#ABCD!"

// event is the expected mapping as a term: 255 for characters without event.
func event(ch byte) byte {
	up := v.IteByte(v.And(ch >= 'a', ch <= 'd'), ch-32, ch)
	e := byte(255)
	for i := 0; i < len(digits); i++ {
		e = v.IteByte(up == digits[i], byte(i), e)
	}
	return e
}

// H_Char: every character.
func H_Char() {
	v.Bound("all 256 characters, all 256 events")
	ch := v.Byte()
	want := event(ch)
	ev, err := rtp.CharToDtmf(ch)
	if err != nil {
		v.Reach("refused")
		v.Assert(want == 255, "a DTMF digit is refused")
		return
	}
	v.Reach("accepted")
	v.Assert(want != 255, "a character that is no DTMF digit is accepted")
	v.Assert(ev == want, "character mapped to another event")
	back, err := rtp.DtmfToChar(ev)
	v.Assert(err == nil, "event of a character has no character")
	up := v.IteByte(v.And(ch >= 'a', ch <= 'd'), ch-32, ch)
	v.Assert(back == up, "character does not survive the round trip")
}

// H_Event: every event code.
func H_Event() {
	ev := v.Byte()
	ch, err := rtp.DtmfToChar(ev)
	if err != nil {
		v.Reach("refused")
		v.Assert(ev > 16, "a DTMF event is refused")
		return
	}
	v.Reach("accepted")
	v.Assert(ev <= 16, "an event without digit is accepted")
	want := byte(0)
	for i := 0; i < len(digits); i++ {
		want = v.IteByte(ev == byte(i), digits[i], want)
	}
	v.Assert(ch == want, "event mapped to another character")
	back, err := rtp.CharToDtmf(ch)
	v.Assert(v.And(err == nil, back == ev), "event does not survive the round trip")
}

// H_Send: SendDTMF uses the same mapping.
func H_Send() {
	v.Bound("digit transmission: all 256 characters on a session with peer, session without peer and nil session")
	net.Reset()
	mode := v.Case(3)
	var rs *rtp.Session
	if mode < 2 {
		var err error
		rs, err = rtp.NewSession("192.0.2.1:4000")
		v.Assert(err == nil && len(net.Conns) == 1, "session not created")
		if mode == 0 {
			rs.Peer = &net.UDPAddr{IP: net.IPv4(192, 0, 2, 2), Port: 4002}
		}
	}
	ch := v.Byte()
	want := event(ch)
	err := rs.SendDTMF(ch)
	sent := 0
	if mode < 2 {
		sent = len(net.Conns[0].Sent)
	}
	if err != nil {
		v.Reach("refused")
		v.Assert(want == 255, "a DTMF digit is refused")
		v.Assert(sent == 0, "a refused digit transmits packets")
		return
	}
	v.Reach("accepted")
	v.Assert(want != 255, "a character that is no DTMF digit is accepted")
	if mode > 0 {
		v.Assert(sent == 0, "packets without a peer")
		return
	}
	v.Assert(sent > 0, "an accepted digit transmits nothing")
	for _, p := range net.Conns[0].Sent {
		v.Assert(len(p.Data) == 16, "event packet length")
		v.Assert(p.Data[12] == want, "event packet with another event code")
	}
}
