package ref

import (
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/zzv/v"
)

func ParamEqual(p, q *sip.Param) bool {
	r := true
	for p != nil && q != nil {
		r = v.And(r, v.And(p.Name == q.Name, p.Value == q.Value))
		p, q = p.Next, q.Next
	}
	return v.And(r, p == nil && q == nil)
}

// AddrEqual compares address lists.
func AddrEqual(a, b *sip.Addr) bool {
	r := true
	for a != nil && b != nil {
		r = v.And(r, v.And(a.Display == b.Display, v.And(URIEqual(a.Uri, b.Uri), ParamEqual(a.Param, b.Param))))
		a, b = a.Next, b.Next
	}
	return v.And(r, a == nil && b == nil)
}

// ViaEqual compares Via chains.
func ViaEqual(a, b *sip.Via) bool {
	r := true
	for a != nil && b != nil {
		r = v.And(r, v.And(a.Protocol == b.Protocol, v.And(a.Version == b.Version, v.And(a.Transport == b.Transport,
			v.And(a.Host == b.Host, v.And(a.Port == b.Port, ParamEqual(a.Param, b.Param)))))))
		a, b = a.Next, b.Next
	}
	return v.And(r, a == nil && b == nil)
}

func XEqual(a, b *sip.XHeader) bool {
	r := true
	for a != nil && b != nil {
		r = v.And(r, v.And(a.Name == b.Name, string(a.Value) == string(b.Value)))
		a, b = a.Next, b.Next
	}
	return v.And(r, a == nil && b == nil)
}

var TextNames = []string{
	"accept", "accept-contact", "accept-encoding", "accept-language", "alert-info", "allow", "allow-events",
	"authentication-info", "authorization", "call-info", "content-disposition", "content-encoding",
	"content-language", "date", "error-info", "event", "in-reply-to", "mime-version", "organization", "priority",
	"proxy-authenticate", "proxy-authorization", "proxy-require", "refer-to", "referred-by", "reply-to", "require",
	"retry-after", "server", "subject", "supported", "timestamp", "unsupported", "user-agent", "warning",
	"www-authenticate",
}

var AddrNames = []string{"contact", "from", "p-asserted-identity", "record-route", "remote-party-id", "route", "to"}

var IntNames = []string{"expires", "max-forwards", "min-expires"}

// AssertMsg asserts that two messages are equal in every field but the payload.
func AssertMsg(got, want *sip.Msg) {
	v.Assert(v.And(got.VersionMajor == want.VersionMajor, got.VersionMinor == want.VersionMinor), "version differs")
	v.Assert(got.Method == want.Method, "method differs")
	v.Assert(URIEqual(got.Request, want.Request), "request URI differs")
	v.Assert(got.Status == want.Status, "status differs")
	v.Assert(got.Phrase == want.Phrase, "reason phrase differs")
	v.Assert(ViaEqual(got.Via, want.Via), "Via differs")
	v.Assert(got.CallID == want.CallID, "Call-ID differs")
	v.Assert(got.CSeq == want.CSeq, "CSeq number differs")
	v.Assert(got.CSeqMethod == want.CSeqMethod, "CSeq method differs")
	for _, n := range TextNames {
		v.Assert(*Texts(got, n) == *Texts(want, n), "text header differs")
	}
	for _, n := range AddrNames {
		v.Assert(AddrEqual(*Addrs(got, n), *Addrs(want, n)), "address header differs")
	}
	for _, n := range IntNames {
		v.Assert(*Ints(got, n) == *Ints(want, n), "numeric header differs")
	}
	v.Assert(XEqual(got.XHeader, want.XHeader), "extension headers differ")
	v.Assert(got.SourceAddr == nil, "source address set")
}
