package ref

import "github.com/jart/gosip/sip"

// Start lines that visit every production.
var Starts = []string{
	"INVITE sip:a@b SIP/2.0\r\n",
	"!-T`'~%9.*_+ tel:+1;x SIP/13.07\r\n",
	"SIP/2.0 200 OK\r\n",
	"SIP/10.255 487 a%4aZ;/?:@&=+$,~ \t\xd0\xbf\xe5\xa4\xa7\xf0\x9f\x98\x80\xf8\x88\x80\x80\x80\xfc\x84\x80\x80\x80\x80!\r\n",
}

// Names are the known header names and two others.
var Names = []string{
	"Accept", "Accept-Contact", "a", "Accept-Encoding", "Accept-Language", "Allow", "u", "Allow-Events",
	"Alert-Info", "Authentication-Info", "Authorization", "Content-Disposition", "Content-Language",
	"Content-Encoding", "e", "Call-Info", "Date", "Error-Info", "Event", "o", "In-Reply-To", "Reply-To",
	"MIME-Version", "Organization", "Priority", "Proxy-Authenticate", "Proxy-Authorization", "Proxy-Require",
	"Refer-To", "r", "Referred-By", "b", "Require", "Retry-After", "Server", "Subject", "s", "Supported", "k",
	"Timestamp", "Unsupported", "User-Agent", "Warning", "WWW-Authenticate",
	"Contact", "m", "From", "f", "P-Asserted-Identity", "Record-Route", "Remote-Party-ID", "Route", "To", "t",
	"Via", "v", "Content-Type", "c", "Content-Length", "l", "Call-ID", "i", "CSeq", "Expires", "Max-Forwards",
	"Min-Expires", "X-y", "Q",
}

// Value is a short legal value of a header.
func Value(name string) string {
	m := new(sip.Msg)
	n := low(name)
	switch {
	case Addrs(m, n) != nil:
		return "<sip:a>"
	case Ints(m, n) != nil, n == "content-length", n == "l":
		return "0"
	case n == "cseq":
		return "1 A"
	case n == "via", n == "v":
		return "S/2/U h"
	case n == "content-type", n == "c":
		return "a/b"
	}
	return "x"
}

// Bodies are header lines that visit every production.
var Bodies = []string{
	// addresses: every display form, folds, lists, parameters
	"m:<sip:a>;k=v;l",
	"t:\"q\\\"u\t\\\\\xc3\xa9 \r\n x\" \r\n <sips:u@h;p?x=y>\r\n \r\n ; \r\n\tk = \r\n \"v\\;\" ; z=[::1]",
	"From:tok1 \r\n t2  <sip:a>  , sip:b;k=\"\" ,tel:+1 , <x:y>",
	"f: \r\n sip:u:p@h:5;tag=1",
	"Route:<sip:a;lr>,\r\n <sip:b;lr>\r\nRoute: <sip:c>",
	"Contact: a <sip:a>\r\nm: \"\" <sip:b>\r\nTo:<sip:t>\r\nContact:sip:c",
	// Via: white space and folds everywhere, lists, hosts
	"v:SIP / 2.0 \r\n / UDP \r\n h-1.x : 65535 ; branch = z ; rport ;q=\"\\\"\" , S/1/T [fe80::1.2]:7",
	"Via:SIP/2.0/UDP 1.2.3.4\r\nv: A/B/C d;e",
	// text headers: folds, UTF-8, empty values
	"s: \r\n a\xc3\xa9 \r\n\tb \r\nSubject:\r\nSubject: c",
	"X-a : \r\n\r\nX-a:1\r\nx-B:\xe5\xa4\xa7 \t\r\n \xf0\x9f\x98\x80\xf9\x80\x80\x80\x80\xfd\x80\x80\x80\x80\x80",
	// the special headers
	"Content-Type: a/b ; c = \"d\\e\" ;f=g\r\nl:0",
	"c:application/sdp\r\nContent-Length:\t00",
	"Call-ID: a<b>@[c]\r\ni: z",
	"CSeq: 12\t \r\n A-b\r\nCSeq:0 Z",
	"Expires:60\r\nMin-Expires: 07\r\nMax-Forwards:\r\n 70\r\nExpires: 8",
}
