# One prop(...) per property; see gen_meta.py.

prop("C01", "RTP header wire format and parsing",
 "Serialising any RTP header appends exactly the 12 octets RFC 3550 prescribes (version 2, padding flag, no extension, no CSRCs, marker, 7-bit payload type, then sequence number, timestamp and SSRC in network order) after whatever the destination buffer already held, and parsing those octets gives back the same header. Parsing any octet string of any length never panics and succeeds exactly when at least 12 octets are present, the version is 2 and the extension bit is clear; otherwise it reports the truncated, bad-version or extension error that applies and leaves the header as it was.",
 ["inputs"], "all header field values (full widths), all prefixes already in the buffer, all byte strings",
 "The only test round-trips one header; 2^97 header values and every malformed packet are unsampled.",
 ["rtp/rtp.go"], [("Header.Write", "rtp/rtp.go"), ("Header.Read", "rtp/rtp.go")],
 observe=["rtp.Header.Write", "rtp.Header.Read"])

prop("C02", "RFC 4733 telephone-event payload codec",
 "Writing any telephone-event header (event, end bit, reserved bit, 6-bit volume, 16-bit duration) produces exactly the four octets of RFC 4733 section 2.3 and touches nothing else, and reading those octets back yields the same values; reading any four octets never panics and returns the field each bit position stands for.",
 ["inputs"], "all event header values and all 4-octet payloads",
 "No test touches the event header at all.",
 ["rtp/rtp.go"], [("EventHeader.Write", "rtp/rtp.go"), ("EventHeader.Read", "rtp/rtp.go")])

prop("C03", "DTMF digits map one-to-one onto telephone events",
 "Exactly the characters 0-9, *, #, A-D (either case) and ! are DTMF digits; they map to events 0..16 in that order, converting a character to an event and back gives the (upper-case) character, converting an event to a character and back gives the event, and every other character or event is refused with an error. Sending a digit on an RTP session uses the same mapping: a refused character transmits nothing, an accepted one transmits only packets carrying its event code.",
 ["inputs"], "all 256 characters and all 256 event codes",
 "Untested; two independent tables (a switch and an array literal) must agree for every byte.",
 ["rtp/dtmf.go", "rtp/session.go"], [("DtmfToChar/CharToDtmf", "rtp/dtmf.go"), ("dtmfCodes", "rtp/session.go")])

prop("C04", "RTP transmit stream continuity",
 "Whatever sequence of audio frames, raw payloads and DTMF digits is sent on an RTP session with a peer, every packet goes to that peer with the session's SSRC, each packet's sequence number is its predecessor's plus one modulo 2^16, and the timestamp of each packet is its predecessor's plus the number of samples that predecessor accounted for modulo 2^32; an audio packet is payload type 0 with the 160 µ-law codes of its frame, a raw packet carries exactly the given payload type and data, and a DTMF digit is one burst of event packets with payload type 101, the marker bit on the first packet only, strictly increasing durations, and three final packets that all carry the end bit and the same total duration. Without a peer nothing is sent and the stream state does not move.",
 ["inputs", "histories", "fault_sequences"], "all header states (including wrap-around), frames, payloads, digits and send histories, including failing sends",
 "There is no test of sending; wrap-around needs 2^16 packets and marker/end-bit bugs need particular histories.",
 ["rtp/session.go"], [("Session.Send", "rtp/session.go"), ("Session.SendRaw", "rtp/session.go"), ("Session.SendDTMF", "rtp/session.go")],
 state=[("Header", "running sequence number, timestamp, marker, SSRC", "rtp/session.go Session")])

prop("C05", "RTP receiver delivers exactly the valid µ-law frames",
 "For every sequence of datagrams of any content and length reaching an RTP session, the receiver never panics and never stops; it delivers one frame, in arrival order, for each datagram that is exactly 172 octets long with RTP version 2, no extension and payload type 0, with sample i equal to the µ-law decoding of payload octet i, and delivers nothing for any other datagram. A frame handed to the application is not modified until the application hands it back.",
 ["inputs", "histories"], "all datagram contents and lengths up to the receive buffer, sequences of datagrams including stale bytes left by earlier ones",
 "No test receives a packet; truncated or malformed datagrams arriving after a long valid one expose stale buffer contents only in particular orders.",
 ["rtp/session.go", "rtp/rtp.go", "dsp/dsp_amd64.s"], [("receiver", "rtp/session.go"), ("Header.Read", "rtp/rtp.go")])

prop("C06", "RTP session shutdown always completes",
 "Closing an RTP session returns, and leaves its receiver stopped, the frame channel closed and the socket closed, whichever point the receiver had reached (waiting for a packet, waiting to deliver a frame, or having just reported an error); a socket error is reported exactly once on the error channel after the frame channel is closed, and the post-error close returns too. Closing an already closed or never opened session does nothing.",
 ["schedules", "histories"], "all interleavings of the receiver goroutine with the closing goroutine at channel operations, zero or one undelivered frames, errors at any point",
 "No test opens a session; a deadlock needs the close to land between particular channel operations.",
 ["rtp/session.go"], [("Session.Close", "rtp/session.go"), ("Session.CloseAfterError", "rtp/session.go"), ("receiver", "rtp/session.go")])

prop("C07", "Audio mixing is saturating 16-bit addition of 160 samples",
 "Mixing a source frame into a destination frame sets each of the 160 destination samples to the sum of the two samples clamped to the int16 range, leaves the source unchanged, touches no memory outside the destination frame, and completes for every address the two frames may legally have in Go memory.",
 ["inputs"], "all 2^16 x 2^16 sample pairs in each of the 160 lanes, all 2-byte aligned addresses, overlapping use of one frame as both operands",
 "The test adds small positive constants to aligned arrays; saturation, lane mix-ups that cancel and misaligned frames are never exercised.",
 ["dsp/dsp_amd64.s", "dsp/dsp.go"], [("L16MixSat160", "dsp/dsp_amd64.s")])

prop("C08", "µ-law codec conforms to G.711",
 "Encoding any linear sample yields the G.711 µ-law code word in 0..255 (samples beyond the codec's range clip to the extreme code of their sign), decoding any code word yields the G.711 reconstruction level, decoding then encoding returns the same code word except that negative zero becomes positive zero, the reconstruction error never exceeds half the quantisation step of the sample's segment, and encoding is monotone in the sample.",
 ["inputs"], "all 64-bit sample arguments and all code words",
 "Tests check 256 decode values and two encode values out of 65536 (2^64) possible samples.",
 ["dsp/dsp_amd64.s"], [("LinearToUlaw", "dsp/dsp_amd64.s"), ("UlawToLinear", "dsp/dsp_amd64.s")])

prop("C09", "Comfort noise generator is total, deterministic and saturating",
 "For every seed and every level the noise generator initialises and keeps producing 16-bit samples without panicking: its table index always stays inside the table, its three congruential states stay inside their moduli, and a noise amplitude outside the int16 range is clamped to the nearest bound while one inside is truncated toward zero. Two generators created with the same seed and level produce the same samples.",
 ["inputs", "histories"], "all int64 seeds, all reachable generator states (inductive step), all float64 amplitudes",
 "One seed and five samples are tested.",
 ["dsp/awgn.go"], [("ran1", "dsp/awgn.go"), ("NewAWGN_DBOV", "dsp/awgn.go"), ("fsaturate", "dsp/awgn.go")])

prop("C10", "URI parser is total and reports a URI or an error, never both",
 "Parsing any byte string as a SIP URI never panics or hangs and returns either a URI or an error, never both and never neither (except nil for a nil input); an accepted URI has a non-empty lower-case scheme and a non-empty lower-case host, percent-escapes in user, password, parameters and headers are decoded to the octet they denote, names and values are separated where the grammar puts the delimiters, parameters and headers are listed last-first, and the port is the decimal number written. A port outside 0..65535 is refused rather than silently changed.",
 ["inputs"], "all byte strings up to the stated length, and all contents of each URI component inside larger URIs",
 "About twenty literal URIs are tested; escapes, delimiters and port values vary over an unbounded space of attacker-controlled input.",
 ["sip/uri_parse.go", "sip/uri_parse.rl", "sip/util.go"], [("ParseURI", "sip/uri_parse.go"), ("unhex", "sip/util.go")])

prop("C11", "URI formatting and parsing are inverse",
 "For every URI with a syntactically valid scheme and host, and user, password, parameter and header names and values made of arbitrary octets (names non-empty), formatting it and parsing the text yields an equal URI, whatever delimiters, spaces, control or non-ASCII octets those components contain. Formatting escapes whatever its position requires, so the text contains only URI characters and no component can introduce a new component, parameter or header.",
 ["inputs"], "all octet contents of each component up to the stated length, all ports, IPv4/IPv6/name hosts, parameter and header lists",
 "The format test uses a handful of literals whose components contain almost no reserved characters.",
 ["sip/uri.go", "sip/uriparam.go", "sip/uriheader.go", "sip/escape.go", "sip/charsets.go", "sip/uri_parse.go"],
 [("URI.Append", "sip/uri.go"), ("appendEscaped", "sip/escape.go"), ("character sets", "sip/charsets.go")])

prop("C12", "Address formatting and parsing are inverse and injection-safe",
 "For every address list whose parameter names are tokens and whose display names and parameter values are UTF-8 text free of line breaks other than a proper line fold, formatting it into a message and parsing that message yields an equal list: same order, same display names (quoting and backslash escapes undone, UTF-8 text preserved), same URIs, same parameters. Whatever octets a display name, a parameter value or a parameter name with at least one token character contains, the formatted text never contains a line break that is not a line fold and never ends the quoted string or the parameter early, so no content can inject a header, parameter or address: at worst a value is cut short, or a name loses its non-token characters.",
 ["inputs"], "all octet contents of display names, parameter names and values up to the stated length, lists of addresses",
 "Seven quoting literals and a dozen addresses are tested; the dangerous contents are the unusual ones.",
 ["sip/addr.go", "sip/param.go", "sip/quote.go", "sip/charsets.go", "sip/msg_parse.go"],
 [("Addr.Append", "sip/addr.go"), ("appendQuoted", "sip/quote.go"), ("Param.Append", "sip/param.go")])

prop("C13", "Via formatting and parsing are inverse",
 "For every chain of Via hops with token protocol, version and transport, any port, and a host that is a name, an IPv4 address or an IPv6 address, formatting the chain into a message and parsing that message yields the same chain in the same order with the same parameters; an absent port is not turned into a different port and a present one is not dropped. An empty protocol, version or transport is written as SIP, 2.0 or UDP.",
 ["inputs"], "all ports, host kinds, parameter contents and chain lengths up to the stated bounds",
 "Only parsing of a few literal Via headers is tested, never formatting of IPv6 hosts or absent ports.",
 ["sip/via.go", "sip/msg_parse.go"], [("Via.Append", "sip/via.go"), ("ParseMsg via machine", "sip/msg_parse.go")])

prop("C14", "Message formatting and parsing are inverse for every header",
 "For every request or response whose mandatory parts are present and whose text fields hold header text, formatting the message and parsing the result yields an equal message: start line, every address, Via, numeric and text header, extension headers in order with their names and values, and the payload with its content type. Each header is written under its own standard name, so no header is lost, renamed or merged into another. Formatting does not change the message: formatting it again gives the same text. A request without a method is written as an INVITE, one without a hop limit with 70, and a message without a version as SIP/2.0.",
 ["inputs"], "each header field of the message in turn and in combination, with arbitrary contents up to the stated length; requests and responses; all numeric values in range",
 "Tests parse about forty literal messages and never compare a formatted message with what it came from for most headers.",
 ["sip/msg.go", "sip/xheader.go", "sip/msg_parse.go"], [("Msg.Append", "sip/msg.go"), ("ParseMsg", "sip/msg_parse.go"), ("XHeader.Append", "sip/xheader.go")])

prop("C15", "Message parser is total on untrusted input",
 "Parsing any byte string as a SIP message never panics or hangs, never reads outside the input, and returns either a message or an error, never both and never neither (except nil for a nil input); input that ends early is reported as incomplete, other malformed input as a parse error whose offset lies inside the input, and rendering either error as text never panics and names the line and the offset in it at which parsing failed. The parser leaves its input unmodified.",
 ["inputs"], "all short byte strings, all octets at every position reachable in the message grammar (state cover with symbolic windows)",
 "The torture tests are literals; the parser has about 765 automaton states and every octet is attacker controlled.",
 ["sip/msg_parse.go", "sip/msgerror.go"], [("ParseMsg", "sip/msg_parse.go"), ("MsgParseError.Error", "sip/msgerror.go")])

prop("C16", "Message parser implements the documented SIP grammar",
 "The message parser accepts exactly the byte strings of its documented grammar and extracts from each the values the grammar marks: method, request URI, version, status and reason; each header recognised whatever the case of its name or by its compact form and stored in its own field, unrecognised names kept as extension headers; whitespace, line folds, quoted strings with escapes, comma-separated lists and repeated headers handled as the grammar says.",
 ["inputs"], "every automaton state of the grammar followed by every window of up to the stated number of arbitrary octets, with completions to a full message",
 "Tests visit a small fraction of the automaton's transitions with fixed octets.",
 ["sip/msg_parse.go", "sip/msg_parse.rl", "sip/sip.rl"], [("ParseMsg", "sip/msg_parse.go"), ("grammar", "sip/sip.rl")])

prop("C17", "Numeric header values are exact or refused",
 "The status code, version, CSeq, Max-Forwards, Expires, Min-Expires, Content-Length, Via port and URI port of a parsed message equal the decimal numbers written in it; a number too large for its field makes parsing fail instead of yielding some other number, and one header's number never changes another header's field.",
 ["inputs"], "all digit strings up to 20 digits in each numeric field",
 "Tests use small in-range numbers; overflow needs unusual long digit strings.",
 ["sip/msg_parse.go", "sip/msg_parse.rl", "sip/sip.rl", "sip/uri_parse.go"], [("digit accumulation actions", "sip/sip.rl"), ("port action", "sip/uri_parse.rl")])

prop("C18", "Message payload is delimited exactly by Content-Length",
 "When a message carries a positive Content-Length, parsing succeeds only if exactly that many octets follow the blank line, and the payload then consists of exactly those octets (parsed as SDP when the type is application/sdp, kept verbatim with its type otherwise); with no Content-Length or zero there is no payload. Formatting a message with a payload writes a Content-Length equal to the number of payload octets that follow.",
 ["inputs"], "all declared lengths and all actual payload lengths and contents up to the stated bound",
 "Tests contain a few matching lengths and no mismatch sweep.",
 ["sip/msg_parse.go", "sip/msg_parse.rl", "sip/msg.go", "sip/payload.go"], [("ParseMsg epilogue", "sip/msg_parse.rl"), ("Msg.Append epilogue", "sip/msg.go")])

prop("C19", "Copies are equal to and independent of the original",
 "Copying a message, address list, URI or Via chain gives a value equal to the original in every field, including display names, nested URIs, parameters and every list element, and nil copies to nil; afterwards replacing fields of, or prepending parameters or tags to, the copy (or elements of its address and Via lists) never changes the original, and vice versa.",
 ["inputs", "histories"], "all field contents, list lengths up to the stated bound, single mutations of either side",
 "No test copies anything with all fields populated.",
 ["sip/msg.go", "sip/addr.go", "sip/uri.go", "sip/via.go"], [("Msg.Copy", "sip/msg.go"), ("Addr.Copy", "sip/addr.go"), ("URI.Copy", "sip/uri.go"), ("Via.Copy", "sip/via.go")])

prop("C20", "List and lookup helpers of the SIP types",
 "For every list length: reversing an address list yields the same addresses in opposite order without changing the original, the length and last-element helpers agree with traversal, detaching a Via yields its first hop alone, and the either-or helper returns the receiver unless it is nil. Parameter and extension-header lookup finds the first entry whose name matches case-insensitively and nothing otherwise; host/port comparison treats a missing URI port as the scheme's default port, and comparing or looking up in nil never panics.",
 ["inputs"], "lists up to the stated length, all names up to the stated length, all ports and schemes",
 "One reversal literal is tested.",
 ["sip/addr.go", "sip/via.go", "sip/param.go", "sip/uriparam.go", "sip/uriheader.go", "sip/xheader.go", "sip/uri.go"],
 [("Addr.Reversed/Last/Len/Or", "sip/addr.go"), ("Via.Last/Detach/Compare*", "sip/via.go"), ("Get", "sip/param.go"), ("GetPort/CompareHostPort", "sip/uri.go")])

prop("C21", "SDP formatting and parsing are inverse",
 "For every session description whose fields are all set to line text that fits its place (origin fields and protocols without spaces, addresses without slash, each medium with at least one codec, distinct payload types within a medium, codec names and parameters without slash, attribute names without colon that are not those of the fields with a place of their own, one-letter unknown field types), formatting it and parsing the text yields an equal description: origin fields, address and address family, session name, time, media ports, protocols and codecs in order with rate, parameter and format string, packet time, direction and attributes and unknown fields in order, even when audio and video use the same payload type for different codecs. Formatting does not change the description, and the payload data and the string form are the same text. Fields that are not set are written with a default value (user -, a generated ID, the ID as version, time 0 0, protocol RTP/AVP, some session name and addresses), so that the text still parses with the other fields unchanged. A description made for an address and codecs carries that address, that port and a copy of those codecs.",
 ["inputs"], "each field with arbitrary in-grammar contents up to the stated length, all ports, payload types, rates and packet times, IPv4 and IPv6",
 "Tests compare a few literal descriptions.",
 ["sdp/sdp.go", "sdp/codec.go", "sdp/media.go", "sdp/origin.go"], [("SDP.Append", "sdp/sdp.go"), ("Parse", "sdp/sdp.go")])

prop("C22", "SDP parser is total and keeps its documented guarantees",
 "Parsing any text as SDP never panics and returns either a description or an error, never both. An accepted description came from text starting with the version line and containing an origin line, a connection line and an audio or video media line; it has a non-empty non-multicast address, an origin that is the last origin line's and not multicast, and at least one medium, each payload type of the media line appears in order as a codec, with the name, rate and parameter of the first rtpmap of its payload type under its media line (or else elsewhere, unless it is under the other media line for a payload type of that one; or else the IANA static entry), and the text of the fmtp found likewise; the session name, time, packet time, direction, attributes and unknown fields are those of the text's lines, in order; a dynamic payload type without rtpmap, an unknown static one, a port above 65535 or a payload type above 255 is an error.",
 ["inputs"], "all line contents up to the stated length in each kind of line, line orders and repetitions in templates",
 "Tests parse literals; network-supplied SDP is arbitrary.",
 ["sdp/sdp.go", "sdp/codecs.go"], [("Parse", "sdp/sdp.go"), ("populateCodecs", "sdp/sdp.go"), ("parseMediaInfo/parseConnLine/parseOriginLine/parseRtpmapInfo", "sdp/sdp.go")])

prop("C23", "Outgoing requests are completed without overwriting what was set",
 "Preparing a request for transmission fills in every mandatory part that is missing (Via, Contact, To, From, Call-ID, CSeq and its method, Max-Forwards 70, User-Agent, a Via branch starting with the RFC 3261 magic cookie and a From tag) and never changes a part the caller already set, preparing it twice changes nothing more, and a response is left untouched. The Via and Contact of the transport it is sent through are not changed, and two requests never share a branch. A new request built for a transport is complete, and shares nothing with the addresses it was built from.",
 ["inputs"], "all combinations of present and absent parts, arbitrary contents",
 "No test exercises it; it is a product of about twelve independent optional parts.",
 ["dialog/route.go", "dialog/messages.go"], [("PopulateMessage", "dialog/route.go"), ("NewRequest", "dialog/messages.go")])

prop("C24", "In-dialog messages are constructed as RFC 3261 requires",
 "A response built for a request carries the request's Via chain, From, To, Call-ID, CSeq number and method and the given status with its standard phrase; an ACK carries the response's From, To, Call-ID and CSeq number with method ACK, the INVITE's credentials and a single Via; that of a 2xx is addressed to the response's Contact and follows its Record-Route set in reverse order, that of a failure repeats the INVITE's request URI and Route; a CANCEL repeats the INVITE's request URI, Via, From, To, Call-ID, CSeq number and Route; a BYE is addressed to the remote Contact through the reversed route set with the dialog's Call-ID, From and remote To and a CSeq one higher than the last local one, each successive BYE one higher again.",
 ["inputs"], "all message contents and route set lengths up to the stated bound",
 "No test constructs these messages.",
 ["dialog/messages.go", "sip/status.go"], [("NewResponse/NewAck/NewCancel/NewBye", "dialog/messages.go")])

prop("C25", "Responses and ACKs are matched to exactly their transaction",
 "A received message counts as the response to a request exactly when it is a response with the same CSeq number, its CSeq method is the request's method and its bottom-most Via has the host, port and branch the request was sent with (a missing branch never matches); an ACK matches exactly when it is an ACK request with the same CSeq number whose bottom-most Via has the same host and port.",
 ["inputs"], "all CSeq numbers, methods, Via hosts, ports, branches and chain lengths up to the stated bound",
 "No test covers matching; stray and late responses are the interesting inputs.",
 ["dialog/messages.go", "sip/via.go"], [("ResponseMatch/AckMatch", "dialog/messages.go"), ("CompareHostPort/CompareBranch", "sip/via.go")])

prop("C26", "Next-hop routing follows RFC 3261 loose and strict routing",
 "A response goes to the address in its top Via after removing our own Via if it is on top, preferring the received address and a non-empty rport over the sent-by host and port, and an unusable rport, or no Via left, is an error. A request goes to its request URI when it has no Route; its own topmost Route entry is removed first; a loose-routing top Route decides the next hop and leaves the request URI and Route unchanged; a strict-routing top Route becomes the request URI and the old request URI is appended as the last Route entry; a routed REGISTER is refused. A literal IP destination without a port uses 5060, a name without a port goes to its SRV targets in order when they are wanted and otherwise to port 5060 of its address, and IPv6 destinations are bracketed.",
 ["inputs"], "all Via/Route shapes up to the stated bound, arbitrary hosts, ports and parameters",
 "No test covers routing.",
 ["dialog/route.go", "dialog/transport.go"], [("RouteMessage", "dialog/route.go"), ("RouteAddress", "dialog/route.go")])

prop("C27", "Received messages are vetted, stamped and stay intact",
 "Every datagram arriving on a SIP socket, of any size, either yields exactly one message, in arrival order, or is dropped (when it does not parse or has no Via); no datagram, however malformed or incomplete, stops or crashes the receiver. A delivered request carries the sender's address when it differs from its top Via: received when the host differs and the real port in rport when the port differs or an rport parameter asked for it, both overwriting whatever values the request came with; a message addressed through us has our Route entry removed and a request URI rewritten by a strict router restored. A delivered message never changes because later datagrams arrive.",
 ["inputs", "histories"], "arbitrary parsed messages (any header absent), sender addresses and local addresses, sequences of two datagrams, sizes up to 65507 octets",
 "No test receives from a socket; a request without Via or one whose payload outlives the next datagram needs a hostile or busy peer.",
 ["dialog/receiver.go"], [("ReceiveMessages", "dialog/receiver.go"), ("addReceived", "dialog/receiver.go"), ("fixMessagesFromStrictRouters", "dialog/receiver.go")])

prop("C28", "A dialog survives any message the remote side sends",
 "Whatever well-formed SIP messages arrive during a call attempt or an established call, in whatever state, with any headers or payload parts missing, the dialog never panics: it either carries on or ends by reporting an error or a hangup.",
 ["inputs", "histories"], "all single messages (status, method, CSeq, presence of every optional part symbolic) in each dialog state, and short sequences of them",
 "No test runs a dialog; hostile or minimal responses (no Contact, video-only SDP, unsolicited redirects) are outside any scripted call.",
 ["dialog/dialog.go"], [("handleMessage/handleResponse/handleRequest/checkSDP", "dialog/dialog.go")])

prop("C29", "Dialog life cycle is reported faithfully",
 "The states a dialog reports follow the call: ringing or proceeding only because of the matching provisional response, answered at most once and only after a 200 to the INVITE, hangup at most once and last, after a BYE from the remote side, a 200 to our BYE, or a local hangup before any provisional response; a final failure response other than a 503 or redirect of the INVITE is reported once as an error carrying that response, whose text is its status and phrase. A response to the INVITE other than a 200 that arrives after the answer changes nothing. After a hangup or an error the dialog sends nothing more, closes its channels and sockets, and never delivers another event. Media addresses are reported exactly from the SDP of the messages of the dialog, host names looked up and those that are unknown left out.",
 ["inputs", "histories"], "sequences of symbolic messages and local hangups up to the stated length",
 "No test runs a dialog.",
 ["dialog/dialog.go"], [("transition", "dialog/dialog.go"), ("cleanup", "dialog/dialog.go"), ("handleResponse", "dialog/dialog.go")])

prop("C30", "A dialog answers messages as RFC 3261 requires",
 "A 2xx response to our INVITE is acknowledged every time it arrives until the BYE is sent, and any other final response to it likewise; an in-dialog BYE, OPTIONS or re-INVITE is answered 200, another method 405, an out-of-order request 500, a request with no hops left (or that does not say how many) 483, a request for another call 481; no response is ever sent in answer to a response, and nothing but the acknowledged state results from an ACK. Local hangup sends CANCEL for an unanswered INVITE only after a provisional response (any 1xx), and BYE for an answered one, also for one that is answered in spite of the CANCEL; a canceled call is not tried elsewhere. The ACK and BYE of a call set up through proxies follow its Record-Route set in reverse order, whether the next hop is a loose or a strict router.",
 ["inputs", "histories"], "all symbolic messages in each state and local hangup at each point",
 "No test runs a dialog.",
 ["dialog/dialog.go", "dialog/messages.go"], [("handleRequest", "dialog/dialog.go"), ("sendHangup", "dialog/dialog.go"), ("NewAck", "dialog/messages.go")])

prop("C31", "Dialog retransmits and fails over",
 "An unanswered request is sent 1 + maxResends times to each route, resendInterval milliseconds apart, and then to the next route, in order, until a response arrives or the routes are exhausted, in which case one error is reported; retransmission stops once a matching response arrives. A 503 response to the INVITE and an ICMP refusal each move on to the next untried route at once, and a redirect of the INVITE restarts the call at the address it names. Retransmissions of one attempt are the same message; each new route gets the same request, hop limit included, but with a new branch. The INVITE carries the headers and the session description it was given, and these, its Via and its Contact name the address of the socket it is sent from where the caller names none. A write that meets the refusal of an earlier packet loses what was written, which the retransmissions make up for, and nothing else; any other failure to write ends the call with one error. A 200 to a re-INVITE is likewise repeated until its own ACK (the one with its CSeq number) arrives; if none does an established call is hung up with a BYE, and the INVITE is never sent again because of it.",
 ["histories", "fault_sequences"], "all sequences of timer expiry, 503, refusal and provisional response up to the stated length, route lists up to the stated length",
 "No test runs a dialog against failing servers.",
 ["dialog/dialog.go", "dialog/route.go", "util/util.go"], [("popRoute", "dialog/dialog.go"), ("resendRequest", "dialog/dialog.go"), ("IsRefused", "util/util.go")])

prop("C32", "Generated identifiers are well formed for all random bytes",
 "Whatever bytes the random source returns, a generated tag is 12 lower-case hex digits encoding 48 of those random bits, a branch is the RFC 3261 magic cookie followed by such a tag, a Call-ID is a version-4 UUID text with all remaining digits taken from distinct random bits, a CSeq lies in 1..50000, and an SDP origin id is a decimal number below 2^32; distinct random bytes give distinct tags and branches.",
 ["inputs"], "all values of the random bytes",
 "Untested, and random sampling cannot show injectivity or range.",
 ["util/util.go"], [("GenerateTag/GenerateBranch/GenerateCallID/GenerateCSeq/GenerateOriginID", "util/util.go")])

prop("C33", "Transports send exactly the completed message to the next hop",
 "Sending a message through a transport completes it and sends exactly one datagram, from the transport's socket, to the message's next hop (at port 5060 when none is given); the datagram parses to the completed message with the hop limit of a request one lower. A message that cannot be routed, whose destination cannot be resolved or whose hop limit would drop to zero is not sent and gives an error, as does a failing socket. Opening a transport binds the host and port of the given Contact without changing it; the transport's Via and Contact name the address the socket really has, its Contact says transport=udp, what arrives on the socket comes out of its channel in order, and the end of the socket is reported once before both channels close.",
 ["inputs", "fault_sequences"], "requests and responses with arbitrary contents, all hop limits and ports, routes, unresolvable destinations and failing sockets",
 "No test opens a transport.",
 ["dialog/transport.go", "dialog/route.go"], [("NewTransport", "dialog/transport.go"), ("Transport.Send", "dialog/transport.go")])

prop("C34", "RTP sessions listen on a proper port",
 "Opening an RTP socket or session on a host without a port, by name, IPv4 or IPv6 address, listens on that host at an even port between 16384 and 32768 whatever the random numbers are; while the port is in use another one is tried, ten times in all, and any other failure ends the search at once. With a port given exactly that address is used. A failure gives an error, no session, and leaves no socket open; success gives a session whose socket is the one opened.",
 ["inputs", "fault_sequences"], "all random numbers, hosts with and without a port, every number of ports in use before a free one and every other failure",
 "The test opens one session on a free port; in-use ports and the ends of the range are not sampled.",
 ["rtp/session.go"], [("Listen", "rtp/session.go"), ("NewSession", "rtp/session.go")])

prop("C35", "With loose signalling anyone may send to the dialog",
 "With loose signalling on, a call opens one further socket, which stays the same for the whole call and whose port its Contact names; a message arriving there from any address has the same effect as one from the server at the connected socket, replies go to the server, a read error there ends the call with an error, and when the call is over both sockets are closed. Ports in use are skipped; when no such socket can be opened nothing is sent and the call ends with an error.",
 ["configurations", "inputs", "histories", "fault_sequences"], "all messages and events of the dialog model in each state, sent by the server or by anyone else, and every number of ports in use",
 "The option is off in all tests and no test runs a dialog.",
 ["dialog/dialog.go", "rtp/session.go"], [("connect/populate/cleanupCSock", "dialog/dialog.go"), ("Listen", "rtp/session.go")])

prop("C36", "A dialog ends cleanly whatever happens at the same time",
 "Whatever messages, read errors, refusals, local hangups and timer expiries coincide, also while the application is still busy with an earlier report, and in whatever order the dialog takes notice of them: it never deadlocks or panics, ends at most once and with exactly one final report, and if it carries on has answered every request that arrived on a socket still open, given up the call if told to, and answers the next request. Once it has ended its channels and sockets are closed, each socket exactly once, none of its goroutines is left, and nothing more is sent.",
 ["schedules", "inputs", "histories"], "all choices among simultaneously ready events, and all interleavings of the goroutines within the stated number of preemptions, in each dialog state with and without loose signalling",
 "Needs particular interleavings of several goroutines; no test runs a dialog.",
 ["dialog/dialog.go", "dialog/receiver.go"], [("run/cleanup/drain", "dialog/dialog.go"), ("ReceiveMessages", "dialog/receiver.go")])

prop("C37", "Tracing and time stamps leave the messages alone",
 "With message tracing on, the same messages are received, delivered, sent and refused as without it. With time stamp tagging every message received or sent has a usi parameter on its topmost Via, and on no other, whose value is the time in microseconds, and is otherwise the same; a stamp added to one message never shows up on another, and calls go on as usual.",
 ["configurations", "inputs", "histories"], "arbitrary datagrams and windows, requests and responses with any letters, and every event in each state of a call",
 "Both options are off in all tests.",
 ["dialog/trace.go", "dialog/receiver.go", "dialog/transport.go"], [("trace", "dialog/trace.go"), ("addTimestamp", "dialog/receiver.go")])
