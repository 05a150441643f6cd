#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list is easy to edit)."""
import json,os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=observe or [],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],hook_needed=hook)))
NOTEST="The root package and tcpnetwork have no tests at all; "
SDPT="The sdp tests decode and encode a few fixed files; "

prop("C01","Interleaved stream is split into exactly the messages the server sent",
 "Whatever mix of interleaved binary frames ('$', channel, 16-bit length, payload of any length) and RTSP responses (header block, blank line, body of the declared Content-Length, at most 65535 bytes altogether) a server sends, the connection delivers exactly those messages, byte for byte, in order and once each, however the transport cuts the bytes into reads. A trailing message that never completes is never delivered.",
 ["inputs","schedules"],"all message sequences, payload lengths and contents, and all ways the byte stream is chunked into reads",
 NOTEST+"message boundaries depend on every length value and every read split, which samples cannot cover.",
 ["tcpnetwork/tcpnetwork.go","rtpstreamprotocol.go"],[("unpack / read loops","tcpnetwork/tcpnetwork.go:unpack"),("frame length and end-of-header detection","rtpstreamprotocol.go:UnserializeHeader, GetContentLength")],
 ["data events handed to the connection's event handler"])
prop("C02","No received RTP frame can crash or hang the client",
 "For every interleaved frame a server can send (any channel, any length, any bytes, including truncated RTP headers and truncated or malformed H.264/H.265 payload headers), processing it finishes and the process survives. Later well-formed packets are still delivered.",
 ["inputs","histories"],"every frame content and length up to the bound, for every codec, after any earlier frame",
 NOTEST+"the failing inputs are short or inconsistent packets that no sample contains.",
 ["rtspclient.go","rtpparser.go","h264rtpparser.go","hevcrtpparser.go","markrtpparser.go","simplertpparser.go"],[("packet dispatch","rtspclient.go:parsingData, parsingRtp"),("payload header parsing","*rtpparser.go:SplitHeader, ParsingRtp"),("unit assembly","rtpparser.go:pushData")],
 ["data callback, process survival"])
prop("C03","No RTSP response text can crash the client",
 "For every byte string received as an RTSP response (any truncation, any header text, any Content-Length value including negative, huge or non-numeric), interpreting it either yields a response or an error, and never panics; the body taken from it never extends past the bytes received.",
 ["inputs"],"every response byte string up to the bound",
 NOTEST+"malformed header text is an unbounded input space.",
 ["rtspparser.go","rtpstreamprotocol.go"],[("response parsing","rtspparser.go:ParserRtspResponse"),("content length extraction","rtpstreamprotocol.go:GetContentLength")],["return value of the response parser"])
prop("C04","H.264 units are reassembled exactly",
 "Every H.264 NAL unit sent as a single-NAL packet, inside a STAP-A aggregation packet, or cut into FU-A fragments at any positions is delivered exactly once, with exactly the original bytes (including the original NAL header), when its last packet arrives. Units delivered come in sending order, and nothing else is delivered.",
 ["inputs","histories"],"every NAL header, unit content, fragmentation and sequence of units up to the bound",
 NOTEST+"the number of fragmentations and header bit patterns is far beyond sampling.",
 ["h264rtpparser.go","rtpparser.go","rtspclient.go"],[("FU-A header reconstruction","h264rtpparser.go:SplitHeader"),("fragment accumulation","rtpparser.go:pushData")],["data callback"],
 [("payloadBuf/payloadLen","bytes of the unit being assembled","rtpparser.go:RtpParser")])
prop("C05","H.265 units are reassembled exactly",
 "Every H.265 NAL unit sent as a single-NAL packet, inside an aggregation packet, or cut into fragmentation-unit packets at any positions is delivered exactly once with exactly the original bytes (both bytes of the original NAL header included). An aggregation packet yields its units separately, in order.",
 ["inputs","histories"],"every NAL header, unit size and content, fragmentation and aggregation up to the bound",
 NOTEST+"sizes that need both length bytes, and every header bit pattern, matter.",
 ["hevcrtpparser.go","rtpparser.go","rtspclient.go"],[("FU header reconstruction","hevcrtpparser.go:SplitHeader"),("aggregation unit sizes","hevcrtpparser.go:ParsingRtp")],["data callback"])
prop("C06","Channels are independent and correctly labelled",
 "Each unit delivered to the application carries the channel number of the frames it came from, and packets of one channel never change what is delivered for another channel, whatever the interleaving. Frames on channels that were not set up deliver nothing.",
 ["inputs","histories","schedules"],"every interleaving of packets of two media channels and of unknown channels up to the bound",
 NOTEST+"interleavings are combinatorial.",
 ["rtspclient.go","rtpparser.go"],[("per-channel parser lookup","rtspclient.go:parsingRtp"),("per-channel assembly buffer","rtpparser.go:newRtpParser")],["data callback"])
prop("C07","Other codecs: one unit per packet, marker-framed codec by marker bit",
 "For codecs without special packetisation every packet's payload (the bytes after the 12-byte RTP header) is delivered unchanged as one unit. For the marker-framed codec the payloads are concatenated and delivered exactly when a packet with the RTP marker bit arrives (its own payload may be empty). Where there are no bytes to deliver, nothing is delivered.",
 ["inputs","histories"],"every packet sequence up to the bound",
 NOTEST+"marker patterns over packet sequences are combinatorial.",
 ["simplertpparser.go","markrtpparser.go","rtpparser.go"],[("marker detection","markrtpparser.go:SplitHeader")],["data callback"])
prop("C08","Oversized units never overflow or corrupt the assembly buffer",
 "While a unit is being assembled its size never exceeds the 8 MiB limit: a fragment that would pass the limit causes what was assembled so far to be handed over and never crashes, and the next units are assembled as if the oversized one had not existed. Units of exactly the limit are delivered intact.",
 ["inputs","histories"],"every fill level of the assembly buffer near the limit and every fragment size near the limit",
 NOTEST+"boundary arithmetic around an 8 MiB limit.",
 ["rtpparser.go"],[("limit check","rtpparser.go:pushData")],["assembly result"])
prop("C09","RTSP responses are understood whatever their header order, case and spacing",
 "For every well-formed response the status code, the session identifier (without parameters), the body of Content-Length bytes and the authentication challenges (one per header line; scheme, realm, nonce, including values with spaces, colons or commas inside quotes, but without quotes or backslashes) are extracted exactly, independent of header order, header name case and optional white space.",
 ["inputs"],"every status code, header order, name case, spacing, session id, realm and nonce up to the bound",
 NOTEST+"responses of real servers vary without limit.",
 ["rtspparser.go"],[("header splitting","rtspparser.go:ParserRtspResponse"),("challenge parsing","rtspparser.go:parsingAuthenticate")],["parsed response"])
prop("C10","Authorization answers are computed as RFC 2617 prescribes",
 "A Digest answer names the user, realm, nonce and URI used and its response field equals MD5(MD5(user:realm:password):nonce:MD5(method:uri)); a Basic answer is the base64 of user:password. The password itself never appears in a Digest answer, and nothing is sent without a challenge.",
 ["inputs"],"every user name, password, realm, nonce, method and URI up to the bound",
 NOTEST+"an arbitrary credential is needed to separate the formula from near misses.",
 ["authenticator.go","rtsprequest.go"],[("digest/basic formula","authenticator.go:createAuthenticatorString")],["Authorization header of the request sent"])
prop("C11","Authentication challenge is answered at most once, with the strongest scheme",
 "A 401 answer to DESCRIBE is retried exactly once, and only when both user name and password are known; Digest is chosen when offered, otherwise Basic, and every later request of the session carries the authorization for its own method. Credentials given in the URL never appear in any request URI.",
 ["inputs","histories"],"every sequence of server answers, challenge sets and credential combinations",
 NOTEST+"needs server histories.",
 ["rtspclient.go","rtsprequest.go"],[("challenge handling","rtspclient.go:sendRequest"),("header insertion","rtsprequest.go:Send*")],["requests written to the transport"])
prop("C12","Request URI, host and port are derived correctly from the user's URL",
 "For every valid rtsp URL the client connects to the host and port in it (port 554 when absent, IPv6 literals included), uses the user info as credentials, and uses the URL without user info but with its path and query as request URI. Nothing from an earlier URL leaks into a later one.",
 ["inputs","histories"],"every URL of the given shape up to the bound, and every pair of successive URLs",
 NOTEST+"URL space is unbounded.",
 ["rtspclient.go"],[("URL parsing","rtspclient.go:ParsingURL")],["dialled address and request URI"])
prop("C13","Requests are well formed, numbered consecutively and carry the session",
 "Every request written is one well-formed RTSP/1.0 request (method, URI, headers each on its own line, one terminating blank line) and CSeq grows by exactly one from request to request. SETUP, PLAY, PAUSE and TEARDOWN requests after the first answered SETUP carry the session identifier the server assigned; PLAY carries Range exactly when a start time is given and Speed exactly when the speed is not 1, with those values.",
 ["inputs","histories"],"every sequence of requests, parameter values and session state up to the bound",
 NOTEST+"sequences of requests with arbitrary parameters.",
 ["rtsprequest.go"],[("request formatting","rtsprequest.go:Send*, sendRequst")],["bytes written to the transport"],
 [("cseq","next sequence number","rtsprequest.go:RtspClientContext")])
prop("C14","Never more than one request outstanding",
 "While a request is waiting for its reply, any further request is refused with an error, writes nothing and consumes no sequence number. Once the reply has been consumed (or the wait has failed) the next request is accepted again. A response that arrives while no request is outstanding neither blocks the session nor is taken for the reply to a later request.",
 ["histories"],"every sequence of request and wait operations up to the bound",
 NOTEST+"operation sequences.",
 ["rtsprequest.go","rtspclient.go"],[("pending flag","rtsprequest.go:sendRequst, rtspclient.go:WaitRtspResponse")],["error result and bytes written"])
prop("C15","Session set-up follows the protocol and reports its true outcome once",
 "Once connected, starting a session sends DESCRIBE, one SETUP per media of the description (control attribute that is an rtsp:// URL, in any case: that URL; absent or '*': the request URL; otherwise request URL, '/', control; channels 2i and 2i+1), then PLAY, each only after the previous one was answered 200. Success is returned and reported exactly when all were answered 200; otherwise an error is returned and reported, exactly one of the two events is raised, and no further request of the sequence is sent.",
 ["inputs","histories","fault_sequences"],"every status code at every step, every number of media, and disconnection or silence at every step",
 NOTEST+"each step can fail in each way.",
 ["rtspclient.go"],[("handshake","rtspclient.go:sendRequest")],["requests written, events, return value"])
prop("C16","Silence or disconnection never hangs the caller",
 "If the server stops answering or disconnects at any point, a caller waiting for a reply gets an error within a bounded time (at most a few response time-outs), the connection is closed, and the disconnect event is raised. This holds at every step of session set-up and for later requests.",
 ["fault_sequences","schedules"],"silence or disconnect at every protocol step, under every ordering of timer and network events",
 NOTEST+"needs faults at every point.",
 ["rtspclient.go","tcpnetwork/tcpnetwork.go"],[("reply wait","rtspclient.go:WaitRtspResponse"),("close","rtspclient.go:Close")],["return of the waiting call, transport closed, disconnect event"])
prop("C17","Connection events: connected first, disconnected exactly once and last",
 "Every connection reports connected once, then data, then disconnected exactly once and nothing afterwards, whatever ends it (peer close, read error, malformed data, local close, failing transport). After the disconnected event the transport is closed.",
 ["fault_sequences","schedules"],"every position of the fault in the stream, every ordering of goroutines within the bound",
 NOTEST+"life-cycle order under faults and schedules.",
 ["tcpnetwork/tcpnetwork.go"],[("life cycle","tcpnetwork/tcpnetwork.go:routineMain, close")],["event handler calls"])
prop("C18","Sent messages go out whole, once, in order, and before a local close",
 "Messages accepted for sending while connected are written to the transport completely, once and in order; messages queued before a local close are written before the transport is closed. A message sent with copy requested is not affected by later changes to the caller's buffer, and sending on a connection that is not connected neither blocks nor crashes.",
 ["inputs","histories","schedules"],"every sequence of sends and closes, message contents and goroutine orderings within the bound",
 NOTEST+"order under concurrency.",
 ["tcpnetwork/tcpnetwork.go"],[("send queue","tcpnetwork/tcpnetwork.go:sendRaw, routineSend, Close")],["bytes written to the transport"])
prop("C19","SDP media description is mapped faithfully to the media the application sees",
 "For every session description the client reports one media per m= section, in order, with media type, payload format, codec name, clock rate and channel count (of the first numeric payload format listed, from rtpmap, or the static payload table of RFC 3551; -1 where not specified), control URL, frame rate (integer part), dimensions and every format parameter name/value of the fmtp line, whether or not the parameters are separated by spaces.",
 ["inputs"],"every payload type, codec name, clock rate, channel count, control URL and fmtp parameter list up to the bound",
 NOTEST+"value ranges and separators of the description text.",
 ["sdpparser.go"],[("mapping","sdpparser.go:parsingSDP"),("fmtp","sdpparser.go:getFmtParame"),("rtpmap","sdpparser.go:getPayloadInfoForRtpmap")],["media map of the session"])
prop("C20","A hostile session description never terminates the process",
 "Whatever text a server sends as session description, the client either sets up the media it describes or reports an error for the session; it never exits or crashes the process.",
 ["inputs"],"every description text up to the bound",
 NOTEST+"arbitrary text.",
 ["sdpparser.go","sdp/decoder.go"],[("error handling","sdpparser.go:parsingSDPLine, parsingSDP")],["process survival and the returned error"])
prop("C21","SDP decoder is total: message or error, never a panic",
 "For every byte string, splitting it into lines and decoding the lines terminates with a message or an error and never panics; the same holds for every list of lines built through the API.",
 ["inputs"],"every byte string and every line list up to the bound",
 SDPT+"49 malformed samples cannot cover arbitrary text.",
 ["sdp/sdp.go","sdp/decoder.go"],[("line scanner","sdp/sdp.go:Scan, Line.Decode"),("field decoders","sdp/decoder.go:decode*")],["return values"])
prop("C22","SDP lines round-trip through text",
 "Writing any list of lines (any type character other than white space and '=', any non-empty single-line value without surrounding white space) as text and reading it back gives the same lines, with LF or CRLF line ends, blank lines or indentation in between, and whether or not a previously used line list is supplied for reuse. The input buffer may be overwritten afterwards without changing the result.",
 ["inputs","histories"],"every list of lines, type character and value up to the bound",
 SDPT+"one or two fixed lists are checked.",
 ["sdp/sdp.go"],[("writer","sdp/sdp.go:AppendTo"),("reader","sdp/sdp.go:DecodeSession, Scan, Line.Decode")],["returned lines"])
prop("C23","SDP messages round-trip through encode and decode",
 "Encoding any valid message (texts without line breaks or surrounding white space, an IPv4 address count only together with a TTL, no TTL for IPv6, whole-second times; all fields, any number of timings with repeats, zones, bandwidths, attributes, medias with their own connection, title, bandwidth, key and attributes) and decoding the result yields an equal message.",
 ["inputs"],"every combination of present/absent fields and field values up to the bound",
 SDPT+"one fixed message is encoded and one fixed text decoded; they are never composed.",
 ["sdp/encoder.go","sdp/decoder.go","sdp/fields.go"],[("encoder","sdp/encoder.go:Append"),("decoder","sdp/decoder.go:decodeSession, decodeMedia, decodeTiming")],["decoded message"])
prop("C24","SDP numeric and address fields decode to exactly the written value or an error",
 "Ports, port counts, session ids, bandwidths, versions, time-to-live and address counts decode to exactly the decimal value written in the text or are rejected; a value outside the range of its field is never silently truncated. Connection data of a media section is stored in that media, session-level data in the session, for IPv4 and IPv6.",
 ["inputs"],"every decimal text and every address form up to the bound",
 SDPT+"value ranges and section combinations are not enumerated.",
 ["sdp/decoder.go"],[("connection data","sdp/decoder.go:decodeConnectionData, decodeByte"),("numbers","sdp/decoder.go:decodeInt")],["decoded message"])
prop("C25","SDP section order is enforced",
 "A description whose lines follow the order of RFC 4566 is accepted: version, origin, name, the optional session lines, one or more time descriptions (each a timing with at most one repeat line), optional time zones after them, key, attributes, then any number of media sections. A description is rejected if it contains an unknown line type, a version, origin or name later than its place at the top, a repeat line before any timing, or a version, origin, name, URI, e-mail, phone, timing, repeat or zone line after the first media line.",
 ["inputs"],"every sequence of line types up to the bound",
 SDPT+"a handful of wrong orders are sampled.",
 ["sdp/decoder.go"],[("ordering automaton","sdp/decoder.go:isExpected")],["decode error or success"])
prop("C26","NTP time conversion is exact and reversible",
 "Converting a time of whole seconds to an NTP timestamp and back, or a timestamp to a time and back, gives the same value, zero standing for 'no time' in both directions; the timestamp is the number of seconds since 1900-01-01 UTC.",
 ["inputs"],"all representable times and all 64-bit timestamps in range",
 SDPT+"a few instants.",
 ["sdp/fields.go"],[("conversion","sdp/fields.go:TimeToNTP, NTPToTime")],["returned values"])
prop("C27","SDP numbers and durations are written exactly and read back exactly",
 "Every integer written in a field is its decimal representation; every whole-second duration written in compact or plain form reads back as the same duration, including negative zone offsets.",
 ["inputs"],"all integers and all whole-second durations in range",
 SDPT+"a few values.",
 ["sdp/fields.go","sdp/decoder.go"],[("number writer","sdp/fields.go:appendUint, appendInt"),("interval writer","sdp/fields.go:appendIntervalCompact"),("interval reader","sdp/decoder.go:decodeInterval")],["text produced, value read back"])
prop("C28","A WebSocket transport behaves as a byte stream",
 "Reading from the WebSocket transport returns the bytes of the received messages in order with none lost, invented or duplicated, whatever the message sizes and the sizes of the read buffers. Address and deadline calls return.",
 ["inputs","histories"],"every sequence of message sizes and read sizes up to the bound",
 NOTEST+"size combinations.",
 ["websocketconn.go"],[("message to stream adaption","websocketconn.go:Read")],["bytes returned by Read"])
prop("C29","Closing a session is safe at any time and announces itself to the server",
 "Closing is safe in every state (before connecting, during set-up, while playing, after disconnection, twice). Closing a connected session on which no request is outstanding first sends TEARDOWN for it, then closes the transport, and leads to exactly one disconnect event.",
 ["histories","schedules"],"every state and every sequence of close/disconnect operations within the bound",
 NOTEST+"state and order combinations.",
 ["rtspclient.go","tcpnetwork/tcpnetwork.go"],[("close","rtspclient.go:Close, tcpnetwork/tcpnetwork.go:Close")],["transport writes and close, events"])
prop("C30","A request issued right after connecting is never lost",
 "The first request of a session reaches the transport under every scheduling of the client's goroutines, and sending concurrently with a disconnect never crashes the process.",
 ["schedules"],"every goroutine schedule within the bound",
 NOTEST+"schedules.",
 ["tcpnetwork/tcpnetwork.go","rtspclient.go"],[("status publication","tcpnetwork/tcpnetwork.go:Run, routineMain"),("queue replacement on close","tcpnetwork/tcpnetwork.go:routineMain")],["bytes written to the transport"])
prop("C31","SDP fields added through the API are written exactly as RFC 4566 prescribes",
 "Each Add call on a list of SDP lines (version, origin, name, information, URI, e-mail, phone, connection, bandwidth, timing, repeat times, key, attribute, flag, media, raw line) appends exactly one line of its type, whose text is the RFC 4566 form of the given values in order: network type IN and the address type of the address where none is given, IPv6 addresses of connections in upper case, '/ttl', '/count' and '/ports' only when non-zero, 'name:value value' for attributes, the method alone for a key without a value. Lines already in the list keep their text, whether the list is new or an emptied one is reused. The list as text is its 'type=value' lines.",
 ["inputs","histories"],"all field values and all sequences of Add calls up to the bound",
 SDPT+"the texts of a few fixed calls.",
 ["sdp/fields.go","sdp/sdp.go"],[("field writers","sdp/fields.go:Add*"),("line list","sdp/sdp.go:AppendTo, append")],["lines of the Session, its text"])
prop("C32","Attributes, flags and times are looked up as they were added",
 "After any sequence of AddAttribute and AddFlag on a message or a media, Attribute and Value give the first value added under exactly that name (empty if none), Values all of them in the order added, and Flag whether the name is present; sections do not see each other's attributes. The same holds after the message has been encoded and decoded. Start and End of a message are those of its first timing, the zero time if it has none.",
 ["inputs","histories"],"all names, values and sequences of additions and queries up to the bound",
 SDPT+"one attribute of a fixed file.",
 ["sdp/decoder.go","sdp/encoder.go"],[("attribute table","sdp/decoder.go:addAttribute, Attributes.Value, Values, Flag"),("decoding of attributes","sdp/decoder.go:decodeAttribute"),("times","sdp/decoder.go:Start, End")],["results of the lookups"])
prop("C33","Equality and emptiness of SDP values",
 "Equal of lines, lists of lines, origins, connection data and encryption keys is true exactly when all their fields are equal (an IPv4 address being the same in its 4 and 16 byte form) and is symmetric; Blank is true exactly for the empty connection data and key.",
 ["inputs"],"all pairs of values up to the bound",
 SDPT+"one pair per field.",
 ["sdp/sdp.go","sdp/fields.go","sdp/decoder.go"],[("comparison","sdp/sdp.go:Equal, sdp/fields.go:Equal, Blank, sdp/decoder.go:Equal, Blank")],["returned values"])
prop("C34","A session object that was used before behaves like a new one",
 "Whatever happened to a session object before (connection refused, set-up failed or unanswered at any step, playing ended by the server, an error or Close at any point of a unit, requests without an answer, authorization accepted or refused), once its connection has ended, starting it again gives the same requests (but for the sequence numbers, which go on consecutively), results, events, medias and units as a new object would. Nothing of an earlier connection that is still on its way - responses, packets - is taken for something of the new one.",
 ["histories","schedules","inputs"],"all histories, server behaviours and frames within the bound, and all schedules of what is left of the earlier connection",
 NOTEST+"combinations of histories with what follows.",
 ["rtspclient.go","rtsprequest.go"],[("state of a connection","rtspclient.go:SetConnection, sendRequest"),("events of a connection","rtspclient.go:HandleConn, parsingRtsp, parsingRtp")],["requests, results, events, units, RtpMediaMap"])
prop("C35","Sessions of one process do not affect each other",
 "Two session objects used at the same time, whatever their servers do and however their set-ups, frames and ends interleave, each send the requests (numbers, session identifiers, credentials), return the results, raise the events and deliver the units that they would alone; each unit names its own session.",
 ["histories","inputs"],"all interleavings of the steps of two sessions within the bound",
 NOTEST+"combinations.",
 ["rtspclient.go","rtsprequest.go","rtpparser.go","tcpnetwork/tcpnetwork.go"],[("state of a session","rtspclient.go:RtspClientSession"),("assembly state","rtpparser.go:RtpParser")],["requests, results, events, units of each session"])
prop("C36","Delivered bytes belong to the application",
 "The bytes of a unit delivered to the application and of a message given to the handler of a connection never change after they were handed over; and whatever the receiver does with them (changing them, appending to them, using their whole capacity), every later unit and message is delivered as if it had not.",
 ["inputs","histories"],"all packets, messages and uses within the bound",
 NOTEST+"applications that keep or change what they get.",
 ["rtpparser.go","rtspclient.go","h264rtpparser.go","hevcrtpparser.go","tcpnetwork/tcpnetwork.go"],[("hand-over of a unit","rtpparser.go:pushData"),("hand-over of a message","tcpnetwork/tcpnetwork.go:unpack, routineRead")],["bytes of units and messages when delivered and later"])
prop("C37","A connected session is not started again",
 "While a session is connected (playing, being set up, refused by the server but not closed, waiting for an answer), Play and PlayUseWebsocket are refused with an error at once, whatever the URL: they connect to nothing, raise no event, and the session goes on exactly as without them (its requests with their URI, session identifier and authorization, its answers, units and end).",
 ["histories","inputs"],"all states, calls and URLs within the bound",
 NOTEST+"misuse.",
 ["rtspclient.go"],[("refusal","rtspclient.go:Play, PlayUseWebsocket"),("what a start resets","rtspclient.go:ParsingURL, SetConnection")],["result and time of the call, connections made, requests, events, units"])
prop("C38","Nothing keeps running after the end of a session",
 "Once a session or a connection has ended or could not be started (refused connection, failed or unanswered set-up, Close, end by the server, read or write errors, malformed data, a peer that does not read), its transport is closed and every goroutine the client started for it ends within a bounded time, even if the application's handler was busy, messages were still on their way or queued, or other goroutines were calling; so also after any number of sessions.",
 ["histories","schedules","faults"],"all histories, faults and schedules within the bound",
 NOTEST+"goroutines left behind.",
 ["rtspclient.go","tcpnetwork/tcpnetwork.go","websocketconn.go"],[("goroutine of a session","rtspclient.go:handleConn"),("goroutines of a connection","tcpnetwork/tcpnetwork.go:routineMain, routineSend"),("waiting","rtspclient.go:WaitRtspResponse; tcpnetwork/tcpnetwork.go:sendRaw, Close")],["number of goroutines after the end, transport closed"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
