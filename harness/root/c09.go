package rtspclient

import (
	"strings"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

//vh:use commonauth

// c09Name spells a header name in some mix of upper and lower case.
func c09Name(style int, name string) string {
	switch style {
	case 1:
		return strings.ToLower(name)
	case 2:
		return strings.ToUpper(name)
	case 3:
		b := []byte(name)
		n := 0
		for i := range b {
			l := b[i] | 0x20
			if l >= 'a' && l <= 'z' && (i < 2 || i == len(b)-1) {
				n++
				if vsym.Bool("upper") {
					b[i] = l &^ 0x20
				} else {
					b[i] = l
				}
			}
		}
		return string(b)
	}
	return name
}

// c09Field writes one header line.
func c09Field(name, value string) string {
	style := vsym.Choose("case", 0, 3)
	space, trail := (style+1)%5, style%3
	if vsym.Tier() > 0 {
		space, trail = vsym.Choose("space", 0, 4), vsym.Choose("trail", 0, 2)
	}
	return c09Name(style, name) + ":" + []string{"", " ", "  ", "\t", " \t "}[space] + value + []string{"", " ", "\t"}[trail] + "\r\n"
}

var c09others = []string{
	"Server: X/1.0 (a:b)\r\n",
	"X-Session: 99\r\nX-Content-Length: 1\r\n",
	"RTP-Info: url=rtsp://h:554/p/t0;seq=1;rtptime=2, url=rtsp://h/p/t1\r\n",
	"Date: Tue, 15 Nov 1994 08:12:31 GMT\r\nCache-Control: no-cache\r\nSession-Id: 98\r\nContent-Length-Hint: 2\r\nWWW-Authenticate-Info: Digest realm=\"i\", nonce=\"i\"\r\n",
	"SessionX: 97\r\nOld-Session:96\r\nContent-Lengths: 3\r\nContent-Le: 4\r\nSess: 95\r\nProxy-WWW-Authenticate: Digest realm=\"i\", nonce=\"i\"\r\nContent: Content-Length: 7\r\nX: Session: 94\r\n",
}

// c09Response is a response with the header line at some place among others.
func c09Response(req, status, field, body string) string {
	order := vsym.Choose("order", 0, 4)
	o := c09others[order]
	cseq := ""
	if c := vhHeader(req, "CSeq"); len(c) == 1 {
		cseq = "CSeq: " + c[0] + "\r\n"
	}
	s := "RTSP/1.0 " + status + "\r\n"
	switch order {
	case 0:
		s += cseq + o + field
	case 1:
		s += field + cseq + o
	case 2:
		s += o + field + cseq
	case 3:
		s += cseq + field + o
	case 4:
		s += o + field + o + cseq
	}
	return s + "\r\n" + body
}

// The status code.
//
// vh:bound every status code 100..999, four reason phrases, in five lists of other headers
// vh:reach status
func VH_C09_Status() {
	_, s, srv := vhPlaying("VP8")
	var code int
	old := srv.reply
	srv.reply = func(i int, req string) string {
		if vhMethod(req) != "PAUSE" {
			return old(i, req)
		}
		d := vsym.Str("digits", 3)
		code = 0
		for j := 0; j < 3; j++ {
			vsym.Assume(d[j] >= '0' && d[j] <= '9')
			code = code*10 + int(d[j]-'0')
		}
		vsym.Assume(d[0] != '0')
		return c09Response(req, d+[]string{" ", " OK", " Not 404 Found", " No: 123"}[vsym.Choose("reason", 0, 3)], "", "")
	}
	vsym.Assert(s.SendPause() == nil, "request refused")
	r, err := s.WaitRtspResponse()
	vsym.Assert(err == nil, "well-formed response not understood")
	vsym.Assert(r.Status == code, "wrong status code")
	vsym.Reach("status")
}

// The session identifier.
//
// vh:bound session identifiers of 1..3 (thorough 5) token characters, with or without parameters; header name and spacing in any of 4 styles (one with 3 letters of any case; thorough: with every combination of 5 spacings before and 3 after the value), 5 places among other headers, some with similar names
// vh:reach session
// vh:opt paths=3000000
func VH_C09_Session() {
	app := &vhApp{}
	s := app.session()
	id := vhToken("id", vsym.Choose("len", 1, 3+2*vsym.Tier()))
	par := []string{"", ";timeout=60", " ; timeout = 60", ";timeout=60;x=\"a:b\""}[vsym.Choose("par", 0, 3)]
	old := vhAnswer(vhSDP("VP8"))
	srv := vhNewServer(func(i int, req string) string {
		if vhMethod(req) == "SETUP" {
			return c09Response(req, "200 OK", c09Field("Session", id+par), "")
		}
		return old(i, req)
	})
	vsym.Assert(s.ParsingURL("rtsp://h/p") == nil, "valid URL refused")
	vsym.Assert(s.SetConnection(srv.conn) == nil, "session not established")
	vsym.Assert(len(srv.reqs) == 3, "wrong number of requests")
	h := vhHeader(srv.reqs[2], "Session")
	vsym.Assert(len(h) == 1 && h[0] == id, "session identifier not extracted")
	vsym.Reach("session")
}

// The body.
//
// vh:bound a description of one or two medias, or one with empty lines, with a control attribute of 1..2 (thorough 4) token characters; Content-Length in all styles and places as above, with up to two leading zeros
// vh:reach body
// vh:opt paths=3000000
func VH_C09_Body() {
	app := &vhApp{}
	s := app.session()
	ctl := vhToken("control", vsym.Choose("len", 1, 2+2*vsym.Tier()))
	codecs := [][]string{{"VP8"}, {"H264", "VP8"}}[vsym.Choose("medias", 0, 1)]
	sdp := vhSDP(codecs...)
	sdp = strings.Replace(sdp, "a=control:t0", "a=control:"+ctl, 1)
	if vsym.Choose("blank", 0, 1) == 1 {
		sdp = strings.Replace(sdp, "m=", "\r\n\r\nm=", 1)
	}
	old := vhAnswer("")
	srv := vhNewServer(func(i int, req string) string {
		if vhMethod(req) == "DESCRIBE" {
			return c09Response(req, "200 OK", c09Field("Content-Length", []string{"", "0", "00"}[vsym.Choose("zeros", 0, 2)]+vhItoa(len(sdp)))+"Content-Type: application/sdp\r\n", sdp)
		}
		return old(i, req)
	})
	vsym.Assert(s.ParsingURL("rtsp://h/p") == nil, "valid URL refused")
	vsym.Assert(s.SetConnection(srv.conn) == nil, "session not established")
	vsym.Assert(len(s.RtpMediaMap) == len(codecs), "wrong number of medias")
	vsym.Assert(s.RtpMediaMap[0].TrackURL == ctl, "body damaged")
	vsym.Assert(s.RtpMediaMap[2*(len(codecs)-1)].CodecName == "VP8", "end of the body damaged")
	vsym.Reach("body")
}

// c09Challenge asks for authorization and returns what the client answers.
func c09Challenge(fields func(req string) string) string {
	app := &vhApp{}
	s := app.session()
	old := vhAnswer(vhSDP("VP8"))
	srv := vhNewServer(func(i int, req string) string {
		if i == 0 {
			return c09Response(req, "401 Unauthorized", fields(req), "")
		}
		return old(i, req)
	})
	vsym.Assert(s.ParsingURL("rtsp://us:pw@h/p") == nil, "valid URL refused")
	vsym.Assert(s.SetConnection(srv.conn) == nil, "session not established")
	vsym.Assert(len(srv.reqs) == 4 && vhMethod(srv.reqs[1]) == "DESCRIBE", "challenge not answered")
	h := vhHeader(srv.reqs[1], "Authorization")
	vsym.Assert(len(h) == 1, "no authorization")
	return h[0]
}

// c09Answer checks the realm and nonce of a digest answer, and that it is a digest answer.
func c09Answer(h, realm, nonce string) {
	vsym.Assert(strings.HasPrefix(h, "Digest "), "digest challenge not answered")
	want := `realm="` + realm + `", nonce="` + nonce + `"`
	i := strings.Index(h, `realm="`)
	vsym.Assert(i >= 0 && strings.HasPrefix(h[i:], want), "realm or nonce of the challenge not extracted")
}

// Challenges in any order with any values.
//
// vh:bound realm and nonce of 0..2 (thorough 3) printable characters other than quote and backslash; realm first or nonce first, with and without spaces after commas, around six other parameters; scheme in any of 3 cases
// vh:reach digest
// vh:opt paths=3000000
func VH_C09_Digest() {
	k := vsym.Choose("len", 0, 2+vsym.Tier())
	realm := vhQuoted("realm", k)
	nonce := vhQuoted("nonce", 2+vsym.Tier()-k)
	scheme := []string{"Digest", "digest", "DIGEST"}[k%3]
	style := vsym.Choose("sep", 0, 3)
	sep := []string{", ", ",", " , ", ",\t"}[style]
	rn := []string{`realm="`, `Realm="`, `REALM="`, `realm = "`}[style]
	p := []string{rn + realm + `"`, `nonce="` + nonce + `"`}
	if vsym.Choose("swap", 0, 1) == 1 {
		p[0], p[1] = p[1], p[0]
	}
	x := []string{`algorithm=MD5`, `opaque="nonce=1, realm=2"`, `domain="rtsp://h/p"`, `stale=FALSE`, `qop="auth,auth-int"`, `x="realm="`}[vsym.Choose("extra", 0, 5)]
	var l []string
	switch vsym.Choose("where", 1, 3) {
	case 1:
		l = []string{x, p[0], p[1]}
	case 2:
		l = []string{p[0], x, p[1]}
	case 3:
		l = []string{p[0], p[1], x}
	}
	h := c09Challenge(func(req string) string {
		return "WWW-Authenticate: " + scheme + " " + strings.Join(l, sep) + "\r\n"
	})
	c09Answer(h, realm, nonce)
	vsym.Reach("digest")
}

// Several challenges, one per header line, and header spelling.
//
// vh:bound a Digest challenge (nonce of 1 (thorough 2) printable characters), alone or before or after a Basic or an unknown one; header name and spacing in all styles as above
// vh:reach several
// vh:opt paths=3000000
func VH_C09_Several() {
	nonce := vhQuoted("nonce", vsym.Choose("len", 1, 1+vsym.Tier()))
	d := c09Field("WWW-Authenticate", `Digest realm="r", nonce="`+nonce+`"`)
	o := []string{"", "WWW-Authenticate: Basic realm=\"b\"\r\n", "WWW-Authenticate: Negotiate\r\n", "WWW-Authenticate: Bearer realm=\"nonce\", nonce=\"x\"\r\n"}[vsym.Choose("other", 0, 3)]
	first := vsym.Choose("first", 0, 1) == 1
	h := c09Challenge(func(req string) string {
		if first {
			return o + d
		}
		return d + o
	})
	c09Answer(h, "r", nonce)
	vsym.Reach("several")
}

// Session, length, challenge and other headers in one response, in every order.
//
// vh:bound a 401 answer to DESCRIBE and a 200 answer to SETUP with a body of 3 arbitrary bytes (or "RTS", or an empty line), and with session (2 token characters), content length, challenge (nonce of 1 printable character) and another header line in all 24 orders
// vh:reach all
// vh:opt paths=3000000
func VH_C09_Order() {
	app := &vhApp{}
	s := app.session()
	id := vhToken("id", 2)
	nonce := vhQuoted("nonce", 1)
	body := []string{"", "RTS", "\r\n\r"}[vsym.Choose("body", 0, 2)]
	if body == "" {
		body = vsym.Str("bytes", 3)
	}
	lines := func(f ...string) string {
		r := ""
		for len(f) > 0 {
			k := vsym.Choose("next", 0, len(f)-1)
			r += f[k]
			f = append(append([]string{}, f[:k]...), f[k+1:]...)
		}
		return r
	}
	at := vsym.Choose("at", 0, 1)
	old := vhAnswer(vhSDP("VP8"))
	srv := vhNewServer(func(i int, req string) string {
		switch i {
		case 0:
			l := "WWW-Authenticate: Digest realm=\"r\", nonce=\"" + nonce + "\"\r\n"
			if at == 0 {
				l = lines(l, "Session: x\r\n", "Content-Length: 3\r\n", "Content-Type: text/html\r\n") + "\r\n" + body
			} else {
				l += "\r\n"
			}
			return "RTSP/1.0 401 No\r\n" + l
		case 2:
			l := "Session: " + id + ";timeout=3\r\n"
			if at == 1 {
				l = lines(l, "Content-Length: 3\r\n", "WWW-Authenticate: Basic realm=\"r\"\r\n", "Transport: RTP/AVP/TCP;interleaved=0-1\r\n") + "\r\n" + body
			} else {
				l += "\r\n"
			}
			return "RTSP/1.0 200 OK\r\n" + l
		}
		return old(i, req)
	})
	vsym.Assert(s.ParsingURL("rtsp://us:pw@h/p") == nil, "valid URL refused")
	vsym.Assert(s.SetConnection(srv.conn) == nil, "session not established")
	vsym.Assert(len(srv.reqs) == 4, "wrong number of requests")
	h := vhHeader(srv.reqs[1], "Authorization")
	vsym.Assert(len(h) == 1, "no authorization")
	c09Answer(h[0], "r", nonce)
	h = vhHeader(srv.reqs[3], "Session")
	vsym.Assert(len(h) == 1 && h[0] == id, "session identifier not extracted")
	vsym.Reach("all")
}

// c09Long is a text of n characters, the first, middle and last of which are arbitrary.
func c09Long(n int, sym func(name string, n int) string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"[(i*7+n)%64]
	}
	m := sym("some", 3)
	b[0], b[n/2], b[n-1] = m[0], m[1], m[2]
	return string(b)
}

var c09lens = []int{4, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1024, 1025, 2000, 4095, 4096, 4097}

// Long session identifiers, realms and nonces.
//
// vh:bound a session identifier, a realm or a nonce of each of 29 lengths from 4 to 4097 characters of which three are arbitrary, and challenges and sessions with 0..40 parameters around them
// vh:reach long
// vh:opt paths=3000000
func VH_C09_Long() {
	n := c09lens[vsym.Choose("n", 0, len(c09lens)-1)]
	id, realm, nonce := "0123abcd", "r", "n"
	k := 0
	switch vsym.Choose("what", 0, 3) {
	case 0:
		id = c09Long(n, vhToken)
	case 1:
		realm = c09Long(n, vhQuoted)
	case 2:
		nonce = c09Long(n, vhQuoted)
	case 3:
		k = n % 41
	}
	app := &vhApp{}
	s := app.session()
	old := vhAnswer(vhSDP("VP8"))
	srv := vhNewServer(func(i int, req string) string {
		if i == 0 {
			h := "WWW-Authenticate: Digest "
			for j := 0; j < k; j++ {
				h += "x" + vhItoa(j) + "=\"" + vhItoa(j) + "\", "
			}
			h += "realm=\"" + realm + "\", "
			for j := 0; j < k; j++ {
				h += "y" + vhItoa(j) + "=" + vhItoa(j) + ", "
			}
			return "RTSP/1.0 401 Unauthorized\r\n" + h + "nonce=\"" + nonce + "\"\r\n\r\n"
		}
		if vhMethod(req) == "SETUP" {
			h := "Session: " + id
			for j := 0; j < k; j++ {
				h += ";x" + vhItoa(j) + "=" + vhItoa(j)
			}
			return vhOK(req, h+"\r\n", "")
		}
		return old(i, req)
	})
	vsym.Assert(s.ParsingURL("rtsp://us:pw@h/p") == nil, "valid URL refused")
	vsym.Assert(s.SetConnection(srv.conn) == nil, "session not established")
	vsym.Assert(len(srv.reqs) == 4, "wrong number of requests")
	h := vhHeader(srv.reqs[1], "Authorization")
	vsym.Assert(len(h) == 1, "no authorization")
	c09Answer(h[0], realm, nonce)
	h = vhHeader(srv.reqs[3], "Session")
	vsym.Assert(len(h) == 1 && h[0] == id, "session identifier not extracted")
	vsym.Reach("long")
}

// Many header lines, long ones, and long bodies.
//
// vh:bound a response to DESCRIBE with 0..200 (12 numbers) other header lines before and after the length, with a header line of each of 29 lengths from 4 to 4097, or with a body of 200..65000 bytes (10 lengths), two bytes of the description being arbitrary
// vh:reach many
// vh:opt paths=3000000
func VH_C09_Many() {
	app := &vhApp{}
	s := app.session()
	ctl := vhToken("control", 2)
	sdp := strings.Replace(vhSDP("H264", "VP8"), "a=control:t1", "a=control:"+ctl, 1)
	before, after := "", ""
	switch vsym.Choose("what", 0, 2) {
	case 0:
		n := []int{1, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 200}[vsym.Choose("n", 0, 11)]
		for i := 0; i < n; i++ {
			before += "X-B" + vhItoa(i) + ": " + vhItoa(i) + "\r\n"
			after += "X-A" + vhItoa(i) + ": " + vhItoa(i) + "\r\n"
		}
	case 1:
		before = "X-Long: " + strings.Repeat("x:y ", c09lens[vsym.Choose("n", 0, len(c09lens)-1)]/4) + "\r\n"
	case 2:
		n := []int{250, 255, 256, 257, 511, 512, 1000, 4096, 30000, 65000}[vsym.Choose("n", 0, 9)]
		for len(sdp) < n {
			l := "a=x:" + strings.Repeat("y", (n-len(sdp)-6+200)%200+1) + "\r\n"
			if len(sdp)+len(l) > n {
				break
			}
			sdp = strings.Replace(sdp, "t=0 0\r\n", "t=0 0\r\n"+l, 1)
		}
	}
	old := vhAnswer("")
	srv := vhNewServer(func(i int, req string) string {
		if vhMethod(req) == "DESCRIBE" {
			return "RTSP/1.0 200 OK\r\n" + before + "Content-Length: " + vhItoa(len(sdp)) + "\r\n" + after + "\r\n" + sdp
		}
		return old(i, req)
	})
	vsym.Assert(s.ParsingURL("rtsp://h/p") == nil, "valid URL refused")
	vsym.Assert(s.SetConnection(srv.conn) == nil, "session not established")
	vsym.Assert(len(s.RtpMediaMap) == 2, "wrong number of medias")
	vsym.Assert(s.RtpMediaMap[2].TrackURL == ctl, "body damaged")
	vsym.Reach("many")
}
