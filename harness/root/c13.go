package rtspclient

import (
	"strings"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

//vh:use commonauth

// c13Check looks at requests as a server does.
type c13Check struct {
	seq     int // last sequence number, -1 before the first
	session string
}

// c13Number returns the value of the decimal text.
func c13Number(s string) int {
	n, neg := 0, false
	if s != "" && s[0] == '-' {
		s, neg = s[1:], true
	}
	vsym.Assert(s != "" && len(s) < 12, "not a number")
	for i := 0; i < len(s); i++ {
		c := s[i]
		vsym.Assert(c >= '0' && c <= '9', "not a number")
		n = n*10 + int(c-'0')
	}
	if neg {
		return -n
	}
	return n
}

// c13Decimal returns the value of a decimal text that may have a fraction of
// zeros.
func c13Decimal(s string) int {
	if i := strings.Index(s, "."); i >= 0 {
		vsym.Assert(i+1 < len(s) && strings.Trim(s[i+1:], "0") == "", "not a whole number")
		s = s[:i]
	}
	return c13Number(s)
}

// request checks one request: its form, its number and its session.
func (c *c13Check) request(req, method, uri string) {
	vsym.Assert(strings.HasSuffix(req, "\r\n\r\n"), "request without a terminating blank line")
	lines := strings.Split(req[:len(req)-4], "\r\n")
	vsym.Assert(lines[0] == method+" "+uri+" RTSP/1.0", "wrong request line")
	for _, l := range lines[1:] {
		k := strings.Index(l, ":")
		vsym.Assert(k > 0, "line that is no header")
		for i := 0; i < len(l); i++ {
			b := l[i]
			vsym.Assert(b >= ' ' && b < 127, "line break or control character within a line")
			if i < k {
				vsym.Assert(b > ' ' && b != '/' && b != '"' && b != ',' && b != ';' && b != '=', "header name that is no token")
			}
		}
	}
	n := vhHeader(req, "CSeq")
	vsym.Assert(len(n) == 1, "not one sequence number")
	seq := c13Number(n[0])
	vsym.Assert(c.seq < 0 || seq == c.seq+1, "sequence number does not grow by one")
	c.seq = seq
	h := vhHeader(req, "Session")
	if method == "DESCRIBE" {
		vsym.Assert(len(h) == 0 || len(h) == 1 && c.session != "" && h[0] == c.session, "wrong session")
		return
	}
	if c.session == "" {
		vsym.Assert(len(h) == 0, "session before one was assigned")
	} else {
		vsym.Assert(len(h) == 1 && h[0] == c.session, "request without its session")
	}
}

// c13Token is a session identifier.
func c13Token(name string, n int) string {
	b := vsym.Str(name, n)
	for i := 0; i < n; i++ {
		c := b[i]
		vsym.Assume(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_' || c == '.' || c == '+' || c == '$')
	}
	return b
}

// c13Play establishes a session with the given number of medias.
func (c *c13Check) play(s *RtspClientSession, medias int, id, params string, auth bool) *vhServer {
	c.session = ""
	names := []string{"VP8", "H264", "H265"}[:medias]
	plain := vhAnswer(vhSDP(names...))
	want := []string{"DESCRIBE"}
	if auth {
		want = append(want, "DESCRIBE")
	}
	for i := 0; i < medias; i++ {
		want = append(want, "SETUP")
	}
	want = append(want, "PLAY")
	srv := vhNewServer(func(i int, req string) string {
		if i >= len(want) {
			return "" // checked and answered by the caller
		}
		uri := "rtsp://h/p"
		if want[i] == "SETUP" {
			uri += "/t" + vhItoa(i-len(want)+1+medias)
		}
		c.request(req, want[i], uri)
		switch {
		case auth && i == 0:
			return "RTSP/1.0 401 Unauthorized\r\nCSeq: " + vhHeader(req, "CSeq")[0] + "\r\nWWW-Authenticate: Basic realm=\"r\"\r\n\r\n"
		case want[i] == "SETUP":
			vsym.Assert(len(vhHeader(req, "Transport")) == 1, "SETUP without transport")
			c.session = id
			return vhOK(req, "Session: "+id+params+"\r\n", "")
		case want[i] == "PLAY":
			vsym.Assert(len(vhHeader(req, "Range")) == 0, "range without a start time")
			vsym.Assert(len(vhHeader(req, "Speed")) == 0, "speed header for normal speed")
		}
		return plain(i, req)
	})
	u := "rtsp://h/p"
	if auth {
		u = "rtsp://u:w@h/p"
	}
	vsym.Assert(s.ParsingURL(u) == nil, "valid URL refused")
	vsym.Assert(s.SetConnection(srv.conn) == nil, "session not established by an accepting server")
	vsym.Assert(len(srv.reqs) == len(want), "wrong number of requests")
	return srv
}

// op sends one request, checks and answers it.
func (c *c13Check) op(s *RtspClientSession, srv *vhServer, k int, any bool) {
	var err error
	method, uri := "", "rtsp://h/p"
	start, speed := 0, 1
	n := len(srv.reqs)
	switch k {
	case 0:
		method = "DESCRIBE"
		err = s.SendDescribe()
	case 1:
		method = "PAUSE"
		err = s.SendPause()
	case 2:
		method = "PLAY"
		if any {
			start, speed = vsym.Int("start"), vsym.Int("speed")
		} else {
			start, speed = 7*vsym.Choose("late", 0, 1), 1+2*vsym.Choose("fast", 0, 1)
		}
		vsym.Assume(start >= 0 && start < 100000+2000000000*vsym.Tier())
		vsym.Assume(speed > -100 && speed < 1000+16700000*vsym.Tier())
			// and far from zero
			switch vsym.Choose("large", 0, 3) {
			case 1:
				speed = 1<<24 + 1
			case 2:
				start, speed = 1<<31-1, 1<<31-1
			case 3:
				start, speed = 1<<24+1, -1<<31
			}
		err = s.SendPlay(start, speed)
	case 3:
		method = "SETUP"
		uri = "rtsp://h/" + c12ish(2)
		err = s.SendTcpSetup(uri, 2*n, 2*n+1)
	case 4:
		method = "TEARDOWN"
		err = s.SendTeardown()
	}
	vsym.Assert(err == nil, "request refused")
	vsym.Quiesce()
	vsym.Assert(len(srv.reqs) == n+1 && srv.acc == "", "not one request written")
	req := srv.reqs[n]
	c.request(req, method, uri)
	if method == "SETUP" {
		t := vhHeader(req, "Transport")
		vsym.Assert(len(t) == 1 && strings.Contains(t[0], "interleaved="+vhItoa(2*n)+"-"+vhItoa(2*n+1)), "wrong channels")
	}
	r, sp := vhHeader(req, "Range"), vhHeader(req, "Speed")
	if start == 0 {
		vsym.Assert(len(r) == 0, "range without a start time")
	} else {
		vsym.Assert(len(r) == 1 && strings.HasPrefix(r[0], "npt=") && strings.HasSuffix(r[0], "-"), "no range for a start time")
		vsym.Assert(c13Decimal(r[0][4:len(r[0])-1]) == start, "wrong start time")
		vsym.Reach("start")
	}
	if speed == 1 {
		vsym.Assert(len(sp) == 0, "speed header for normal speed")
	} else {
		vsym.Assert(len(sp) == 1, "no speed header")
		vsym.Assert(c13Decimal(sp[0]) == speed, "wrong speed")
		vsym.Reach("speed")
	}
	srv.conn.Feed([]byte(vhOK(req, "", "")))
	resp, err := s.WaitRtspResponse()
	vsym.Assert(err == nil && resp != nil && resp.Status == 200, "reply lost")
}

func c12ish(n int) string {
	b := vsym.Str("track", n)
	for i := 0; i < n; i++ {
		vsym.Assume(b[i] > ' ' && b[i] < 127)
	}
	return b
}

// Requests of the set-up of one session after another.
//
// vh:bound two sessions on one client, one after the other, 1..3 medias each, with and without authorization; session identifier of 1..3 (thorough 6) arbitrary characters with and without parameters
// vh:reach done
func VH_C13_SetUp() {
	app := &vhApp{}
	s := app.session()
	c := &c13Check{seq: -1}
	for k := 0; k < 2; k++ {
		id := c13Token("id", vsym.Choose("idlen", 1, 3+3*vsym.Tier()))
		srv := c.play(s, vsym.Choose("medias", 1, 3), id, []string{"", ";timeout=60"}[vsym.Choose("params", 0, 1)], vsym.Choose("auth", 0, 1) == 1)
		vsym.Quiesce()
		vsym.Assert(srv.acc == "", "incomplete request")
		srv.conn.Hangup()
		vsym.Quiesce()
	}
	vsym.Reach("done")
}

// Requests of a session that plays.
//
// vh:bound every sequence of 2 (thorough 3) requests among DESCRIBE, PAUSE, PLAY, SETUP, TEARDOWN on a session with 1 media, with and without authorization; start time and speed of the last PLAY 0..99999 (thorough 0..2000099999) and -99..999 (16700999), or one of three large ones, else 0 or 7 and 1 or 3; 2 arbitrary characters in the URI of SETUP, session identifier of 2 arbitrary characters
// vh:reach start speed done
func VH_C13_Playing() {
	app := &vhApp{}
	s := app.session()
	c := &c13Check{seq: -1}
	srv := c.play(s, 1, c13Token("id", 2), "", vsym.Choose("auth", 0, 1) == 1)
	for k := 0; k < 2+vsym.Tier(); k++ {
		c.op(s, srv, vsym.Choose("op", 0, 4), k == 1+vsym.Tier())
	}
	vsym.Reach("done")
}

// A client whose sequence number has many digits.
//
// vh:bound 300 requests in a row (thorough 1000), the last one any of the five
// vh:reach done
func VH_C13_Many() {
	app := &vhApp{}
	s := app.session()
	c := &c13Check{seq: -1}
	srv := c.play(s, 1, "7", "", false)
	for k := 0; k < 296+700*vsym.Tier(); k++ {
		c.op(s, srv, 1, false)
	}
	c.op(s, srv, vsym.Choose("op", 0, 4), true)
	vsym.Reach("done")
}

// Long session identifiers, many medias.
//
// vh:bound a session identifier of 8..1000 characters (9 lengths, one arbitrary), with 0..20 parameters; 9, 17 and 33 medias; all five requests afterwards
// vh:reach done
// vh:opt steps=40000000
func VH_C13_Long() {
	app := &vhApp{}
	s := app.session()
	c := &c13Check{seq: -1}
	k := vsym.Choose("n", 0, 8)
	id := strings.Repeat("a", []int{8, 15, 16, 17, 32, 64, 128, 256, 1000}[k]-1) + c13Token("id", 1)
	par := strings.Repeat(";x=y", 20*(k%2))
	medias := []int{9, 17, 33}[k%3]
	sdp := "v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=x\r\nt=0 0\r\n"
	for i := 0; i < medias; i++ {
		sdp += "m=audio 0 RTP/AVP 0\r\na=control:t" + vhItoa(i) + "\r\n"
	}
	setup := true
	srv := vhNewServer(func(i int, req string) string {
		if !setup {
			return ""
		}
		switch {
		case i == 0:
			c.request(req, "DESCRIBE", "rtsp://h/p")
			return vhOK(req, "Content-Type: application/sdp\r\n", sdp)
		case i <= medias:
			c.request(req, "SETUP", "rtsp://h/p/t"+vhItoa(i-1))
			c.session = id
			return vhOK(req, "Session: "+id+par+"\r\n", "")
		}
		c.request(req, "PLAY", "rtsp://h/p")
		return vhOK(req, "", "")
	})
	vsym.Assert(s.ParsingURL("rtsp://h/p") == nil, "valid URL refused")
	vsym.Assert(s.SetConnection(srv.conn) == nil, "session not established by an accepting server")
	vsym.Assert(len(srv.reqs) == medias+2, "wrong number of requests")
	setup = false
	for k := 0; k < 5; k++ {
		c.op(s, srv, k, false)
	}
	vsym.Reach("done")
}
