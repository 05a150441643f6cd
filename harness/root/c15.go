package rtspclient

import (
	"errors"
	"net"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

// c15Control is the control attribute of a media, and the URI it stands for.
func c15Control(i, n int, base string) (string, string) {
	if n == 0 {
		k := vsym.Choose("fixed", 0, 3)
		return []string{"", "a=control:*\r\n", "a=control:t/1\r\n", "a=control:rtsp://x/y?z\r\n"}[k], []string{base, base, base + "/t/1", "rtsp://x/y?z"}[k]
	}
	text := func(name string, n int) string {
		b := vsym.Str(name, n)
		for i := 0; i < n; i++ {
			vsym.Assume(b[i] > ' ' && b[i] < 127)
		}
		return b
	}
	switch vsym.Choose("control", 0, 4) {
	case 0:
		return "", base
	case 1:
		return "a=control:*\r\n", base
	case 2:
		t := text("track", n)
		// neither of the others
		vsym.Assume(n != 1 || t[0] != '*')
		vsym.Assume(n < 7 || !strings.EqualFold(t[:7], "rtsp://"))
		return "a=control:" + t + "\r\n", base + "/" + t
	case 3:
		t := []string{"rtsp", "RTSP"}[vsym.Choose("case", 0, 1)] + "://h:1/" + text("url", n)
		return "a=control:" + t + "\r\n", t
	}
	return "a=recvonly\r\na=control:trackID=" + vhItoa(i) + "\r\n", base + "/trackID=" + vhItoa(i)
}

// c15Server answers step by step, as the harness says.
type c15Server struct {
	*vhServer
	sdp  string
	uris []string
	auth int // requests answered with a challenge
}

func c15New(medias, n int, base string) *c15Server {
	s := &c15Server{vhServer: vhNewServer(func(int, string) string { return "" })}
	s.sdp = "v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=x\r\nt=0 0\r\n"
	s.uris = []string{base}
	any := -1
	if n > 0 {
		any = vsym.Choose("any", 0, medias-1)
	}
	for i := 0; i < medias; i++ {
		l := 0
		if i == any {
			l = n
		}
		c, u := c15Control(i, l, base)
		s.sdp += "m=video 0 RTP/AVP " + vhItoa(96+i) + "\r\n" + c
		s.uris = append(s.uris, u)
	}
	s.uris = append(s.uris, base)
	return s
}

// expect checks request k of the sequence.
func (s *c15Server) expect(k int) {
	last := len(s.uris) - 1
	m := "SETUP"
	if k <= s.auth {
		m = "DESCRIBE"
	} else if k == last {
		m = "PLAY"
	}
	req := s.reqs[k]
	p := m + " " + s.uris[k] + " RTSP/1.0\r\n"
	vsym.Assert(len(req) > len(p) && req[:len(p)] == p, "wrong request")
	if m == "SETUP" {
		t := vhHeader(req, "Transport")
		k -= s.auth
		vsym.Assert(len(t) == 1 && t[0] == "RTP/AVP/TCP;unicast;interleaved="+vhItoa(2*k-2)+"-"+vhItoa(2*k-1), "wrong transport")
	}
}

func (s *c15Server) good(k int) string {
	if k < s.auth {
		return "RTSP/1.0 401 Unauthorized\r\nWWW-Authenticate: Digest realm=\"r\", nonce=\"n\"\r\n\r\n"
	}
	if k == s.auth {
		return vhOK(s.reqs[k], "Content-Type: application/sdp\r\n", s.sdp)
	}
	if k == len(s.uris)-1 {
		return vhOK(s.reqs[k], "", "")
	}
	return vhOK(s.reqs[k], "Session: 1\r\n", "")
}

func (s *c15Server) answer(k int) { s.conn.Feed([]byte(s.good(k))) }

// c15Drive runs the sequence up to step fail (none when negative), where
// upset happens instead of the proper answer.
func c15Drive(app *vhApp, start func() error, s *c15Server, fail int, upset func(req string)) {
	var err error
	done := false
	e0 := len(app.events)
	go func() {
		err = start()
		done = true
	}()
	for k := range s.uris {
		vsym.Quiesce()
		vsym.Assert(len(s.reqs) == k+1 && s.acc == "", "not one request per answer")
		vsym.Assert(!done && len(app.events) == e0, "over before everything was answered")
		s.expect(k)
		if k == fail {
			upset(s.reqs[k])
			vsym.Quiesce()
			time.Sleep(30 * time.Second)
			vsym.Quiesce()
			vsym.Assert(done, "caller hangs")
			vsym.Assert(err != nil, "success although not everything was answered with 200")
			vsym.Assert(vhCount(app.events[e0:], RtspEventRequestError) == 1 && vhCount(app.events[e0:], RtspEventRequestSuccess) == 0, "failure not reported once")
			for _, r := range s.reqs[k+1:] {
				vsym.Assert(vhMethod(r) == "TEARDOWN", "sequence continued after a failure")
			}
			vsym.Reach("failed")
			return
		}
		s.answer(k)
	}
	vsym.Quiesce()
	vsym.Assert(done && err == nil, "no success although everything was answered with 200")
	vsym.Assert(vhCount(app.events[e0:], RtspEventRequestSuccess) == 1 && vhCount(app.events[e0:], RtspEventRequestError) == 0, "success not reported once")
	vsym.Assert(len(s.reqs) == len(s.uris), "request after the end of the sequence")
	vsym.Reach("ok")
}

func c15Start(app *vhApp, s *RtspClientSession, conn net.Conn, play bool, url string) func() error {
	if play {
		vsym.SetDial(func(network, address string, timeout time.Duration) (net.Conn, error) { return conn, nil })
		return func() error { return s.Play(url) }
	}
	vsym.Assert(s.ParsingURL(url) == nil, "valid URL refused")
	return func() error { return s.SetConnection(conn) }
}

// Everything accepted.
//
// vh:bound 1..3 medias (thorough 4), one of them with the control attribute absent, '*', relative, an absolute URL in lower or upper case (6 arbitrary characters each, thorough 8), or behind another attribute, the others with one of four controls; two request URLs; with Play and SetConnection
// vh:reach ok
// vh:opt paths=2000000
func VH_C15_Accepted() {
	app := &vhApp{}
	url := []string{"rtsp://h/p", "rtsp://h:8554/a/b?c=d"}[vsym.Choose("url", 0, 1)]
	s := c15New(vsym.Choose("medias", 1, 3+vsym.Tier()), 6+2*vsym.Tier(), url)
	c15Drive(app, c15Start(app, app.session(), s.conn, vsym.Choose("play", 0, 1) == 1, url), s, -1, nil)
}

// c15Upset is a way to spoil a step.
func c15Upset(s *c15Server, kind int) func(req string) {
	return func(req string) {
		switch kind {
		case 0:
			d := vsym.Str("status", 3)
			for i := 0; i < 3; i++ {
				vsym.Assume(d[i] >= '0' && d[i] <= '9')
			}
			vsym.Assume(d != "200" && (d != "401" || len(s.reqs) > s.auth))
			r := s.good(len(s.reqs) - 1)
			s.conn.Feed([]byte("RTSP/1.0 " + d + r[12:]))
		case 1:
			s.conn.Hangup()
		case 2:
			s.conn.FeedErr(errors.New("reset"))
		case 3: // silence
		case 4:
			s.conn.Feed([]byte("RTSP/1.0 200 OK\r\nCSeq: 0"))
		case 5:
			s.conn.Feed([]byte("RTSP/1.0 200 OK\r\nContent-Length: 1000\r\n\r\nv=0"))
			s.conn.Hangup()
		case 6:
			s.conn.Feed([]byte("\r\n\r\nHTTP/1.1 400 Bad\r\n\r\n"))
		case 7:
			// only a session description can spoil the first step
			if len(s.reqs) == 1+s.auth {
				s.conn.Feed([]byte(vhOK(req, "", "v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=x\r\nt=0 0\r\n")))
			} else {
				s.conn.Feed([]byte("RTSP/1.0 500 X\r\n\r\n"))
			}
		case 8:
			if len(s.reqs) == 1+s.auth {
				s.conn.Feed([]byte(vhOK(req, "", "")))
			} else if len(s.reqs) > s.auth {
				s.conn.Feed([]byte("RTSP/1.0 401 X\r\nWWW-Authenticate: Basic realm=\"r\"\r\n\r\n"))
			} else {
				s.conn.Feed([]byte("RTSP/1.0 403 X\r\n\r\n"))
			}
		}
	}
}

// One step is not answered as it should be.
//
// vh:bound 1..2 medias (thorough 3), every step, where instead of the proper answer comes: any other status of three digits, orderly close, read error, silence, an incomplete response, an incomplete body and close, something that is no response, a description without medias or none at all, a challenge
// vh:reach failed
func VH_C15_Refused() {
	app := &vhApp{}
	s := c15New(vsym.Choose("medias", 1, 2+vsym.Tier()), 0, "rtsp://h/p")
	fail := vsym.Choose("step", 0, len(s.uris)-1)
	c15Drive(app, c15Start(app, app.session(), s.conn, false, "rtsp://h/p"), s, fail, c15Upset(s, vsym.Choose("kind", 0, 8)))
}

// The server wants authorization.
//
// vh:bound 1..2 medias, the first DESCRIBE answered with a challenge, then each step of the rest (the second DESCRIBE included) or the first one spoiled in any of the ways above, or none
// vh:reach ok failed
func VH_C15_Challenged() {
	app := &vhApp{}
	s := c15New(vsym.Choose("medias", 1, 2), 0, "rtsp://h/p")
	s.auth = 1
	s.uris = append([]string{"rtsp://h/p"}, s.uris...)
	fail := vsym.Choose("step", -1, len(s.uris)-1)
	var upset func(string)
	if fail >= 0 {
		upset = c15Upset(s, vsym.Choose("kind", 0, 8))
	}
	c15Drive(app, c15Start(app, app.session(), s.conn, vsym.Choose("play", 0, 1) == 1, "rtsp://us:pw@h/p"), s, fail, upset)
}

// A session is started again after success or failure.
//
// vh:bound 1..2 medias, each step of the first session spoiled in any of the ways above or not, then a second one with another number of medias
// vh:reach failed ok again
func VH_C15_Again() {
	app := &vhApp{}
	session := app.session()
	for i := 0; i < 2; i++ {
		medias := 1 + i
		if vsym.Choose("swap", 0, 1) == 1 {
			medias = 2 - i
		}
		s := &c15Server{vhServer: vhNewServer(func(int, string) string { return "" })}
		s.sdp = "v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=x\r\nt=0 0\r\n"
		s.uris = []string{"rtsp://h/p"}
		for k := 0; k < medias; k++ {
			s.sdp += "m=video 0 RTP/AVP 26\r\na=control:" + vhItoa(k) + "\r\n"
			s.uris = append(s.uris, "rtsp://h/p/"+vhItoa(k))
		}
		s.uris = append(s.uris, "rtsp://h/p")
		fail := vsym.Choose("step", -1, len(s.uris)-1)
		var upset func(string)
		if fail >= 0 {
			upset = c15Upset(s, vsym.Choose("kind", 0, 8))
		}
		c15Drive(app, c15Start(app, session, s.conn, false, "rtsp://h/p"), s, fail, upset)
		s.conn.Hangup()
		vsym.Quiesce()
		vsym.Assert(s.conn.Closed(), "connection of the ended session not closed")
		vsym.Assert(len(app.events) == 2*i+2 && vhCount(app.events, RtspEventDisconnected) == i+1, "not one event and one disconnect")
		if i == 1 {
			vsym.Reach("again")
		}
	}
}

// Answers that take their time.
//
// vh:bound 1 media (thorough 3), each answer any time from 0 to less than 2 s late
// vh:reach ok
func VH_C15_Slow() {
	app := &vhApp{}
	s := c15New(1+2*vsym.Tier(), 0, "rtsp://h/p")
	s.reply = func(i int, req string) string {
		d := vsym.Delay("late", 0, 2*time.Second-1)
		r := s.good(i)
		go func() {
			time.Sleep(d)
			s.conn.Feed([]byte(r))
		}()
		return ""
	}
	session := app.session()
	vsym.Assert(session.ParsingURL("rtsp://h/p") == nil, "valid URL refused")
	err := session.SetConnection(s.conn)
	vsym.Quiesce()
	vsym.Assert(err == nil && len(s.reqs) == len(s.uris), "no success although everything was answered with 200")
	for i := range s.uris {
		s.expect(i)
	}
	vsym.Assert(len(app.events) == 1 && app.events[0] == RtspEventRequestSuccess, "success not reported once")
	vsym.Reach("ok")
}

// Many medias, long controls.
//
// vh:bound 9, 10, 11, 16, 17, 33, 64, 100 or 128 medias with relative, absolute, absent and '*' controls by turns and other schemes (rtspu, http), or one media with a control of 16..5000 characters (8 lengths), one byte of the last one arbitrary; request URLs of 4..2000 characters; everything accepted, or the last SETUP or PLAY refused
// vh:reach ok failed
// vh:opt steps=40000000
func VH_C15_Many() {
	app := &vhApp{}
	b := vsym.Str("some", 1)
	vsym.Assume(b[0] > ' ' && b[0] < 127)
	s := &c15Server{vhServer: vhNewServer(func(int, string) string { return "" })}
	s.sdp = "v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=x\r\nt=0 0\r\n"
	base := "rtsp://h" + []string{"", "/p", "/" + strings.Repeat("d/", 100) + "x?q=1", "/" + strings.Repeat("e", 2000)}[vsym.Choose("url", 0, 3)]
	s.uris = []string{base}
	if vsym.Choose("what", 0, 1) == 0 {
		n := []int{9, 10, 11, 16, 17, 33, 64, 100, 128}[vsym.Choose("n", 0, 8)]
		for i := 0; i < n; i++ {
			c, u := "", base
			switch i % 6 {
			case 0:
				c = "t" + vhItoa(i)
				u = base + "/" + c
			case 1:
				c = "RtSp://x/" + vhItoa(i)
				u = c
			case 2:
			case 3:
				c = "*"
			case 4:
				c = "http://x/" + vhItoa(i)
				u = base + "/" + c
			case 5:
				c = "rtspu://x/" + vhItoa(i)
				u = base + "/" + c
			}
			if i == n-1 {
				c = "z" + b
				u = base + "/" + c
			}
			s.sdp += "m=video 0 RTP/AVP 96\r\na=recvonly\r\n"
			if c != "" {
				s.sdp += "a=control:" + c + "\r\n"
			}
			s.uris = append(s.uris, u)
		}
	} else {
		c := strings.Repeat("t", []int{16, 17, 64, 128, 256, 257, 1000, 5000}[vsym.Choose("len", 0, 7)]-1) + b
		s.sdp += "m=video 0 RTP/AVP 96\r\na=control:" + c + "\r\n"
		s.uris = append(s.uris, base+"/"+c)
	}
	s.uris = append(s.uris, base)
	fail := -1
	if k := vsym.Choose("fail", 0, 2); k > 0 {
		fail = len(s.uris) - k
	}
	c15Drive(app, c15Start(app, app.session(), s.conn, false, base), s, fail, func(req string) {
		s.conn.Feed([]byte("RTSP/1.0 454 X\r\n\r\n"))
	})
}
