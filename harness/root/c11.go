package rtspclient

import (
	"net"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

//vh:use commonauth

// c11Status is any status code.
func c11Status(name string) (string, int) {
	d := vsym.Str(name, 3)
	n := 0
	for j := 0; j < 3; j++ {
		vsym.Assume(d[j] >= '0' && d[j] <= '9')
		n = n*10 + int(d[j]-'0')
	}
	vsym.Assume(d[0] != '0')
	return d, n
}

var c11sets = []struct {
	h      string // challenges
	scheme string // strongest one
}{
	{"", ""},
	{"WWW-Authenticate: Basic realm=\"r\"\r\n", "Basic"},
	{"WWW-Authenticate: Digest realm=\"r\", nonce=\"n\"\r\n", "Digest"},
	{"WWW-Authenticate: Basic realm=\"r\"\r\nWWW-Authenticate: Digest realm=\"r\", nonce=\"n\"\r\n", "Digest"},
	{"WWW-Authenticate: Digest realm=\"r\", nonce=\"n\"\r\nWWW-Authenticate: Basic realm=\"r\"\r\n", "Digest"},
	{"WWW-Authenticate: Negotiate\r\n", ""},
	{"WWW-Authenticate: Negotiate abc\r\nWWW-Authenticate: Basic realm=\"r\"\r\n", "Basic"},
	{"WWW-Authenticate: Digest realm=\"r\", nonce=\"n\"\r\nServer: x\r\nWWW-Authenticate: Negotiate\r\n", "Digest"},
}

var c11urls = []struct{ url, user, pass string }{
	{"rtsp://h/p", "", ""},
	{"rtsp://us@h/p", "us", ""},
	{"rtsp://us:@h/p", "us", ""},
	{"rtsp://:pw@h/p", "", "pw"},
	{"rtsp://us:pw@h/p", "us", "pw"},
}

// c11Auth checks the authorization of a request.
func c11Auth(r, scheme, user, pass, realm, nonce string) {
	h := vhHeader(r, "Authorization")
	w := strings.Split(r[:strings.Index(r, "\r\n")], " ")
	switch scheme {
	case "":
		vsym.Assert(len(h) == 0, "authorization without usable challenge")
	case "Basic":
		vsym.Assert(len(h) == 1 && strings.HasPrefix(h[0], "Basic "), "no basic answer")
	case "Digest":
		vsym.Assert(len(h) == 1 && strings.HasPrefix(h[0], "Digest "), "the strongest scheme is not chosen")
		vsym.Assert(strings.Contains(h[0], `response="`+vhDigest(user, realm, pass, nonce, w[0], w[1])+`"`), "authorization of another request")
	}
}

// Any answers to the first and second DESCRIBE.
//
// vh:bound five kinds of credentials; any status of the answers to both DESCRIBEs, each with one of 8 sets of challenges; then PLAY, PAUSE and TEARDOWN
// vh:reach first retried success failure again
func VH_C11_Answers() {
	u := c11urls[vsym.Choose("url", 0, len(c11urls)-1)]
	set := c11sets[vsym.Choose("set", 0, len(c11sets)-1)]
	d1, n1 := c11Status("first")
	d2, n2 := c11Status("second")
	second := []string{"", "WWW-Authenticate: Basic realm=\"r\"\r\n", "WWW-Authenticate: Digest realm=\"r\", nonce=\"n\"\r\n"}[vsym.Choose("set2", 0, 2)]
	sdp := vhSDP("VP8", "H264")
	app := &vhApp{}
	s := app.session()
	old := vhAnswer(sdp)
	srv := vhNewServer(func(i int, req string) string {
		if vhMethod(req) == "DESCRIBE" {
			h, d := set.h, d1
			if i > 0 {
				h, d = second, d2
			}
			r := vhOK(req, h+"Content-Type: application/sdp\r\n", sdp)
			return strings.Replace(r, "200 OK", d+" X", 1)
		}
		return old(i, req)
	})
	vsym.Assert(s.ParsingURL(u.url) == nil, "valid URL refused")
	err := s.SetConnection(srv.conn)
	retry := n1 == 401 && u.user != "" && u.pass != ""
	final, describes := n1, 1
	scheme := ""
	if retry {
		final, describes = n2, 2
		scheme = set.scheme
		vsym.Reach("retried")
	} else {
		vsym.Reach("first")
	}
	k := 0
	for k < len(srv.reqs) && vhMethod(srv.reqs[k]) == "DESCRIBE" {
		k++
	}
	vsym.Assert(k == describes, "wrong number of DESCRIBEs")
	vsym.Assert((err == nil) == (final == 200), "wrong outcome")
	if err == nil {
		s.SendPause()
		s.WaitRtspResponse()
		s.SendTeardown()
		s.WaitRtspResponse()
		vsym.Assert(len(srv.reqs) == describes+5, "wrong number of requests")
		vsym.Reach("success")
	} else {
		vsym.Assert(len(srv.reqs) == describes, "requests after a failure")
		vsym.Reach("failure")
	}
	for i, r := range srv.reqs {
		if i == 0 {
			c11Auth(r, "", "", "", "", "")
		} else {
			c11Auth(r, scheme, u.user, u.pass, "r", "n")
		}
		uri := strings.Split(r, " ")[1]
		vsym.Assert(uri == "rtsp://h/p" || vhMethod(r) == "SETUP" && strings.HasPrefix(uri, "rtsp://h/p/"), "wrong request URI")
		vsym.Assert(!strings.Contains(r[:strings.Index(r, "\r\n")], "us") && !strings.Contains(r, "pw"), "credentials in the request")
	}
	vsym.Reach("again")
}

// A second session with the same object: nothing of the first challenge is used.
//
// vh:bound two plays of one session object with one of five credentials each, both with one of four challenge sets
// vh:reach twice
func VH_C11_Twice() {
	app := &vhApp{}
	s := app.session()
	var srv *vhServer
	vsym.SetDial(func(network, address string, timeout time.Duration) (net.Conn, error) { return srv.conn, nil })
	for round := 0; round < 2; round++ {
		u := c11urls[vsym.Choose("url", 0, len(c11urls)-1)]
		set := c11sets[vsym.Choose("set", 0, 3)]
		nonce := []string{"n", "m"}[round]
		ok := u.user != "" && u.pass != "" && set.scheme != "" || set.h == ""
		old := vhAnswer(vhSDP("VP8"))
		srv = vhNewServer(func(i int, req string) string {
			if set.h != "" && len(vhHeader(req, "Authorization")) == 0 {
				return "RTSP/1.0 401 Unauthorized\r\nCSeq: " + vhHeader(req, "CSeq")[0] + "\r\n" + strings.Replace(set.h, `"n"`, `"`+nonce+`"`, 1) + "\r\n"
			}
			return old(i, req)
		})
		err := s.Play(u.url)
		vsym.Assert((err == nil) == ok, "wrong outcome")
		vsym.Assert(len(srv.reqs) > 0, "no request")
		for i, r := range srv.reqs {
			if i == 0 || set.h == "" {
				c11Auth(r, "", "", "", "", "")
			} else {
				c11Auth(r, set.scheme, u.user, u.pass, "r", nonce)
			}
		}
		s.Close()
		vsym.Quiesce()
		srv.conn.Hangup()
		vsym.Quiesce()
	}
	vsym.Reach("twice")
}

// Many challenges.
//
// vh:bound 1..40 (8 numbers) challenges of which one, at the beginning, in the middle or at the end, is Digest and the others Basic and unknown ones, or all are Basic or unknown; then 40 requests of all kinds
// vh:reach digest basic none
// vh:opt steps=40000000
func VH_C11_Many() {
	n := []int{1, 2, 3, 8, 9, 16, 17, 40}[vsym.Choose("n", 0, 7)]
	where := vsym.Choose("where", -2, 2)
	h, scheme := "", ""
	for i := 0; i < n; i++ {
		switch {
		case where >= 0 && i == where*(n-1)/2:
			h += "WWW-Authenticate: Digest realm=\"r\", nonce=\"n\"\r\n"
			scheme = "Digest"
		case where >= -1 && i%2 == 0:
			h += "WWW-Authenticate: Basic realm=\"x" + vhItoa(i) + "\"\r\n"
			if scheme == "" {
				scheme = "Basic"
			}
		default:
			h += "WWW-Authenticate: X" + vhItoa(i) + " realm=\"y\", nonce=\"z\"\r\n"
		}
	}
	app := &vhApp{}
	s := app.session()
	old := vhAnswer(vhSDP("VP8", "H264"))
	srv := vhNewServer(func(i int, req string) string {
		if i == 0 {
			return "RTSP/1.0 401 Unauthorized\r\n" + h + "\r\n"
		}
		return old(i, req)
	})
	vsym.Assert(s.ParsingURL("rtsp://us:pw@h/p") == nil, "valid URL refused")
	vsym.Assert(s.SetConnection(srv.conn) == nil, "session not established by an accepting server")
	vsym.Assert(len(srv.reqs) == 5, "wrong number of requests")
	for i := 0; i < 40; i++ {
		switch i % 4 {
		case 0:
			s.SendPause()
		case 1:
			s.SendPlay(i, 1)
		case 2:
			s.SendTcpSetup("rtsp://h/p/t1", 2, 3)
		case 3:
			s.SendTeardown()
		}
		r, err := s.WaitRtspResponse()
		vsym.Assert(err == nil && r.Status == 200, "reply lost")
	}
	vsym.Assert(len(srv.reqs) == 45, "wrong number of requests")
	for i, r := range srv.reqs {
		if i == 0 {
			c11Auth(r, "", "", "", "", "")
		} else {
			c11Auth(r, scheme, "us", "pw", "r", "n")
		}
		vsym.Assert(!strings.Contains(r[:strings.Index(r, "\r\n")], "us") && !strings.Contains(r, "pw"), "credentials in the request")
	}
	switch scheme {
	case "Digest":
		vsym.Reach("digest")
	case "Basic":
		vsym.Reach("basic")
	case "":
		vsym.Reach("none")
	}
}
