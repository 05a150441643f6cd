package rtspclient

import (
	"net"
	"strconv"
	"strings"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

// vhServer plays the RTSP server on the other end of a stub connection.
type vhServer struct {
	conn  *vsym.Conn
	acc   string
	reqs  []string
	reply func(i int, req string) string // answer to request i ("" for none)
}

func vhNewServer(reply func(i int, req string) string) *vhServer {
	s := &vhServer{conn: vsym.NewConn(), reply: reply}
	s.conn.OnWrite = func(p []byte) {
		s.acc += string(p)
		for {
			e := strings.Index(s.acc, "\r\n\r\n")
			if e < 0 {
				return
			}
			req := s.acc[:e+4]
			s.acc = s.acc[e+4:]
			i := len(s.reqs)
			s.reqs = append(s.reqs, req)
			if r := s.reply(i, req); r != "" {
				s.conn.Feed([]byte(r))
			}
		}
	}
	return s
}

// vhSDP describes one media per codec name.
func vhSDP(codecs ...string) string {
	s := "v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=x\r\nt=0 0\r\n"
	for i, c := range codecs {
		pt := strconv.Itoa(96 + i)
		s += "m=video 0 RTP/AVP " + pt + "\r\na=rtpmap:" + pt + " " + c + "/90000\r\na=control:t" + strconv.Itoa(i) + "\r\n"
	}
	return s
}

func vhMethod(req string) string {
	if i := strings.Index(req, " "); i >= 0 {
		return req[:i]
	}
	return ""
}

// vhHeader returns the values of the named header of a request.
func vhHeader(req, name string) []string {
	var r []string
	for i, l := range strings.Split(req, "\r\n") {
		if i == 0 {
			continue
		}
		if k := strings.Index(l, ":"); k >= 0 && strings.EqualFold(strings.TrimSpace(l[:k]), name) {
			r = append(r, strings.TrimSpace(l[k+1:]))
		}
	}
	return r
}

func vhOK(req, extra, body string) string {
	r := "RTSP/1.0 200 OK\r\n"
	if c := vhHeader(req, "CSeq"); len(c) == 1 {
		r += "CSeq: " + c[0] + "\r\n"
	}
	r += extra
	if body != "" {
		r += "Content-Length: " + strconv.Itoa(len(body)) + "\r\n"
	}
	return r + "\r\n" + body
}

// vhAnswer is a server that accepts everything.
func vhAnswer(sdp string) func(i int, req string) string {
	return func(i int, req string) string {
		switch vhMethod(req) {
		case "DESCRIBE":
			return vhOK(req, "Content-Type: application/sdp\r\n", sdp)
		case "SETUP":
			return vhOK(req, "Session: 12345678\r\n", "")
		}
		return vhOK(req, "", "")
	}
}

// vhApp records what the application sees.
type vhApp struct {
	data   []*RtspData
	events []int
}

func (a *vhApp) session() *RtspClientSession {
	return NewRtspClientSession(func(d *RtspData) { a.data = append(a.data, d) },
		func(e *RtspEvent) { a.events = append(a.events, e.EventType) })
}

// vhPlaying returns a session that was set up for the given codecs.
func vhPlaying(codecs ...string) (*vhApp, *RtspClientSession, *vhServer) {
	app := &vhApp{}
	s := app.session()
	srv := vhNewServer(vhAnswer(vhSDP(codecs...)))
	if err := s.ParsingURL("rtsp://h/p"); err != nil {
		vsym.Fail("valid URL refused")
	}
	var c net.Conn = srv.conn
	if err := s.SetConnection(c); err != nil {
		vsym.Fail("session not established by an accepting server")
	}
	return app, s, srv
}

// vhFrame is an interleaved frame.
func vhFrame(ch byte, rtp []byte) []byte {
	return append([]byte{'$', ch, byte(len(rtp) >> 8), byte(len(rtp))}, rtp...)
}

// vhRTP is a RTP packet with a concrete header.
func vhRTP(mark bool, seq int, payload []byte) []byte {
	h := []byte{0x80, 96, byte(seq >> 8), byte(seq), 0, 0, 0, 1, 0, 0, 0, 2}
	if mark {
		h[1] |= 0x80
	}
	return append(h, payload...)
}

func vhCount(ev []int, k int) int {
	n := 0
	for _, e := range ev {
		if e == k {
			n++
		}
	}
	return n
}

func vhItoa(n int) string { return strconv.Itoa(n) }
