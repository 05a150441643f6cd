package rtspclient

import (
	"errors"
	"net"
	"sort"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

// c34req removes the number of a request and returns it.
func c34req(req string) (string, string) {
	i := strings.Index(req, "\r\nCSeq: ")
	if i < 0 {
		return req, ""
	}
	j := strings.Index(req[i+2:], "\r\n")
	return req[:i] + req[i+2+j:], req[i+8 : i+2+j]
}

// c34run is what is seen of one run of a session.
type c34run struct {
	reqs   []string
	seq    []int
	events []int
	data   []*RtspData
	medias []string
	err    string
	closed bool
}

func c34same(a, b *c34run) {
	vsym.Assert(a.err == b.err, "result differs from that of a new session")
	vsym.Assert(len(a.reqs) == len(b.reqs), "number of requests differs from that of a new session")
	for i := range a.reqs {
		vsym.Assert(a.reqs[i] == b.reqs[i], "request differs from that of a new session")
	}
	vsym.Assert(len(a.events) == len(b.events), "number of events differs from that of a new session")
	for i := range a.events {
		vsym.Assert(a.events[i] == b.events[i], "event differs from that of a new session")
	}
	vsym.Assert(len(a.data) == len(b.data), "number of units differs from that of a new session")
	for i := range a.data {
		vsym.Assert(a.data[i].ChannelNum == b.data[i].ChannelNum && string(a.data[i].Data) == string(b.data[i].Data), "unit differs from that of a new session")
	}
	vsym.Assert(strings.Join(a.medias, ";") == strings.Join(b.medias, ";"), "medias differ from those of a new session")
	vsym.Assert(a.closed == b.closed, "transport closed in one case only")
}

// c34play runs one session on the object against the server.
func c34play(app *vhApp, s *RtspClientSession, url string, reply func(i int, req string) string, then func(s *RtspClientSession, c *vsym.Conn)) *c34run {
	e, d := len(app.events), len(app.data)
	srv := vhNewServer(reply)
	dial := ""
	vsym.SetDial(func(network, address string, timeout time.Duration) (net.Conn, error) {
		dial += network + " " + address + "\n"
		return srv.conn, nil
	})
	r := &c34run{}
	if err := s.Play(url); err != nil {
		r.err = err.Error()
	}
	for k, m := range s.RtpMediaMap {
		r.medias = append(r.medias, vhItoa(k)+" "+m.CodecName+" "+m.TrackURL)
	}
	sort.Strings(r.medias)
	time.Sleep(time.Second)
	vsym.Quiesce()
	then(s, srv.conn)
	time.Sleep(10 * time.Second)
	vsym.Quiesce()
	last := ""
	for i, q := range srv.reqs {
		q, n := c34req(q)
		r.reqs = append(r.reqs, q)
		if i > 0 {
			v, w := 0, 0
			for _, c := range []byte(last) {
				v = v*10 + int(c-'0')
			}
			for _, c := range []byte(n) {
				w = w*10 + int(c-'0')
			}
			vsym.Assert(w == v+1, "requests not numbered consecutively")
		}
		last = n
	}
	r.reqs = append(r.reqs, dial)
	r.events, r.data, r.closed = app.events[e:], app.data[d:], srv.conn.Closed()
	return r
}

// c34history lets the session object go through something.
func c34history(app *vhApp, s *RtspClientSession, h int) {
	good := vhAnswer(vhSDP("H264", "PCMU", "H265"))
	url := "rtsp://a:b@old:1/old?x"
	fail := func(step int, answer string) func(i int, req string) string {
		return func(i int, req string) string {
			if i == step {
				return answer
			}
			return good(i, req)
		}
	}
	frames := func(c *vsym.Conn) {
		c.Feed(vhFrame(0, vhRTP(false, 1, []byte{0x7c, 0x85, 1, 2, 3})))
		c.Feed(vhFrame(4, vhRTP(false, 1, []byte{0x62, 1, 0x93, 1, 2, 3})))
		c.Feed(vhFrame(2, vhRTP(true, 1, []byte{1})))
		vsym.Quiesce()
	}
	none := func(*RtspClientSession, *vsym.Conn) {}
	switch h {
	case 0: // refused
		vsym.SetDial(func(network, address string, timeout time.Duration) (net.Conn, error) {
			return nil, errors.New("refused")
		})
		vsym.Assert(s.Play(url) != nil, "success without a connection")
	case 1, 2, 3, 4, 5: // failed at a step, closed
		c34play(app, s, url, fail(h-1, "RTSP/1.0 500 X\r\nSession: zzz\r\n\r\n"), func(s *RtspClientSession, c *vsym.Conn) { s.Close() })
	case 6, 7: // silent
		c34play(app, s, url, fail(h-6, ""), none)
	case 8, 9: // ends within units
		c34play(app, s, url, good, func(s *RtspClientSession, c *vsym.Conn) {
			frames(c)
			if h == 8 {
				c.Hangup()
			} else {
				s.Close()
			}
		})
	case 10: // request without an answer
		c34play(app, s, url, fail(4, ""), func(s *RtspClientSession, c *vsym.Conn) {
			s.SendPause()
			c.FeedErr(errors.New("reset"))
		})
	case 11: // answer nobody waits for
		c34play(app, s, url, good, func(s *RtspClientSession, c *vsym.Conn) {
			s.SendPause()
			c.Feed([]byte("RTSP/1.0 200 OK\r\nSession: s\r\n\r\n"))
			c.Hangup()
		})
	case 12: // with authorization
		c34play(app, s, url, func(i int, req string) string {
			if strings.Contains(req, "Authorization: Digest") {
				return good(i, req)
			}
			return "RTSP/1.0 401 U\r\nWWW-Authenticate: Digest realm=\"r\", nonce=\"n\"\r\n\r\n"
		}, func(s *RtspClientSession, c *vsym.Conn) { s.Close() })
	case 13: // credentials refused
		c34play(app, s, url, func(i int, req string) string {
			return "RTSP/1.0 401 U\r\nWWW-Authenticate: Basic realm=\"r\"\r\n\r\n"
		}, func(s *RtspClientSession, c *vsym.Conn) { s.Close() })
	case 14: // description without medias, part of a message
		c34play(app, s, url, vhAnswer(vhSDP()), func(s *RtspClientSession, c *vsym.Conn) {
			c.Feed([]byte{'$', 0, 0xff})
			vsym.Quiesce()
			c.Hangup()
		})
	case 15: // no description
		c34play(app, s, url, vhAnswer("x"), func(s *RtspClientSession, c *vsym.Conn) { s.Close() })
	case 16: // not a URL
		vsym.Assert(s.Play("rtsp://u:v@[x/y") != nil, "invalid URL accepted")
	case 17: // closed before
		s.Close()
	case 18: // twice
		c34history(app, s, 8)
		c34history(app, s, 3)
	}
	vsym.Quiesce()
}
