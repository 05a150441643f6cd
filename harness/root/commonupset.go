package rtspclient

import (
	"errors"
	"time"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

// Ways of a server to go silent or away.
const (
	c16Silence    = iota
	c16Close      // orderly close
	c16Reset      // reads and writes fail
	c16WriteError // only writes fail
	c16NoRead     // the server does not read any more
	c16Part       // part of a response, then silence
	c16PartClose  // part of a response, then close
	c16Body       // part of the body, then silence
	c16Data       // frames, but no response
	c16Frame      // part of a frame, then silence
	c16Kinds
)

// c16Server goes silent or away at its step'th request.
type c16Server struct {
	*vhServer
	step, kind int
	good       func(i int, req string) string
}

func c16New(step, kind int, codecs ...string) *c16Server {
	s := &c16Server{step: step, kind: kind}
	s.good = vhAnswer(vhSDP(codecs...))
	s.vhServer = vhNewServer(func(i int, req string) string {
		if i == step-1 || step == 0 && i == 0 {
			s.before()
		}
		if i < step {
			return s.good(i, req)
		}
		if i == step {
			s.upset(s.good(i, req))
		}
		return ""
	})
	if step == 0 {
		s.before()
	}
	return s
}

// before prepares that the next request does not get through.
func (s *c16Server) before() {
	switch s.kind {
	case c16WriteError:
		s.conn.WErr = errors.New("broken pipe")
	case c16NoRead:
		s.conn.Gate = make(chan struct{})
	}
}

func (s *c16Server) upset(r string) {
	cut := func(n int) int {
		return 1 + vsym.Choose("cut", 0, 3)*(n-2)/3
	}
	switch s.kind {
	case c16Close:
		s.conn.Hangup()
	case c16Reset:
		s.conn.WErr = errors.New("reset")
		s.conn.FeedErr(errors.New("reset"))
	case c16Part:
		s.conn.Feed([]byte(r[:cut(len(r))]))
	case c16PartClose:
		s.conn.Feed([]byte(r[:cut(len(r))]))
		s.conn.Hangup()
	case c16Body:
		s.conn.Feed([]byte("RTSP/1.0 200 OK\r\nContent-Length: 9\r\n\r\n" + "12345678"[:2*vsym.Choose("cut", 0, 4)]))
	case c16Data:
		gap := vsym.Delay("gap", 500*time.Millisecond, 3*time.Second)
		go func() {
			for i := 0; i < 20 && !s.conn.Closed(); i++ {
				s.conn.Feed(vhFrame(byte(i%3), vhRTP(true, i, []byte{1, 2})))
				time.Sleep(gap)
			}
		}()
	case c16Frame:
		s.conn.Feed([]byte{'$', 0, 0, 100, 1, 2, 3, 4}[:1+vsym.Choose("cut", 0, 3)*2])
	}
}
