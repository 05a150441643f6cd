package rtspclient

import (
	"errors"
	"time"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

//vh:use commonauth
//vh:use commonhist
//vh:use commonupset
//vh:use commonws

func c38Over(before int) {
	time.Sleep(60 * time.Second)
	vsym.Quiesce()
	vsym.Assert(vsym.Goroutines() == before, "something of the session is still running after its end")
}

// Nothing runs any more after a session.
//
// vh:bound any of 19 histories (connection refused; 500 or silence at any step, closed or not; end by the server, an error or Close, within units or with a request unanswered or an answer left; authorization accepted and refused; no medias, no description, bad URL), one or two one after the other on one object
// vh:reach ok
func VH_C38_History() {
	before := vsym.Goroutines()
	app := &vhApp{}
	s := app.session()
	c34history(app, s, vsym.Choose("history", 0, 18))
	c38Over(before)
	c34history(app, s, vsym.Choose("then", 0, 18))
	c38Over(before)
	vsym.Reach("ok")
}

// However the server goes away or silent.
//
// vh:bound a set-up of 2 medias or the first or second request (PAUSE, PLAY, TEARDOWN) after it, at which the server is silent, closes, resets, cannot be written to, does not read, sends part of a response, body or frame and then nothing or closes, or sends frames only; other messages of the server behind that; 0..2 calls of Close afterwards
// vh:reach ok
func VH_C38_Upset() {
	before := vsym.Goroutines()
	app := &vhApp{}
	session := app.session()
	s := c16New(vsym.Choose("step", 0, 5), vsym.Choose("kind", 0, c16Kinds-1), "H264", "PCMU")
	request := vsym.Choose("request", 0, 2)
	vsym.Assert(session.ParsingURL("rtsp://h/p") == nil, "valid URL refused")
	err := session.SetConnection(s.conn)
	for i := 0; i < 2 && err == nil; i++ {
		switch request {
		case 0:
			session.SendPause()
		case 1:
			session.SendPlay(i, 1)
		case 2:
			session.SendTeardown()
		}
		_, err = session.WaitRtspResponse()
	}
	vsym.Assert(err != nil, "no error although the server did not answer")
	if vsym.Choose("more", 0, 1) == 1 {
		s.conn.Feed(vhFrame(0, vhRTP(true, 1, []byte{0x61, 1})))
		s.conn.Feed([]byte("RTSP/1.0 200 OK\r\n\r\n"))
		s.conn.Feed([]byte("RTSP/1.0 200 OK\r\n\r\n"))
	}
	for i := vsym.Choose("closes", 0, 2); i > 0; i-- {
		session.Close()
	}
	c38Over(before)
	vsym.Assert(s.conn.Closed(), "transport not closed")
	vsym.Reach("ok")
}

// Whatever the application does meanwhile.
//
// vh:bound a playing session of which the application handles a unit for 0, 1 or 30 s while 0..3 more messages (frames, responses) arrive, 1..2 goroutines send a request and wait or close it, and the server closes, resets, does not read or does nothing of that before Close; 1 time a goroutine is held at any point for any time
// vh:reach ok
// vh:opt sched=1 paths=1000000 paths_t=5000000
func VH_C38_Busy() {
	before := vsym.Goroutines()
	busy := []time.Duration{0, time.Second, 30 * time.Second}[vsym.Choose("busy", 0, 2)]
	more := vsym.Choose("more", 0, 3)
	calls := vsym.Choose("calls", 0, 3)
	end := vsym.Choose("end", 0, 3)
	s := NewRtspClientSession(func(d *RtspData) { time.Sleep(busy) }, func(*RtspEvent) {})
	srv := vhNewServer(vhAnswer(vhSDP("PCMU")))
	vsym.Assert(s.ParsingURL("rtsp://h/p") == nil, "valid URL refused")
	vsym.Assert(s.SetConnection(srv.conn) == nil, "session not established by an accepting server")
	vsym.Sched(1)
	srv.conn.Feed(vhFrame(0, vhRTP(true, 1, []byte{1})))
	for i := 0; i < more; i++ {
		if i == 1 {
			srv.conn.Feed([]byte("RTSP/1.0 200 OK\r\n\r\n"))
		} else {
			srv.conn.Feed(vhFrame(0, vhRTP(true, 1, []byte{2})))
		}
	}
	if calls&1 != 0 {
		go func() {
			if s.SendPause() == nil {
				s.WaitRtspResponse()
			}
		}()
	}
	if calls&2 != 0 {
		go s.Close()
	}
	switch end {
	case 0:
		srv.conn.Hangup()
	case 1:
		srv.conn.WErr = errors.New("reset")
		srv.conn.FeedErr(errors.New("reset"))
	case 2:
		srv.conn.Gate = make(chan struct{})
	}
	s.Close()
	// up to 4 units are handled one after the other
	time.Sleep(3 * busy)
	c38Over(before)
	vsym.Assert(srv.conn.Closed(), "transport not closed")
	vsym.Reach("ok")
}

// Sessions over a WebSocket.
//
// vh:bound a session started with PlayUseWebsocket that is not connected, is refused or not answered at any step, or plays, 1..2 times on one object; ended by Close, by the server or an error
// vh:reach ok
func VH_C38_WebSocket() {
	before := vsym.Goroutines()
	app := &vhApp{}
	s := app.session()
	for i := vsym.Choose("times", 1, 2); i > 0; i-- {
		c38Web(s, vsym.Choose("state", 0, 7), vsym.Choose("end", 0, 2))
		c38Over(before)
	}
	vsym.Reach("ok")
}

func c38Web(s *RtspClientSession, state, end int) {
	if state == 7 {
		vhNoWS()
		vsym.Assert(s.PlayUseWebsocket("ws://w/", "rtsp://h/p") != nil, "success without a connection")
		return
	}
	w := vhNewWS()
	good := vhAnswer(vhSDP("PCMU"))
	n := 0
	w.onData = func(p string) {
		if n == state%3 && state < 6 {
			if state < 3 {
				w.raw.Feed(vhWSFrame(2, true, []byte("RTSP/1.0 500 X\r\n\r\n")))
			}
			n++
			return
		}
		w.raw.Feed(vhWSFrame(2, true, []byte(good(n, p))))
		n++
	}
	s.PlayUseWebsocket("ws://w/", "rtsp://h/p")
	switch end {
	case 0:
		s.Close()
	case 1:
		w.raw.Hangup()
	case 2:
		w.raw.FeedErr(errors.New("reset"))
	}
	time.Sleep(20 * time.Second)
	vsym.Quiesce()
	vsym.Assert(w.raw.Closed(), "transport not closed")
}

// Many sessions.
//
// vh:bound 20 sessions one after the other on one object or on two by turns, each of one of 19 histories in 3 orders
// vh:reach ok
// vh:opt steps=100000000
func VH_C38_Many() {
	before := vsym.Goroutines()
	app := &vhApp{}
	ss := []*RtspClientSession{app.session(), app.session()}
	one := vsym.Choose("one", 0, 1) == 1
	step := []int{1, 5, 7}[vsym.Choose("order", 0, 2)]
	for i := 0; i < 20; i++ {
		s := ss[i%2]
		if one {
			s = ss[0]
		}
		c34history(app, s, i*step%19)
	}
	c38Over(before)
	vsym.Reach("ok")
}

