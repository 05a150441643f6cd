package rtspclient

import (
	"errors"
	"net"
	"time"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

//vh:use commonupset

// c16Check runs f, which is to fail (unless it has no result) and end the
// connection in bounded time.
func c16Check(app *vhApp, s *c16Server, f func() error) {
	start := time.Now()
	e0 := vhCount(app.events, RtspEventDisconnected)
	done := false
	var err error
	go func() {
		err = f()
		done = true
	}()
	// at most: 3 time-outs of 2 s for replies, 2 of 5 s for sending
	for i := 0; i < 16 && !done; i++ {
		time.Sleep(time.Second)
		vsym.Quiesce()
	}
	vsym.Assert(done, "caller hangs")
	vsym.Assert(err != nil, "no error although the server did not answer")
	for i := 0; i < 16 && time.Since(start) < 20*time.Second; i++ {
		time.Sleep(time.Second)
	}
	vsym.Quiesce()
	vsym.Assert(s.conn.Closed(), "connection not closed")
	vsym.Assert(vhCount(app.events, RtspEventDisconnected) == e0+1, "no disconnect event")
	vsym.Reach("failed")
}

// At every step of the set-up.
//
// vh:bound set-up of 1 (thorough 1..3) medias, every step, where the server is silent, closes, resets, cannot be written to, does not read, sends part of a response (cut at 4 places) or body (5 places) or frame (4 places) and then nothing or closes, or sends frames only; with Play or SetConnection
// vh:reach failed
func VH_C16_SetUp() {
	app := &vhApp{}
	session := app.session()
	medias := 1
	if vsym.Tier() == 1 {
		medias = vsym.Choose("medias", 1, 3)
	}
	s := c16New(vsym.Choose("step", 0, medias+1), vsym.Choose("kind", 0, c16Kinds-1), []string{"VP8", "PCMU", "x"}[:medias]...)
	play := vsym.Choose("play", 0, 1) == 1
	c16Check(app, s, func() error {
		if play {
			vsym.SetDial(func(network, address string, timeout time.Duration) (net.Conn, error) { return s.conn, nil })
			return session.Play("rtsp://h/p")
		}
		if session.ParsingURL("rtsp://h/p") != nil {
			vsym.Fail("valid URL refused")
		}
		return session.SetConnection(s.conn)
	})
	for i, r := range s.reqs {
		vsym.Assert(i <= s.step || vhMethod(r) == "TEARDOWN", "set-up continued without an answer")
	}
}

// At the request that answers a challenge.
//
// vh:bound the same behaviours at the first and second DESCRIBE, SETUP and PLAY of a session whose server wants authorization
// vh:reach failed
func VH_C16_Challenge() {
	app := &vhApp{}
	session := app.session()
	s := c16New(vsym.Choose("step", 0, 3), vsym.Choose("kind", 0, c16Kinds-1), "VP8")
	good := s.good
	s.good = func(i int, req string) string {
		if i == 0 {
			return "RTSP/1.0 401 Unauthorized\r\nCSeq: 0\r\nWWW-Authenticate: Basic realm=\"x\"\r\n\r\n"
		}
		return good(i, req)
	}
	c16Check(app, s, func() error {
		if session.ParsingURL("rtsp://u:p@h/p") != nil {
			vsym.Fail("valid URL refused")
		}
		return session.SetConnection(s.conn)
	})
}

// At a later request.
//
// vh:bound the same behaviours at the first, second or third request (each PAUSE, PLAY, DESCRIBE, SETUP or TEARDOWN) of a session that plays
// vh:reach failed
func VH_C16_Later() {
	app := &vhApp{}
	session := app.session()
	nth := vsym.Choose("nth", 0, 1+vsym.Tier())
	s := c16New(3+nth, vsym.Choose("kind", 0, c16Kinds-1), "VP8")
	if session.ParsingURL("rtsp://h/p") != nil {
		vsym.Fail("valid URL refused")
	}
	vsym.Assert(session.SetConnection(s.conn) == nil, "session not established by an accepting server")
	request := func() error {
		var err error
		switch vsym.Choose("request", 0, 4) {
		case 0:
			err = session.SendPause()
		case 1:
			err = session.SendPlay(0, 1)
		case 2:
			err = session.SendDescribe()
		case 3:
			err = session.SendTcpSetup("rtsp://h/p/t0", 0, 1)
		case 4:
			err = session.SendTeardown()
		}
		if err == nil {
			_, err = session.WaitRtspResponse()
		}
		return err
	}
	for i := 0; i < nth; i++ {
		vsym.Assert(request() == nil, "reply lost")
	}
	c16Check(app, s, request)
}

// Arbitrary bytes instead of a response.
//
// vh:bound set-up of 1 media, every step, where the server sends 1..6 (thorough 11) arbitrary bytes that are no response (a dollar sign only as the first, with a length below 16), any time up to 1 s after the request, at once or the last one any time up to 1 s later, then nothing more or closes or goes on with a frame
// vh:reach failed
func VH_C16_Bytes() {
	app := &vhApp{}
	session := app.session()
	s := c16New(vsym.Choose("step", 0, 2), -1, "VP8")
	n := vsym.Choose("n", 1, 6+5*vsym.Tier())
	b := vsym.Bytes("bytes", n)
	for i := 1; i < n; i++ {
		vsym.Assume(b[i] != '$')
	}
	if n >= 4 {
		vsym.Assume(b[0] != '$' || b[2] == 0 && b[3] < 16)
	}
	s.reply = func(i int, req string) string {
		if i < s.step {
			return s.good(i, req)
		}
		if i == s.step {
			go func() {
				time.Sleep(vsym.Delay("late", 0, time.Second))
				s.conn.Feed(b[:n-1])
				time.Sleep(vsym.Delay("last", 0, time.Second))
				s.conn.Feed(b[n-1:])
				switch vsym.Choose("then", 0, 2) {
				case 1:
					s.conn.Hangup()
				case 2:
					s.conn.Feed(vhFrame(0, vhRTP(true, 1, []byte{1, 2})))
				}
			}()
		}
		return ""
	}
	c16Check(app, s, func() error {
		if session.ParsingURL("rtsp://h/p") != nil {
			vsym.Fail("valid URL refused")
		}
		return session.SetConnection(s.conn)
	})
}

// While closing.
//
// vh:bound the same behaviours at the TEARDOWN of a session that plays
// vh:reach failed
func VH_C16_Close() {
	app := &vhApp{}
	session := app.session()
	s := c16New(3, vsym.Choose("kind", 0, c16Kinds-1), "VP8")
	if session.ParsingURL("rtsp://h/p") != nil {
		vsym.Fail("valid URL refused")
	}
	vsym.Assert(session.SetConnection(s.conn) == nil, "session not established by an accepting server")
	c16Check(app, s, func() error {
		session.Close()
		return errors.New("closed")
	})
}

// A caller that does not know yet that the connection is gone.
//
// vh:bound close or reset by the server at the same time as or any time up to 5 s before each of the five requests of a session that plays
// vh:reach failed
func VH_C16_Gone() {
	app, session, srv := vhPlaying("VP8")
	s := &c16Server{vhServer: srv}
	if vsym.Choose("reset", 0, 1) == 1 {
		srv.conn.WErr = errors.New("reset")
		srv.conn.FeedErr(errors.New("reset"))
	} else {
		srv.conn.Hangup()
	}
	srv.reply = func(int, string) string { return "" }
	gone := 0
	if vsym.Choose("before", 0, 1) == 1 {
		time.Sleep(vsym.Delay("since", 1, 5*time.Second))
		gone = 1
	}
	n := vhCount(app.events, RtspEventDisconnected)
	vsym.Assert(n <= 1 && n >= gone, "disconnection not reported once")
	app.events = nil
	k := vsym.Choose("request", 0, 4)
	start := time.Now()
	var err error
	switch k {
	case 0:
		err = session.SendPause()
	case 1:
		err = session.SendPlay(0, 1)
	case 2:
		err = session.SendDescribe()
	case 3:
		err = session.SendTcpSetup("rtsp://h/p/t0", 0, 1)
	case 4:
		err = session.SendTeardown()
	}
	if err == nil {
		_, err = session.WaitRtspResponse()
	}
	vsym.Assert(err != nil, "reply from a server that is gone")
	vsym.Assert(time.Since(start) <= 16*time.Second, "caller hangs")
	time.Sleep(10 * time.Second)
	vsym.Quiesce()
	vsym.Assert(s.conn.Closed(), "connection not closed")
	vsym.Assert(n+vhCount(app.events, RtspEventDisconnected) == 1, "disconnection not reported once")
	vsym.Reach("failed")
}

// A reply close to the time-out.
//
// vh:bound the reply to PAUSE comes any time up to 10 s after it
// vh:reach reply error
func VH_C16_Late() {
	app, session, srv := vhPlaying("VP8")
	d := vsym.Delay("late", 0, 10*time.Second)
	srv.reply = func(i int, req string) string {
		go func() {
			time.Sleep(d)
			srv.conn.Feed([]byte(vhOK(req, "", "")))
		}()
		return ""
	}
	start := time.Now()
	vsym.Assert(session.SendPause() == nil, "request refused")
	r, err := session.WaitRtspResponse()
	if d < 2*time.Second {
		vsym.Assert(err == nil && r != nil && r.Status == 200, "reply lost")
		vsym.Assert(!srv.conn.Closed(), "connection closed after a reply")
		vsym.Reach("reply")
		return
	}
	// a longer time-out is as good
	if err != nil {
		vsym.Assert(time.Since(start) <= 16*time.Second, "caller hangs")
		time.Sleep(10 * time.Second)
		vsym.Quiesce()
		vsym.Assert(srv.conn.Closed(), "connection not closed")
		vsym.Assert(vhCount(app.events, RtspEventDisconnected) == 1, "disconnection not reported once")
		vsym.Reach("error")
	}
}
