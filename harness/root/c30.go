package rtspclient

import (
	"errors"
	"net"
	"time"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

// The first request of a session.
//
// vh:bound a session started with Play or SetConnection on a server that answers everything, by an application that pauses or closes right afterwards or not, for the first or the second time; 1 (thorough 2) times a goroutine is held at any point for any time
// vh:reach ok again
// vh:opt sched=1 paths=1000000 paths_t=5000000
func VH_C30_First() {
	app := &vhApp{}
	s := app.session()
	play := vsym.Choose("play", 0, 1) == 1
	n := vsym.Choose("sessions", 1, 2)
	if n == 1 {
		vsym.Sched(1 + vsym.Tier())
	}
	for i := 0; i < n; i++ {
		if i == 1 {
			vsym.Sched(1 + vsym.Tier())
		}
		srv := vhNewServer(vhAnswer(vhSDP("PCMU")))
		var err error
		t := time.Now()
		if play {
			vsym.SetDial(func(network, address string, timeout time.Duration) (net.Conn, error) { return srv.conn, nil })
			err = s.Play("rtsp://h/p")
		} else {
			vsym.Assert(s.ParsingURL("rtsp://h/p") == nil, "valid URL refused")
			err = s.SetConnection(srv.conn)
		}
		vsym.Assert(len(srv.reqs) > 0 && vhMethod(srv.reqs[0]) == "DESCRIBE", "first request lost")
		vsym.Assert(err == nil, "session not established by an accepting server")
		vsym.Assert(time.Since(t) < time.Second, "request sent late")
		vsym.Assert(len(srv.reqs) == 3, "not one request each")
		vsym.Assert(len(app.events) == 2*i+1 && app.events[2*i] == RtspEventRequestSuccess, "success not reported once")
		switch vsym.Choose("then", 0, 1) {
		case 0:
			s.SendPause()
			time.Sleep(time.Millisecond) // a goroutine may be held
			vsym.Quiesce()
			vsym.Assert(len(srv.reqs) == 4 && vhMethod(srv.reqs[3]) == "PAUSE", "request lost")
			srv.conn.Hangup()
		case 1:
			s.Close()
			vsym.Assert(len(srv.reqs) == 4 && vhMethod(srv.reqs[3]) == "TEARDOWN", "request lost")
		}
		time.Sleep(20 * time.Second)
		vsym.Quiesce()
		vsym.Assert(srv.conn.Closed() && vhCount(app.events, RtspEventDisconnected) == i+1, "not one disconnect event")
		if i == 1 {
			vsym.Reach("again")
		}
	}
	vsym.Reach("ok")
}

// The first request, and a server that goes at once.
//
// vh:bound the server closes or the transport fails before the connection runs, at the same time, or on the first request; 2 times a goroutine is held at any point for any time
// vh:reach ok
// vh:opt sched=1 paths=1000000 paths_t=5000000
func VH_C30_GoneAtOnce() {
	app := &vhApp{}
	s := app.session()
	when := vsym.Choose("when", 0, 2)
	how := vsym.Choose("how", 0, 2)
	srv := vhNewServer(nil)
	end := func() {
		switch how {
		case 0:
			srv.conn.Hangup()
		case 1:
			srv.conn.FeedErr(errors.New("reset"))
		case 2:
			srv.conn.WErr = errors.New("broken pipe")
		}
	}
	srv.reply = func(i int, req string) string {
		if when == 2 && i == 0 {
			end()
		}
		return ""
	}
	vsym.Assert(s.ParsingURL("rtsp://h/p") == nil, "valid URL refused")
	vsym.Sched(2)
	if when == 0 {
		end()
	} else if when == 1 {
		go end()
	}
	err := s.SetConnection(srv.conn)
	time.Sleep(20 * time.Second)
	vsym.Quiesce()
	vsym.Assert(err != nil, "success without an answer")
	vsym.Assert(srv.conn.Closed() && vhCount(app.events, RtspEventDisconnected) == 1, "not one disconnect event")
	vsym.Reach("ok")
}

// Requests while the connection ends.
//
// vh:bound on a playing session 2 goroutines send 1..2 requests each (PAUSE, PLAY, or TEARDOWN and Close) while the server closes, the transport fails or the session is closed; 1 (thorough 2) times a goroutine is held at any point for any time
// vh:reach ok
// vh:opt sched=1 paths=1000000 paths_t=5000000
func VH_C30_WhileEnding() {
	app, s, srv := vhPlaying("PCMU")
	how := vsym.Choose("how", 0, 2)
	what := vsym.Choose("what", 0, 2)
	vsym.Sched(1 + vsym.Tier())
	left := 2
	send := func() {
		switch what {
		case 0:
			s.SendPause()
			s.WaitRtspResponse()
			s.SendPlay(1, 2)
		case 1:
			s.SendTeardown()
			s.Close()
		case 2:
			s.Close()
		}
		left--
	}
	go send()
	go func() {
		switch how {
		case 0:
			srv.conn.Hangup()
		case 1:
			srv.conn.WErr = errors.New("broken pipe")
			srv.conn.FeedErr(errors.New("reset"))
		case 2:
			s.Close()
		}
	}()
	send()
	time.Sleep(30 * time.Second)
	vsym.Quiesce()
	vsym.Assert(left == 0, "caller hangs")
	vsym.Assert(srv.conn.Closed() && vhCount(app.events, RtspEventDisconnected) == 1, "not one disconnect event")
	// and it can be used again
	srv2 := vhNewServer(vhAnswer(vhSDP("PCMU")))
	vsym.Assert(s.SetConnection(srv2.conn) == nil && len(srv2.reqs) == 3, "session not established by an accepting server")
	vsym.Reach("ok")
}

// A client that connects again and again.
//
// vh:bound 40 sessions one after the other, with Play or SetConnection, ended by Close, by the server, refused, or not answered, by turns in 3 orders
// vh:reach ok
// vh:opt steps=40000000
func VH_C30_Many() {
	app := &vhApp{}
	s := app.session()
	order := vsym.Choose("order", 1, 3)
	for i := 0; i < 40; i++ {
		kind := i * order % 5
		good := vhAnswer(vhSDP("PCMU", "H264"))
		srv := vhNewServer(nil)
		srv.reply = func(k int, req string) string {
			if kind == 2 && k == i%3 {
				return "RTSP/1.0 500 X\r\n\r\n"
			}
			if kind == 3 && k == i%4 {
				return ""
			}
			return good(k, req)
		}
		var err error
		if i%2 == 0 {
			vsym.SetDial(func(network, address string, timeout time.Duration) (net.Conn, error) { return srv.conn, nil })
			err = s.Play("rtsp://h/p")
		} else {
			vsym.Assert(s.ParsingURL("rtsp://h/p") == nil, "valid URL refused")
			err = s.SetConnection(srv.conn)
		}
		vsym.Assert(len(srv.reqs) > 0 && vhMethod(srv.reqs[0]) == "DESCRIBE", "first request lost")
		vsym.Assert((err == nil) == (kind != 2 && kind != 3), "wrong outcome")
		if err == nil {
			vsym.Assert(len(srv.reqs) == 4, "not one request each")
			app.data = nil
			srv.conn.Feed(vhFrame(0, vhRTP(true, i, []byte{byte(i)})))
			vsym.Quiesce()
			vsym.Assert(len(app.data) == 1 && app.data[0].Data[0] == byte(i), "data does not flow")
			vsym.Assert(s.SendPause() == nil, "request refused")
			_, err = s.WaitRtspResponse()
			vsym.Assert(err == nil && len(srv.reqs) == 5, "request lost")
		}
		if kind == 0 || kind == 2 {
			s.Close()
			vsym.Quiesce()
			vsym.Assert(vhMethod(srv.reqs[len(srv.reqs)-1]) == "TEARDOWN", "request lost")
		}
		srv.conn.Hangup()
		time.Sleep(10 * time.Second)
		vsym.Quiesce()
		vsym.Assert(srv.conn.Closed() && vhCount(app.events, RtspEventDisconnected) == i+1, "not one disconnect event")
	}
	vsym.Reach("ok")
}
