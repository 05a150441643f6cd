package rtspclient

import (
	"errors"
	"net"
	"time"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

//vh:use commonauth

// States a session can be closed in.
const (
	c29New       = iota // no connection yet
	c29DialFails        // the server could not be reached
	c29Refused          // set-up refused by the server, connection alive
	c29Playing          // set up
	c29Paused           // paused and answered
	c29Hangup           // set up, then ended by the server
	c29Reset            // set up, then ended by a read error
	c29Silent           // the server did not answer the set-up
	c29Closed           // set up and closed before
	c29States
)

// c29Teardown is how the server takes the TEARDOWN.
const (
	c29OK = iota
	c29Error
	c29NoAnswer
	c29Hang
	c29NoRead
	c29Late
	c29Data
	c29Teardowns
)

type c29Run struct {
	app   *vhApp
	s     *RtspClientSession
	srv   *vhServer
	kind  int // of answer to TEARDOWN
	first bool
	id    string
	// SETUP requests answered
	setups int
}

// c29Reach brings a session into the given state.
func c29Reach(state int) *c29Run {
	r := &c29Run{app: &vhApp{}, first: true}
	r.s = r.app.session()
	refuse := -1
	if state == c29Refused || state == c29Silent {
		refuse = vsym.Choose("step", 0, 3)
	}
	r.id = vhToken("session", 3)
	r.srv = vhNewServer(nil)
	good := vhAnswer(vhSDP("H264", "PCMU"))
	r.srv.reply = func(i int, req string) string {
		switch vhMethod(req) {
		case "TEARDOWN":
			return r.teardown(req)
		case "SETUP":
			if i != refuse {
				r.setups++
				return vhOK(req, "Session: "+r.id+"\r\n", "")
			}
		}
		if i == refuse && state == c29Refused {
			return "RTSP/1.0 404 Not Found\r\n\r\n"
		} else if i == refuse {
			return ""
		}
		return good(i, req)
	}
	if state == c29New {
		if vsym.Choose("url", 0, 1) == 1 {
			r.s.ParsingURL("rtsp://h/p")
		}
		return r
	}
	vsym.SetDial(func(network, address string, timeout time.Duration) (net.Conn, error) {
		if state == c29DialFails {
			return nil, errors.New("refused")
		}
		return r.srv.conn, nil
	})
	err := r.s.Play("rtsp://h/p")
	vsym.Assert((err == nil) == (state != c29DialFails && refuse < 0), "wrong outcome")
	switch state {
	case c29Paused:
		r.s.SendPause()
		r.s.WaitRtspResponse()
	case c29Hangup:
		r.srv.conn.Hangup()
	case c29Reset:
		r.srv.conn.FeedErr(errors.New("reset"))
	case c29Closed:
		r.close(state)
	}
	vsym.Quiesce()
	return r
}

func (r *c29Run) teardown(req string) string {
	switch r.kind {
	case c29OK:
		return vhOK(req, "", "")
	case c29Error:
		return "RTSP/1.0 454 Session Not Found\r\n\r\n"
	case c29Hang:
		r.srv.conn.Hangup()
	case c29Late:
		d := vsym.Delay("late", 1, 5*time.Second)
		go func() {
			time.Sleep(d)
			r.srv.conn.Feed([]byte(vhOK(req, "", "")))
		}()
	case c29Data:
		r.srv.conn.Feed(vhFrame(0, vhRTP(true, 1, []byte{0x61, 1})))
		return vhOK(req, "", "")
	}
	return ""
}

// alive tells whether the connection of the state is alive.
func c29Alive(state int) bool { return state == c29Refused || state == c29Playing || state == c29Paused }

// close closes the session and checks what that does.
func (r *c29Run) close(state int) {
	n := len(r.srv.reqs)
	t := time.Now()
	r.s.Close()
	vsym.Assert(time.Since(t) <= 20*time.Second, "close blocks")
	r.closed(n, c29Alive(state) || state == c29Closed && r.first)
	r.first = false
}

// closed checks the outcome of a close after n requests, on a connection that was alive or not.
func (r *c29Run) closed(n int, alive bool) {
	time.Sleep(20 * time.Second)
	vsym.Quiesce()
	if alive && r.kind != c29NoRead {
		vsym.Assert(len(r.srv.reqs) == n+1 && r.srv.acc == "", "not one request before the transport is closed")
		req := r.srv.reqs[n]
		p := "TEARDOWN rtsp://h/p RTSP/1.0\r\n"
		vsym.Assert(len(req) > len(p) && req[:len(p)] == p, "no TEARDOWN for the session")
		if r.setups > 0 {
			h := vhHeader(req, "Session")
			vsym.Assert(len(h) == 1 && h[0] == r.id, "TEARDOWN of another session")
		}
	} else {
		vsym.Assert(len(r.srv.reqs) == n && r.srv.acc == "", "request on a connection that is not alive")
	}
	if alive {
		vsym.Assert(r.srv.conn.Closed(), "transport not closed")
		vsym.Assert(vhCount(r.app.events, RtspEventDisconnected) == 1, "not one disconnect event")
		vsym.Reach("closed")
	}
}

// Close in every state.
//
// vh:bound never connected, server not reached, set-up refused or not answered at each of four steps, playing, paused, ended by the server in two ways, closed before; 1..2 calls of Close; session identifier of any 3 token characters; the server answers the TEARDOWN with success, with an error, not at all, any time up to 5 s late, closes, sends data first, or does not read any more
// vh:reach closed done
func VH_C29_States() {
	state := vsym.Choose("state", 0, c29States-1)
	kind := vsym.Choose("teardown", 0, c29Teardowns-1)
	r := c29Reach(state)
	d0 := vhCount(r.app.events, RtspEventDisconnected)
	r.kind = kind
	if state != c29Closed && kind == c29NoRead {
		r.srv.conn.Gate = make(chan struct{})
	}
	alive := c29Alive(state)
	vsym.Assert(d0 == 1 || state == c29New || alive, "no disconnect event")
	r.first = false
	r.close(state)
	d := vhCount(r.app.events, RtspEventDisconnected)
	if !alive {
		vsym.Assert(d == d0, "disconnect event of a session that is not connected")
	}
	if vsym.Choose("again", 0, 1) == 1 {
		r.close(c29Closed)
		vsym.Assert(d == vhCount(r.app.events, RtspEventDisconnected), "another disconnect event")
	}
	vsym.Reach("done")
}

// Close while a request is outstanding.
//
// vh:bound Close by another goroutine at each of the four requests of a set-up, before the answer, in which case the request is answered afterwards, not answered or the server closes; then a second session
// vh:reach done
func VH_C29_During() {
	app := &vhApp{}
	s := app.session()
	step := vsym.Choose("step", 0, 3)
	after := vsym.Choose("after", 0, 2)
	good := vhAnswer(vhSDP("H264", "PCMU"))
	closed := false
	srv := vhNewServer(nil)
	srv.reply = func(i int, req string) string {
		if i != step {
			return good(i, req)
		}
		go func() {
			s.Close()
			closed = true
			switch after {
			case 0:
				srv.conn.Feed([]byte(good(i, req)))
			case 1:
				srv.conn.Hangup()
			}
		}()
		return ""
	}
	vsym.SetDial(func(network, address string, timeout time.Duration) (net.Conn, error) { return srv.conn, nil })
	err := s.Play("rtsp://h/p")
	time.Sleep(20 * time.Second)
	vsym.Quiesce()
	if after != 0 || step < 3 {
		vsym.Assert(err != nil, "success of a session closed during set-up")
	}
	vsym.Assert(closed, "close blocks")
	vsym.Assert(srv.conn.Closed(), "transport not closed")
	vsym.Assert(vhCount(app.events, RtspEventDisconnected) == 1, "not one disconnect event")
	good1, bad1 := vhCount(app.events, RtspEventRequestSuccess), vhCount(app.events, RtspEventRequestError)
	vsym.Assert(good1+bad1 == 1 && (good1 == 1) == (err == nil), "outcome not reported once")
	// the session can be used again
	srv2 := vhNewServer(good)
	vsym.SetDial(func(network, address string, timeout time.Duration) (net.Conn, error) { return srv2.conn, nil })
	vsym.Assert(s.Play("rtsp://h/q") == nil, "closed session cannot be started again")
	s.Close()
	vsym.Quiesce()
	vsym.Assert(srv2.conn.Closed(), "transport not closed")
	vsym.Assert(vhMethod(srv2.reqs[len(srv2.reqs)-1]) == "TEARDOWN", "no TEARDOWN for the session")
	vsym.Assert(vhCount(app.events, RtspEventDisconnected) == 2, "not one disconnect event")
	vsym.Reach("done")
}

// Close at the same time as other things.
//
// vh:bound on a playing session: Close twice, Close and the server closing, Close and a read error, Close and arriving data, Close and a write error, Close and PAUSE by another goroutine; 2 times a goroutine is held at any point for any time
// vh:reach done
// vh:opt sched=1 paths=1000000 paths_t=5000000
func VH_C29_Race() {
	app, s, srv := vhPlaying("PCMU")
	n := len(srv.reqs)
	vsym.Sched(2)
	done := false
	with := vsym.Choose("with", 0, 5)
	go func() {
		switch with {
		case 0:
			s.Close()
		case 1:
			srv.conn.Hangup()
		case 2:
			srv.conn.FeedErr(errors.New("reset"))
		case 3:
			srv.conn.Feed(vhFrame(0, vhRTP(true, 1, []byte{1, 2})))
			srv.conn.Feed([]byte("RTSP/1.0 200 OK\r\n\r\n"))
		case 4:
			srv.conn.WErr = errors.New("broken pipe")
		case 5:
			s.SendPause()
		}
		done = true
	}()
	s.Close()
	time.Sleep(30 * time.Second)
	vsym.Quiesce()
	vsym.Assert(done, "call blocks")
	vsym.Assert(srv.conn.Closed(), "transport not closed")
	vsym.Assert(vhCount(app.events, RtspEventDisconnected) == 1, "not one disconnect event")
	if with == 3 {
		vsym.Assert(len(srv.reqs) == n+1 && vhMethod(srv.reqs[n]) == "TEARDOWN", "no TEARDOWN for the session")
	}
	for _, r := range srv.reqs[n:] {
		vsym.Assert(vhMethod(r) == "TEARDOWN" || with == 5 && vhMethod(r) == "PAUSE", "unexpected request")
	}
	vsym.Reach("done")
}

// Close by the handlers of the application.
//
// vh:bound Close in the handler of the success, failure or disconnect event, or of received data
// vh:reach done
func VH_C29_FromHandler() {
	at := vsym.Choose("at", 0, 3)
	var s *RtspClientSession
	events := []int{}
	s = NewRtspClientSession(func(d *RtspData) {
		if at == 3 {
			s.Close()
		}
	}, func(e *RtspEvent) {
		events = append(events, e.EventType)
		if at == 0 && e.EventType == RtspEventRequestSuccess || at == 1 && e.EventType == RtspEventRequestError || at == 2 && e.EventType == RtspEventDisconnected {
			s.Close()
		}
	})
	good := vhAnswer(vhSDP("PCMU"))
	srv := vhNewServer(nil)
	srv.reply = func(i int, req string) string {
		if at == 1 && vhMethod(req) == "PLAY" {
			return "RTSP/1.0 500 X\r\n\r\n"
		}
		return good(i, req)
	}
	vsym.Assert(s.ParsingURL("rtsp://h/p") == nil, "valid URL refused")
	s.SetConnection(srv.conn)
	if at == 2 {
		srv.conn.Hangup()
	}
	if at == 3 {
		srv.conn.Feed(vhFrame(0, vhRTP(true, 1, []byte{1, 2})))
	}
	time.Sleep(20 * time.Second)
	vsym.Quiesce()
	vsym.Assert(srv.conn.Closed(), "transport not closed")
	vsym.Assert(vhCount(events, RtspEventDisconnected) == 1, "not one disconnect event")
	vsym.Assert((vhMethod(srv.reqs[len(srv.reqs)-1]) == "TEARDOWN") == (at != 2), "no TEARDOWN for the session, or one too many")
	vsym.Reach("done")
}
