package rtspclient

import (
	"errors"
	"net"
	"time"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
	"github.com/gorilla/websocket"
)

//vh:use commonauth
//vh:use commonhist

// c37Start tries to start the session s, which is connected, in the given way.
func c37Start(app *vhApp, s *RtspClientSession, way, url int) {
	dialled := false
	vsym.SetDial(func(network, address string, timeout time.Duration) (net.Conn, error) {
		dialled = true
		return nil, errors.New("refused")
	})
	websocket.DefaultDialer.Proxy = nil
	websocket.DefaultDialer.NetDial = func(network, address string) (net.Conn, error) {
		dialled = true
		return nil, errors.New("refused")
	}
	u := []string{"rtsp://h/p", "rtsp://c:d@other:77/q?r", "rtsp://u:v@[x/y", ""}[url]
	n := len(app.events)
	t := time.Now()
	var err error
	if way == 0 {
		err = s.Play(u)
	} else {
		err = s.PlayUseWebsocket("ws://w/", u)
	}
	vsym.Assert(err != nil, "started although the session is connected")
	vsym.Assert(time.Since(t) == 0, "refusal takes time")
	vsym.Assert(!dialled, "another connection although the session is connected")
	vsym.Assert(len(app.events) == n, "event although nothing was started")
}

// A session that is connected is not started again.
//
// vh:bound a session on a new or used object, with or without authorization, that plays, that was refused at any of its steps but is connected, that is within a unit, or whose PAUSE is not answered yet, is started again 1..2 times with Play or PlayUseWebsocket and the same, another, an invalid or an empty URL; then frames, PAUSE or PLAY, and Close; compared with the same without that
// vh:reach same refused playing
func VH_C37_Connected() {
	used := vsym.Choose("used", 0, 1) == 1
	state := vsym.Choose("state", 0, 5) // 0..2: refused at that step
	ways := []int{vsym.Choose("way", 0, 1)}
	urls := []int{vsym.Choose("url", 0, 3)}
	if vsym.Choose("twice", 0, 1) == 1 {
		ways = append(ways, 1-ways[0])
		urls = append(urls, (urls[0]+1)%4)
	}
	auth := vsym.Choose("auth", 0, 1) == 1
	b := vsym.Byte("payload")
	good := vhAnswer(vhSDP("H264"))
	if used && state < 3 {
		state = 3
	}
	reply := func(i int, req string) string {
		if auth && len(vhHeader(req, "Authorization")) == 0 {
			return "RTSP/1.0 401 U\r\nWWW-Authenticate: Digest realm=\"r\", nonce=\"n\"\r\n\r\n"
		}
		if auth {
			i--
		}
		if state < 3 && i == state {
			return "RTSP/1.0 500 X\r\n\r\n"
		}
		if state == 5 && vhMethod(req) == "PAUSE" {
			return ""
		}
		return good(i, req)
	}
	run := func(try bool) *c34run {
		app := &vhApp{}
		s := app.session()
		if used {
			c34history(app, s, 8)
		}
		r := c34play(app, s, "rtsp://u:v@h/p", reply, func(s *RtspClientSession, c *vsym.Conn) {
			if state == 4 {
				c.Feed(vhFrame(0, vhRTP(false, 1, []byte{0x7c, 0x85, 1, b})))
				vsym.Quiesce()
			}
			if state == 5 {
				vsym.Assert(s.SendPause() == nil, "request refused")
				vsym.Quiesce()
			}
			if try {
				for i := range ways {
					c37Start(app, s, ways[i], urls[i])
					vsym.Assert(!c.Closed(), "connection closed")
				}
			}
			vsym.Assert((s.SendPlay(0, 1) == nil) == (state != 5), "request refused, or allowed although another one is not answered")
			if state == 5 {
				c.Feed([]byte("RTSP/1.0 200 OK\r\n\r\n"))
			}
			resp, err := s.WaitRtspResponse()
			vsym.Assert(err == nil && resp.Status == 200, "answer not received")
			c.Feed(vhFrame(0, vhRTP(true, 1, []byte{0x7c, 0x45, b, 7})))
			c.Feed(vhFrame(0, vhRTP(true, 2, []byte{0x65, b, 8})))
			vsym.Quiesce()
			s.Close()
		})
		return r
	}
	tried, plain := run(true), run(false)
	c34same(tried, plain)
	if plain.err == "" {
		vsym.Reach("playing")
	} else {
		vsym.Reach("refused")
	}
	vsym.Reach("same")
}

// Nor while it is being set up.
//
// vh:bound a session that is being set up (two medias) by another goroutine is started again with Play or PlayUseWebsocket and four URLs when any of its requests has arrived at the server, before it is answered
// vh:reach ok
func VH_C37_SettingUp() {
	app := &vhApp{}
	s := app.session()
	step := vsym.Choose("step", 0, 3)
	way, url := vsym.Choose("way", 0, 1), vsym.Choose("url", 0, 3)
	good := vhAnswer(vhSDP("H264", "PCMU"))
	srv := vhNewServer(nil)
	srv.reply = func(i int, req string) string {
		if i != step {
			return good(i, req)
		}
		go func() {
			time.Sleep(time.Millisecond)
			c37Start(app, s, way, url)
			srv.conn.Feed([]byte(good(i, req)))
		}()
		return ""
	}
	vsym.SetDial(func(network, address string, timeout time.Duration) (net.Conn, error) { return srv.conn, nil })
	vsym.Assert(s.Play("rtsp://h/p") == nil, "set-up failed")
	vsym.Assert(len(srv.reqs) == 4, "number of requests")
	for i, m := range []string{"DESCRIBE rtsp://h/p ", "SETUP rtsp://h/p/t0 ", "SETUP rtsp://h/p/t1 ", "PLAY rtsp://h/p "} {
		vsym.Assert(len(srv.reqs[i]) > len(m) && srv.reqs[i][:len(m)] == m, "wrong request")
	}
	vsym.Assert(len(app.events) == 1 && app.events[0] == RtspEventRequestSuccess, "success not reported once")
	vsym.Reach("ok")
}
