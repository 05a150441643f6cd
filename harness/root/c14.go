package rtspclient

import (
	"time"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

// c14Send sends one of the five requests.
func c14Send(s *RtspClientSession, k int) error {
	switch k {
	case 0:
		return s.SendPause()
	case 1:
		return s.SendDescribe()
	case 2:
		return s.SendTcpSetup("rtsp://h/p/t0", 0, 1)
	case 3:
		return s.SendPlay(3, 2)
	}
	return s.SendTeardown()
}

var c14Methods = []string{"PAUSE", "DESCRIBE", "SETUP", "PLAY", "TEARDOWN"}

// c14State is what is known about a session that is being used.
type c14State struct {
	app     *vhApp
	s       *RtspClientSession
	srv     *vhServer
	n       int  // requests written
	waiting bool // a request has not been waited for
	reply   int  // status of the first response to it, 0 for none, -1 for a malformed one
	id      int
	frames  int
}

func c14New() *c14State {
	app, s, srv := vhPlaying("VP8")
	vsym.Quiesce()
	srv.reply = func(i int, req string) string { return "" }
	return &c14State{app: app, s: s, srv: srv, n: len(srv.reqs)}
}

// send sends request k and checks what becomes of it.
func (c *c14State) send(k int) {
	err := c14Send(c.s, k)
	vsym.Quiesce()
	if c.waiting {
		vsym.Assert(err != nil, "second request while one is outstanding")
		vsym.Assert(len(c.srv.reqs) == c.n && c.srv.acc == "", "refused request written")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(err == nil, "request refused")
	vsym.Assert(len(c.srv.reqs) == c.n+1 && c.srv.acc == "", "not one request written")
	vsym.Assert(vhMethod(c.srv.reqs[c.n]) == c14Methods[k], "wrong request")
	h, l := vhHeader(c.srv.reqs[c.n], "CSeq"), vhHeader(c.srv.reqs[c.n-1], "CSeq")
	vsym.Assert(len(h) == 1 && len(l) == 1 && c14Int(h[0]) == c14Int(l[0])+1, "sequence number consumed by a refused request")
	c.n++
	c.waiting, c.reply = true, 0
	vsym.Reach("sent")
}

func c14Int(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}

// respond lets the server send a response, well-formed or not.
func (c *c14State) respond(kind int) {
	status := -1
	text := "RTSP/1.0 200 OK\r\nContent-Length: x\r\n\r\n"
	if kind == 0 {
		c.id++
		d := vsym.Str("status", 3)
		for i := 0; i < 3; i++ {
			vsym.Assume(d[i] >= '0' && d[i] <= '9')
		}
		vsym.Assume(d[0] >= '1')
		text = "RTSP/1.0 " + d + " X\r\nCSeq: " + vhHeader(c.srv.reqs[c.n-1], "CSeq")[0] + "\r\n\r\n"
		status = c14Int(d)
	}
	c.srv.conn.Feed([]byte(text))
	vsym.Quiesce()
	if c.waiting && c.reply == 0 {
		c.reply = status
	}
}

// wait takes the reply.
func (c *c14State) wait() {
	if !c.waiting {
		return
	}
	t := time.Now()
	r, err := c.s.WaitRtspResponse()
	switch {
	case c.reply > 0:
		vsym.Assert(err == nil && r != nil, "reply lost")
		vsym.Assert(r.Status == c.reply, "response taken for the reply to another request")
		vsym.Assert(time.Since(t) == 0, "reply handed over late")
		vsym.Reach("reply")
	case c.reply < 0:
		// an error, or whatever can be made of it, but at once
		vsym.Assert(err != nil || r != nil, "neither reply nor error")
		vsym.Assert(time.Since(t) == 0, "reply handed over late")
		vsym.Reach("malformed")
	default:
		vsym.Assert(err != nil, "reply out of nothing")
		vsym.Reach("silence")
	}
	if c.reply == 0 {
		// the connection is given up; the session can be used again
		vsym.Quiesce()
		c.srv.conn.Hangup()
		vsym.Quiesce()
		c.srv = vhNewServer(vhAnswer(vhSDP("VP8")))
		vsym.Assert(c.s.SetConnection(c.srv.conn) == nil, "session not usable after a failed wait")
		vsym.Quiesce()
		c.srv.reply = func(i int, req string) string { return "" }
		c.n = len(c.srv.reqs)
		c.frames = 0
		c.app.data = nil
	}
	c.waiting, c.reply = false, 0
}

// data checks that data still flows.
func (c *c14State) data() {
	c.srv.conn.Feed(vhFrame(0, vhRTP(true, c.frames, []byte{byte(c.frames)})))
	c.frames++
	vsym.Quiesce()
	vsym.Assert(len(c.app.data) == c.frames, "data does not flow any more")
}

// Every way of using a session.
//
// vh:bound every sequence of 6 (thorough 8) steps, each one of: send (PAUSE, DESCRIBE, SETUP, PLAY, TEARDOWN in turn, quick), response with any status, malformed response, wait for the reply (answered or not); then one more request and its reply, and data
// vh:reach sent refused reply malformed silence
func VH_C14_Sequence() {
	c := c14New()
	for i := 0; i < 6+2*vsym.Tier(); i++ {
		switch vsym.Choose("step", 0, 3) {
		case 0:
			c.send(i % 5)
		case 1:
			c.respond(0)
		case 2:
			c.respond(1)
		case 3:
			c.wait()
		}
	}
	c.data()
	if c.waiting {
		c.respond(0)
		c.wait()
	}
	c.send(4)
	c.respond(0)
	c.wait()
	c.data()
}

// Every pair of requests, one while the other is outstanding.
//
// vh:bound every pair of the five requests; 0..2 responses of any status nobody asked for before, 0..3 responses to the first request, and the second request again afterwards
// vh:reach sent refused reply
func VH_C14_Pair() {
	c := c14New()
	for i := vsym.Choose("before", 0, 2); i > 0; i-- {
		c.respond(0)
	}
	a, b := vsym.Choose("a", 0, 4), vsym.Choose("b", 0, 4)
	c.send(a)
	c.send(b)
	for i := vsym.Choose("responses", 0, 3); i > 0; i-- {
		c.respond(0)
		if vsym.Choose("again", 0, 1) == 1 {
			c.send(b)
		}
	}
	if c.reply == 0 {
		c.respond(0)
	}
	c.wait()
	c.send(b)
	c.send(a)
	c.respond(0)
	c.wait()
	c.data()
}

// A request while another goroutine waits for a reply.
//
// vh:bound every pair of the five requests, the reply of any status coming any time up to 10 s later
// vh:reach reply none
func VH_C14_Waiting() {
	c := c14New()
	a, b := vsym.Choose("a", 0, 4), vsym.Choose("b", 0, 4)
	var r *RtspResponseContext
	var err error
	done := false
	c.send(a)
	go func() {
		r, err = c.s.WaitRtspResponse()
		done = true
	}()
	vsym.Quiesce()
	c.send(b)
	d := vsym.Delay("delay", 0, 10*time.Second)
	time.Sleep(d)
	vsym.Quiesce()
	if d < 2*time.Second {
		vsym.Assert(!done, "reply before it was sent")
		c.send(b)
		c.respond(0)
		vsym.Quiesce()
		vsym.Assert(done && err == nil && r.Status == c.reply, "wrong reply")
		c.waiting = false
		c.send(b)
		c.respond(0)
		c.wait()
		c.data()
		vsym.Reach("reply")
	} else if done {
		vsym.Assert(err != nil, "no reply, no error")
		vsym.Reach("none")
	}
}

// Many requests, and many responses nobody asked for.
//
// vh:bound 60 requests in turn, each refused once while it is outstanding and answered once or twice with any status (the first always below 256 different ones), with 0, 1, 5, 20, 64 or 200 responses nobody asked for before every tenth and frames in between
// vh:reach sent refused reply
// vh:opt steps=40000000
func VH_C14_Many() {
	c := c14New()
	extra := []int{0, 1, 5, 20, 64, 200}[vsym.Choose("extra", 0, 5)]
	twice := vsym.Choose("twice", 0, 1)
	for i := 0; i < 60; i++ {
		if i%10 == 0 {
			for j := 0; j < extra; j++ {
				c.srv.conn.Feed([]byte("RTSP/1.0 299 X\r\nCSeq: 1\r\n\r\n"))
			}
			vsym.Quiesce()
			c.data()
		}
		c.send(i % 5)
		c.send((i + 1 + i/5) % 5)
		for j := 0; j <= twice; j++ {
			if i == 59 {
				c.respond(0)
			} else {
				c.srv.conn.Feed([]byte("RTSP/1.0 " + vhItoa(300+2*i+j) + " X\r\nCSeq: " + vhHeader(c.srv.reqs[c.n-1], "CSeq")[0] + "\r\n\r\n"))
				vsym.Quiesce()
				if j == 0 {
					c.reply = 300 + 2*i
				}
			}
		}
		c.wait()
	}
	c.data()
}
