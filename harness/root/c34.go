package rtspclient

import (
	"errors"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

//vh:use commonauth
//vh:use commonhist

// A session object that was used before behaves like a new one.
//
// vh:bound any of 19 histories (connection refused; 500 or silence at any step; end by the server, an error or Close, within units or with a request unanswered or an answer left; authorization accepted and refused; no medias, no description, bad URL), then a session of which the server accepts everything, refuses any step with an arbitrary status, is silent at any step or asks for authorization; then an arbitrary frame on any channel, ends of units that were not begun, PAUSE and Close; compared with the same on a new object
// vh:reach same refused playing
// vh:opt paths=1000000 steps=100000000
func VH_C34_Again() {
	h := vsym.Choose("history", 0, 18)
	kind := vsym.Choose("server", 0, 3)
	step := 0
	if kind == 1 || kind == 2 {
		step = vsym.Choose("step", 0, 4)
	}
	status := ""
	if kind == 1 {
		status = vsym.Str("status", 3)
		for i := 0; i < 3; i++ {
			vsym.Assume(status[i] >= '0' && status[i] <= '9')
		}
		vsym.Assume(status[0] >= '1')
	}
	codecs := [][]string{{"H264"}, {"PCMU", "H264"}}[vsym.Choose("codecs", 0, 1)]
	url := []string{"rtsp://h/p", "rtsp://u:v@h/p"}[vsym.Choose("url", 0, 1)]
	good := vhAnswer(vhSDP(codecs...))
	reply := func(i int, req string) string {
		switch {
		case kind == 1 && i == step:
			return "RTSP/1.0 " + status + " X\r\nSession: q\r\nWWW-Authenticate: Basic realm=\"r\"\r\n\r\n"
		case kind == 2 && i == step:
			return ""
		case kind == 3 && !strings.Contains(req, "Authorization:"):
			return "RTSP/1.0 401 U\r\nWWW-Authenticate: Digest realm=\"r2\", nonce=\"n2\"\r\n\r\n"
		}
		return good(i, req)
	}
	ch, b := vsym.Byte("channel"), vsym.Byte("payload")
	then := func(s *RtspClientSession, c *vsym.Conn) {
		c.Feed(vhFrame(ch, vhRTP(true, 1, []byte{b, 2, 3})))
		c.Feed(vhFrame(0, vhRTP(true, 1, []byte{0x7c, 0x45, 7})))
		c.Feed(vhFrame(4, vhRTP(true, 1, []byte{0x62, 1, 0x53, 7})))
		vsym.Quiesce()
		if s.SendPause() == nil {
			s.WaitRtspResponse()
		}
		s.Close()
	}
	app := &vhApp{}
	s := app.session()
	c34history(app, s, h)
	again := c34play(app, s, url, reply, then)
	app2 := &vhApp{}
	fresh := c34play(app2, app2.session(), url, reply, then)
	c34same(again, fresh)
	// and nothing of the process is left either
	set := false
	for _, r := range again.reqs[:len(again.reqs)-1] {
		f := strings.Split(r[:strings.Index(r, "\r\n")], " ")
		vsym.Assert(len(f) == 3 && (f[1] == "rtsp://h/p" || strings.HasPrefix(f[1], "rtsp://h/p/t")), "URL of an earlier session")
		vsym.Assert(!strings.Contains(r, "username=\"a\"") && !strings.Contains(r, "realm=\"r\"") && !strings.Contains(r, "YTpi"), "credentials of an earlier session")
		if a := vhHeader(r, "Authorization"); kind == 3 && len(a) > 0 {
			vsym.Assert(strings.Contains(a[0], "response=\""+vhDigest("u", "r2", "v", "n2", f[0], f[1])+"\""), "wrong authorization")
		}
		if id := vhHeader(r, "Session"); len(id) > 0 {
			vsym.Assert(set && (id[0] == "12345678" || kind == 1 && id[0] == "q"), "session identifier of an earlier session")
		}
		set = set || f[0] == "SETUP"
	}
	vsym.Assert(again.reqs[len(again.reqs)-1] == "tcp h:554"+"\n", "connection to the address of an earlier session")
	if fresh.err == "" {
		vsym.Reach("playing")
	} else {
		vsym.Reach("refused")
	}
	vsym.Reach("same")
}

// What is left of an earlier connection does not reach the next session.
//
// vh:bound a session that ends (by the server, an error, Close, an answer that does not come) while the application is busy with a unit and 1..2 more messages (frames of two channels, a response) are on their way; the next session is started from another goroutine meanwhile, and the application goes on before, at any request of, or after the set-up; once a goroutine is held at any point (quick: where one response is left and the application goes on at the second request or at the same time)
// vh:reach same
// vh:opt sched=1 paths=1000000
func VH_C34_Late() {
	busy := make(chan bool)
	got, events := []*RtspData{}, []int{}
	inside := false
	s := NewRtspClientSession(func(d *RtspData) {
		if len(d.Data) == 1 && d.Data[0] == 99 {
			inside = true
			<-busy
			return
		}
		got = append(got, d)
	}, func(e *RtspEvent) { events = append(events, e.EventType) })
	good := vhAnswer(vhSDP("PCMU", "H264"))
	old := vhNewServer(good)
	vsym.Assert(s.ParsingURL("rtsp://h/p") == nil, "valid URL refused")
	vsym.Assert(s.SetConnection(old.conn) == nil, "session not established by an accepting server")
	end := vsym.Choose("end", 0, 2)
	if end == 2 {
		s.SendPause() // no answer
		old.reply = func(int, string) string { return "" }
	}
	old.conn.Feed(vhFrame(0, vhRTP(true, 1, []byte{99})))
	n := vsym.Choose("left", 1, 2)
	first := ""
	for i := 0; i < n; i++ {
		switch vsym.Choose("message", 0, 2) {
		case 0:
			first = "RTSP/1.0 500 X\r\nCSeq: 1\r\n\r\n"
			old.conn.Feed([]byte(first))
		case 1:
			old.conn.Feed(vhFrame(0, vhRTP(true, 1, []byte{98})))
		case 2:
			old.conn.Feed(vhFrame(2, vhRTP(false, 1, []byte{0x7c, 0x85, 66, 66})))
		}
	}
	vsym.Quiesce()
	vsym.Assert(inside, "unit not delivered")
	when := vsym.Choose("goes_on", 0, 5)
	if vsym.Tier() == 1 || n == 1 && len(first) > 4 && (when == 2 || when == 5) {
		vsym.Sched(1)
	}
	switch end {
	case 0:
		old.conn.Hangup()
	case 1:
		s.Close()
	case 2:
		old.conn.FeedErr(errors.New("reset"))
	}
	vsym.Quiesce()
	srv := vhNewServer(nil)
	srv.reply = func(i int, req string) string {
		if i == when {
			busy <- true
			time.Sleep(100 * time.Millisecond)
		}
		return good(i, req)
	}
	if when == 5 {
		go func() { busy <- true }()
	}
	err := s.SetConnection(srv.conn)
	vsym.Assert(err == nil, "session not established by an accepting server")
	for i, r := range srv.reqs {
		vsym.Assert(vhMethod(r) == []string{"DESCRIBE", "SETUP", "SETUP", "PLAY"}[i], "unexpected request")
	}
	if when == 4 {
		busy <- true
	}
	got = got[:0]
	srv.conn.Feed(vhFrame(2, vhRTP(true, 1, []byte{0x7c, 0x45, 7})))
	srv.conn.Feed(vhFrame(0, vhRTP(true, 1, []byte{5})))
	vsym.Quiesce()
	for _, d := range got {
		if d.ChannelNum == 2 {
			vsym.Assert(string(d.Data) == "\x07", "bytes of the earlier session in a unit")
		}
	}
	ok := vhCount(events, RtspEventRequestSuccess)
	vsym.Assert(ok == 2, "success not reported")
	vsym.Reach("same")
}
