package rtspclient

import (
	"errors"
	"net"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
	"github.com/gorilla/websocket"
)

//vh:use commonws

// c28Conn is a WebSocket transport and its other end.
func c28Conn() (*vhWS, net.Conn) {
	w := vhNewWS()
	c, _, err := websocket.DefaultDialer.Dial("ws://w/x", nil)
	vsym.Assert(err == nil, "no WebSocket")
	return w, &WebsocketConn{conn: c}
}

// c28Feed sends a message, perhaps in fragments, perhaps with a ping between or before.
func c28Feed(w *vhWS, d []byte) {
	op := byte(1 + vsym.Choose("binary", 0, 1))
	var b []byte
	switch vsym.Choose("how", 0, 2) {
	case 0:
		b = vhWSFrame(op, true, d)
	case 1:
		b = append(vhWSFrame(9, true, []byte("p")), vhWSFrame(op, true, d)...)
	case 2:
		k := vsym.Choose("fragment", 0, len(d))
		b = append(vhWSFrame(op, false, d[:k]), vhWSFrame(9, true, nil)...)
		b = append(b, vhWSFrame(0, true, d[k:])...)
	}
	w.raw.Feed(b)
}

// Messages read with buffers of any size.
//
// vh:bound 0..3 messages of 0..3 (thorough 0..4) arbitrary bytes, text or binary, in one frame or two, with pings before or between; read buffers of 0..4 bytes, changing from read to read; then the server closes or the transport fails
// vh:reach ok
// vh:opt paths=1000000 paths_t=5000000
func VH_C28_Read() {
	w, c := c28Conn()
	var want []byte
	for i := vsym.Choose("messages", 0, 3); i > 0; i-- {
		d := vsym.Bytes("data", vsym.Choose("len", 0, 3+vsym.Tier()))
		want = append(want, d...)
		if i == 1 {
			c28Feed(w, d)
		} else {
			w.raw.Feed(vhWSFrame(2, true, d))
		}
	}
	end := vsym.Choose("end", 0, 2)
	switch end {
	case 0:
		w.raw.Feed(vhWSFrame(8, true, []byte{3, 232}))
	case 1:
		w.raw.Hangup()
	case 2:
		w.raw.FeedErr(errors.New("reset"))
	}
	var got []byte
	a, b := vsym.Choose("buffer", 1, 4), vsym.Choose("buffer2", 0, 4)
	buf := make([]byte, 8)
	for i := 0; ; i++ {
		vsym.Assert(i < 40, "no end of the stream")
		size := a
		if i%2 == 1 {
			size = b
		}
		for k := range buf {
			buf[k] = 0xee
		}
		n, err := c.Read(buf[:size])
		vsym.Assert(n >= 0 && n <= size, "impossible count")
		got = append(got, buf[:n]...)
		for k := n; k < len(buf); k++ {
			vsym.Assert(buf[k] == 0xee, "written beyond the bytes returned")
		}
		if err != nil {
			break
		}
	}
	vsym.Assert(string(got) == string(want), "bytes read are not the bytes of the messages")
	vsym.Reach("ok")
}

// Messages of a size that needs longer length fields.
//
// vh:bound a message of 124..128, 4095..4097 or 65534..65537 bytes, the first and last two arbitrary, and a short one, read with a buffer of 1000, 4096 or 65535 bytes
// vh:reach ok
// vh:opt steps=20000000
func VH_C28_ReadLarge() {
	w, c := c28Conn()
	n := []int{124, 125, 126, 127, 128, 4095, 4096, 4097, 65534, 65535, 65536, 65537}[vsym.Choose("size", 0, 11)]
	d := make([]byte, n)
	copy(d, vsym.Bytes("first", 2))
	copy(d[n-2:], vsym.Bytes("last", 2))
	w.raw.Feed(vhWSFrame(2, true, d))
	e := vsym.Bytes("short", 3)
	w.raw.Feed(vhWSFrame(2, true, e))
	w.raw.Hangup()
	want := append(append([]byte{}, d...), e...)
	buf := make([]byte, []int{1000, 4096, 65535}[vsym.Choose("buffer", 0, 2)])
	var got []byte
	for {
		k, err := c.Read(buf)
		got = append(got, buf[:k]...)
		if err != nil {
			break
		}
	}
	vsym.Assert(string(got) == string(want), "bytes read are not the bytes of the messages")
	vsym.Reach("ok")
}

// What is written arrives at the other end.
//
// vh:bound 0..3 writes of 0..4 arbitrary bytes or of 125..127 or 4096 zeros, with any masks; then close
// vh:reach ok
func VH_C28_Write() {
	w, c := c28Conn()
	var want []byte
	for i := vsym.Choose("writes", 0, 3); i > 0; i-- {
		var d []byte
		if k := vsym.Choose("len", 0, 8); k < 5 {
			d = vsym.Bytes("data", k)
		} else {
			d = make([]byte, []int{125, 126, 127, 4096}[k-5])
		}
		keep := append([]byte{}, d...)
		n, err := c.Write(d)
		vsym.Assert(err == nil && n == len(d), "not written completely")
		vsym.Assert(string(d) == string(keep), "buffer of the caller changed")
		want = append(want, keep...)
		vsym.Assert(!w.bad && w.stream == string(want), "bytes received are not the bytes written")
	}
	vsym.Assert(!w.raw.Closed(), "transport closed")
	c.Close()
	vsym.Assert(w.raw.Closed(), "transport not closed")
	vsym.Assert(!w.bad && w.stream == string(want), "bytes received are not the bytes written")
	n, err := c.Write([]byte("x"))
	vsym.Assert(n == 0 && err != nil, "write after close succeeds")
	n, err = c.Read(make([]byte, 4))
	vsym.Assert(n == 0 && err != nil, "read after close succeeds")
	vsym.Reach("ok")
}

type c28Addr struct {
	*vsym.Conn
	l, r net.Addr
}

func (c *c28Addr) LocalAddr() net.Addr  { return c.l }
func (c *c28Addr) RemoteAddr() net.Addr { return c.r }

// Addresses and deadlines.
//
// vh:bound deadline for reading, writing or both of up to 10 s, cleared or not, on a server that sends a message, if at all, after any time up to 10 s, and does not take what is written
// vh:reach late intime both
func VH_C28_Deadlines() {
	w := vhNewWS()
	l, r := vsym.Addr("local"), vsym.Addr("remote")
	websocket.DefaultDialer.NetDial = func(network, addr string) (net.Conn, error) { return &c28Addr{w.raw, l, r}, nil }
	wc, _, err := websocket.DefaultDialer.Dial("ws://w/x", nil)
	vsym.Assert(err == nil, "no WebSocket")
	var c net.Conn = &WebsocketConn{conn: wc}
	vsym.Assert(c.LocalAddr() == net.Addr(l) && c.RemoteAddr() == net.Addr(r), "wrong address")
	which := vsym.Choose("which", 0, 2)
	d := vsym.Delay("deadline", 1, 10*time.Second)
	t := time.Now()
	switch which {
	case 0:
		err = c.SetReadDeadline(t.Add(d))
	case 1:
		err = c.SetWriteDeadline(t.Add(d))
	case 2:
		err = c.SetDeadline(t.Add(d))
	}
	vsym.Assert(err == nil, "deadline refused")
	w.raw.Gate = make(chan struct{}) // nothing is taken any more
	if which != 0 {
		n, err := c.Write([]byte("x"))
		vsym.Assert(n == 0 && err != nil, "write on a transport that takes nothing succeeds")
		vsym.Assert(time.Since(t) == d, "write does not end at the deadline")
		if which == 2 {
			t = time.Now()
			vsym.Assert(c.SetDeadline(t.Add(d)) == nil, "deadline refused")
			vsym.Reach("both")
		}
	}
	if which != 1 {
		m := vsym.Delay("message", 1, 10*time.Second)
		go func() {
			time.Sleep(m)
			w.raw.Feed(vhWSFrame(2, true, []byte("y")))
		}()
		b := make([]byte, 4)
		n, err := c.Read(b)
		if m < d {
			vsym.Assert(n == 1 && err == nil && b[0] == 'y', "message lost")
			vsym.Reach("intime")
		} else {
			vsym.Assert(n == 0 && err != nil, "read after the deadline succeeds")
			vsym.Assert(time.Since(t) == d, "read does not end at the deadline")
			vsym.Reach("late")
		}
	}
}

// c28Server plays the RTSP server over a WebSocket: every answer is cut into messages.
type c28Server struct {
	*vhWS
	reqs  []string
	reply func(i int, req string) string
	acc   string
	cut   func(b []byte) [][]byte
}

func c28New(reply func(i int, req string) string, cut func([]byte) [][]byte) *c28Server {
	s := &c28Server{vhWS: vhNewWS(), reply: reply, cut: cut}
	s.onData = func(p string) {
		s.acc += p
		e := strings.Index(s.acc, "\r\n\r\n")
		if e < 0 {
			return
		}
		req := s.acc[:e+4]
		s.acc = s.acc[e+4:]
		s.reqs = append(s.reqs, req)
		if r := reply(len(s.reqs)-1, req); r != "" {
			s.send([]byte(r))
		}
	}
	return s
}

func (s *c28Server) send(b []byte) {
	for _, m := range s.cut(b) {
		s.raw.Feed(vhWSFrame(2, true, m))
	}
}

// A whole session.
//
// vh:bound set-up of one media, 2 interleaved frames of 2 arbitrary bytes of payload, PAUSE, and Close or the server closing; one answer or the frames cut into two messages anywhere, and an empty message between, or everything into messages of 1, 3, 5 or 1000 bytes
// vh:reach ok
// vh:opt paths=1000000 paths_t=5000000
func VH_C28_Session() {
	app := &vhApp{}
	session := app.session()
	whole := func(b []byte) [][]byte { return [][]byte{b} }
	cut := whole
	which := vsym.Choose("which", -1, 3)
	if which < 0 {
		k := []int{1, 3, 5, 1000}[vsym.Choose("every", 0, 3)]
		cut = func(b []byte) (ms [][]byte) {
			for len(b) > k {
				ms = append(ms, b[:k])
				b = b[k:]
			}
			return append(ms, b)
		}
	}
	any := func(b []byte) [][]byte {
		k := vsym.Choose("cut", 0, len(b))
		return [][]byte{b[:k], {}, b[k:]}
	}
	good := vhAnswer(vhSDP("PCMU"))
	var s *c28Server
	s = c28New(func(i int, req string) string {
		if which >= 0 {
			s.cut = whole
			if i == which {
				s.cut = any
			}
		}
		return good(i, req)
	}, cut)
	err := session.PlayUseWebsocket("ws://w/x", "rtsp://u:p@h:1/p")
	vsym.Assert(err == nil, "session not established by an accepting server")
	vsym.Assert(len(s.reqs) == 3 && len(app.events) == 1 && app.events[0] == RtspEventRequestSuccess, "success not reported once")
	for i, m := range []string{"DESCRIBE rtsp://h:1/p ", "SETUP rtsp://h:1/p/t0 ", "PLAY rtsp://h:1/p "} {
		vsym.Assert(strings.HasPrefix(s.reqs[i], m), "wrong request")
	}
	var frames []byte
	var want [][]byte
	for i := 2; i > 0; i-- {
		p := vsym.Bytes("payload", 2)
		want = append(want, p)
		frames = append(frames, vhFrame(0, vhRTP(true, i, p))...)
	}
	if which == 3 {
		s.cut = any
	}
	s.send(frames)
	vsym.Quiesce()
	vsym.Assert(len(app.data) == len(want), "units lost or invented")
	for i := range want {
		vsym.Assert(string(app.data[i].Data) == string(want[i]), "unit changed")
	}
	vsym.Assert(session.SendPause() == nil, "request refused")
	r, err := session.WaitRtspResponse()
	vsym.Assert(err == nil && r.Status == 200, "response lost")
	if vsym.Choose("end", 0, 1) == 0 {
		session.Close()
		vsym.Quiesce()
		vsym.Assert(len(s.reqs) == 5 && strings.HasPrefix(s.reqs[4], "TEARDOWN "), "no TEARDOWN for the session")
	} else {
		s.raw.Feed(vhWSFrame(8, true, []byte{3, 232}))
		vsym.Quiesce()
	}
	vsym.Assert(!s.bad && s.acc == "", "malformed frames or requests")
	vsym.Assert(s.raw.Closed() && vhCount(app.events, RtspEventDisconnected) == 1, "not one disconnect event, or transport not closed")
	vsym.Reach("ok")
}

// A session on a WebSocket that fails.
//
// vh:bound no WebSocket connection; or at each of the three requests of the set-up: close frame, end of the transport within or between frames, a reset, an invalid frame, silence, or a transport that takes nothing
// vh:reach failed
func VH_C28_Fails() {
	app := &vhApp{}
	session := app.session()
	step, kind := vsym.Choose("step", -1, 2), vsym.Choose("kind", 0, 6)
	good := vhAnswer(vhSDP("PCMU"))
	var s *c28Server
	s = c28New(func(i int, req string) string {
		if i == step {
			switch kind {
			case 0:
				s.raw.Feed(vhWSFrame(8, true, []byte{3, 232}))
			case 1:
				s.raw.Hangup()
			case 2:
				f := vhWSFrame(2, true, []byte(good(i, req)))
				s.raw.Feed(f[:vsym.Choose("cut", 1, 5)])
				s.raw.Hangup()
			case 3:
				s.raw.FeedErr(errors.New("reset"))
			case 4:
				s.raw.Feed([]byte{vsym.Byte("first"), 0x81}) // masked by the server
			}
			return ""
		}
		if i == step-1 && kind == 6 {
			s.raw.Gate = make(chan struct{})
		}
		return good(i, req)
	}, func(b []byte) [][]byte { return [][]byte{b} })
	if step < 0 {
		vhNoWS()
	}
	t := time.Now()
	err := session.PlayUseWebsocket("ws://w/x", "rtsp://h/p")
	vsym.Assert(err != nil, "success although not everything was answered with 200")
	vsym.Assert(time.Since(t) <= 20*time.Second, "caller hangs")
	time.Sleep(20 * time.Second)
	vsym.Quiesce()
	vsym.Assert(vhCount(app.events, RtspEventRequestSuccess) == 0, "success reported")
	vsym.Assert(vhCount(app.events, RtspEventDisconnected) == 1, "not one disconnect event")
	vsym.Assert(step < 0 || s.raw.Closed(), "transport not closed")
	vsym.Reach("failed")
}

// Many messages and many writes.
//
// vh:bound 300 messages of 0..200 bytes in 1..3 fragments with pings every 7th (one in 16 with two arbitrary bytes), read with buffers of 1..4096 bytes changing from read to read; then 300 writes of 0..400 bytes and four of 65535..70000
// vh:reach ok
// vh:opt steps=40000000
func VH_C28_Many() {
	w, c := c28Conn()
	var want []byte
	for i := 0; i < 300; i++ {
		d := make([]byte, i*11%201)
		for j := range d {
			d[j] = byte(i ^ j)
		}
		if len(d) > 0 && i%16 == 7 {
			d[0], d[len(d)-1] = vsym.Byte("first"), vsym.Byte("last")
		}
		want = append(want, d...)
		if i%7 == 0 {
			w.raw.Feed(vhWSFrame(9, true, []byte("ping")))
		}
		a, b := len(d)/3, len(d)/2
		switch i % 3 {
		case 0:
			w.raw.Feed(vhWSFrame(2, true, d))
		case 1:
			w.raw.Feed(vhWSFrame(1, false, d[:a]))
			w.raw.Feed(vhWSFrame(0, true, d[a:]))
		case 2:
			w.raw.Feed(vhWSFrame(2, false, d[:a]))
			w.raw.Feed(vhWSFrame(0, false, d[a:b]))
			w.raw.Feed(vhWSFrame(0, true, d[b:]))
		}
	}
	sizes := [][]int{{1, 2, 3}, {4096}, {100, 1, 4096}, {200, 201}, {7}}[vsym.Choose("buffers", 0, 4)]
	buf := make([]byte, 4096)
	var got []byte
	for i := 0; len(got) < len(want); i++ {
		k, err := c.Read(buf[:sizes[i%len(sizes)]])
		vsym.Assert(err == nil, "end of a stream that goes on")
		got = append(got, buf[:k]...)
	}
	vsym.Assert(string(got) == string(want), "bytes read are not the bytes of the messages")
	// pings were answered by pongs
	var sent []byte
	for i := 0; i < 304; i++ {
		n := i * 17 % 401
		if i >= 300 {
			n = []int{65535, 65536, 65537, 70000}[i-300]
		}
		d := make([]byte, n)
		for j := range d {
			d[j] = byte(i + 3*j)
		}
		k, err := c.Write(d)
		vsym.Assert(err == nil && k == n, "not written completely")
		sent = append(sent, d...)
	}
	vsym.Quiesce()
	vsym.Assert(!w.bad && w.stream == string(sent), "bytes received are not the bytes written")
	vsym.Reach("ok")
}
