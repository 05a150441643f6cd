package rtspclient

import (
	"strconv"

	"github.com/NodeBoy2/rtspclient/tcpnetwork"
	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

// vhStream is a connection that splits a byte stream into messages.
type vhStream struct {
	conn   *vsym.Conn
	c      *tcpnetwork.Connection
	msgs   [][]byte
	events []int
}

func vhNewStream() *vhStream {
	s := &vhStream{conn: vsym.NewConn()}
	s.c = tcpnetwork.NewConnection(s.conn, 16, func(e *tcpnetwork.ConnEvent) {
		s.events = append(s.events, e.EventType)
		if e.EventType == tcpnetwork.ConnEventData {
			s.msgs = append(s.msgs, e.Data)
		}
	})
	s.c.SetStreamProtocol(&RTPStreamProtocol{})
	s.c.Run()
	return s
}

// c01Message is a frame with n arbitrary payload bytes or a response with an arbitrary body.
func c01Message(kind, n int) []byte {
	if kind == 0 {
		f := append([]byte{'$', vsym.Byte("ch"), byte(n >> 8), byte(n)}, vsym.Bytes("payload", n)...)
		return f
	}
	h := "RTSP/1.0 200 OK\r\n"
	if kind == 2 {
		h = "rtsp/1.0 200 OK\r\n"
	}
	if n > 0 {
		h += "Content-Length: " + strconv.Itoa(n) + "\r\n"
	}
	return append([]byte(h+"\r\n"), vsym.Bytes("body", n)...)
}

func (s *vhStream) feed(b []byte, cuts ...int) {
	last := 0
	for _, c := range cuts {
		if c <= last || c >= len(b) {
			continue
		}
		s.conn.Feed(b[last:c])
		vsym.Quiesce()
		last = c
	}
	s.conn.Feed(b[last:])
	vsym.Quiesce()
}

func (s *vhStream) check(msgs ...[]byte) {
	vsym.Assert(len(s.msgs) == len(msgs), "wrong number of messages delivered")
	for i := range msgs {
		vsym.Assert(string(s.msgs[i]) == string(msgs[i]), "message delivered differs from the message sent")
	}
	vsym.Reach("ok")
}

// Messages cut anywhere.
//
// vh:bound two messages, each a frame (any channel, 0..3 arbitrary payload bytes) or a response (RTSP or rtsp, 0..2 arbitrary body bytes), the stream cut at any two places; thorough: three messages with 0 or 2 bytes
// vh:reach ok
// vh:opt paths=400000 paths_t=20000000
func VH_C01_Cuts() {
	s := vhNewStream()
	var all []byte
	var msgs [][]byte
	for i := 0; i < 2+vsym.Tier(); i++ {
		kind := vsym.Choose("kind", 0, 2)
		n := 0
		if vsym.Tier() > 0 {
			n = 2 * vsym.Choose("n", 0, 1)
		} else if kind == 0 {
			n = vsym.Choose("n", 0, 3)
		} else {
			n = vsym.Choose("n", 0, 2)
		}
		m := c01Message(kind, n)
		msgs = append(msgs, m)
		all = append(all, m...)
	}
	c1 := vsym.Choose("cut", 0, len(all)-1)
	c2 := vsym.Choose("cut", c1, len(all)-1)
	s.feed(all, c1, c2)
	s.check(msgs...)
}

// Each byte arrives alone.
//
// vh:bound three messages as above, every byte a separate segment, or everything in one segment
// vh:reach ok
func VH_C01_Bytes() {
	s := vhNewStream()
	var all []byte
	var msgs [][]byte
	for i := 0; i < 3; i++ {
		kind := vsym.Choose("kind", 0, 2)
		n := vsym.Choose("n", 0, 2)
		m := c01Message(kind, n)
		msgs = append(msgs, m)
		all = append(all, m...)
	}
	if vsym.Bool("single") {
		s.conn.Feed(all)
	} else {
		for i := range all {
			s.conn.Feed(all[i : i+1])
		}
	}
	vsym.Quiesce()
	s.check(msgs...)
}

// An incomplete message at the end of the stream is not delivered.
//
// vh:bound one complete frame, then every proper prefix of a frame or response, then end of stream
// vh:reach ok
func VH_C01_Tail() {
	s := vhNewStream()
	m := c01Message(0, 2)
	t := c01Message(vsym.Choose("kind", 0, 1), 3)
	k := vsym.Choose("prefix", 0, len(t)-1)
	s.conn.Feed(m)
	s.conn.Feed(t[:k])
	vsym.Quiesce()
	s.check(m)
	s.conn.Hangup()
	vsym.Quiesce()
	s.check(m)
}

// Large frames and bodies, up to the largest frame there is.
//
// vh:bound a frame of 255..257, 4095..4097, 32767..32769 or 65530..65535 payload bytes or a response with a body of up to 65000 bytes (first, last and one middle byte arbitrary), in segments of 65536, 4096 or 1000 bytes, followed by a small frame
// vh:reach ok
func VH_C01_Large() {
	sizes := []int{255, 256, 257, 4095, 4096, 4097, 32767, 32768, 32769, 65530, 65531, 65532, 65533, 65534, 65535}
	n := sizes[vsym.Choose("size", 0, len(sizes)-1)]
	p := make([]byte, n)
	p[0], p[n/2], p[n-1] = vsym.Byte("first"), vsym.Byte("middle"), vsym.Byte("last")
	var m []byte
	if vsym.Bool("response") {
		if n > 65000 {
			n = 65000
		}
		m = append([]byte("RTSP/1.0 200 OK\r\nContent-Length: "+strconv.Itoa(n)+"\r\n\r\n"), p[:n]...)
	} else {
		m = append([]byte{'$', vsym.Byte("ch"), byte(n >> 8), byte(n)}, p...)
	}
	f := c01Message(0, 2)
	s := vhNewStream()
	seg := []int{65536, 4096, 1000}[vsym.Choose("segment", 0, 2)]
	for i := 0; i < len(m); i += seg {
		e := i + seg
		if e > len(m) {
			e = len(m)
		}
		s.conn.Feed(m[i:e])
	}
	s.conn.Feed(f)
	vsym.Quiesce()
	s.check(m, f)
}

// A header line with arbitrary bytes before or after the content length.
//
// vh:bound a response with an unknown header of 0..3 (thorough 4) arbitrary bytes (no line feed) before or after the content length of a body of 0..2 arbitrary bytes, then a frame
// vh:reach ok
func VH_C01_Header() {
	v := vsym.Str("value", vsym.Choose("len", 0, 3+vsym.Tier()))
	for i := 0; i < len(v); i++ {
		vsym.Assume(v[i] != '\n')
	}
	n := vsym.Choose("n", 0, 2)
	h := "Content-Length: " + strconv.Itoa(n) + "\r\n"
	if vsym.Choose("before", 0, 1) == 1 {
		h = "X: " + v + "\r\n" + h
	} else {
		h += "X:" + v + "\r\n"
	}
	m := []byte("RTSP/1.0 200 OK\r\n" + h + "\r\n")
	m = append(m, vsym.Bytes("body", n)...)
	f := c01Message(0, 2)
	s := vhNewStream()
	s.conn.Feed(m)
	s.conn.Feed(f)
	vsym.Quiesce()
	s.check(m, f)
}

// Many messages in one stream.
//
// vh:bound 40 messages, or 300, of 0..1999 bytes by turns (beyond 65535 bytes altogether, frames and responses alternating in two ways, one in eight with two arbitrary bytes), in segments of 65536, 4096, 1500 or 97 bytes
// vh:reach ok
// vh:opt steps=400000000
func VH_C01_Many() {
	s := vhNewStream()
	var all []byte
	var msgs [][]byte
	n := []int{40, 300}[vsym.Choose("n", 0, 1)]
	turn := vsym.Choose("turn", 2, 3)
	for i := 0; i < n; i++ {
		k := i * 617 % 2000
		if n > 40 {
			k = i * 61 % 200
		}
		p := make([]byte, k)
		for j := range p {
			p[j] = "$RTSP/1.0 200 OK\r\n\r\n$"[(i+j)%21]
		}
		if k > 0 && i%8 == 3 {
			p[0], p[k-1] = vsym.Byte("first"), vsym.Byte("last")
		}
		var m []byte
		if i%turn == 0 {
			m = append([]byte{'$', byte(i), byte(k >> 8), byte(k)}, p...)
		} else {
			m = append([]byte("RTSP/1.0 200 OK\r\nCSeq: "+strconv.Itoa(i)+"\r\nContent-Length: "+strconv.Itoa(k)+"\r\n\r\n"), p...)
		}
		msgs = append(msgs, m)
		all = append(all, m...)
	}
	seg := []int{65536, 4096, 1500, 97}[vsym.Choose("segment", 0, 3)]
	for i := 0; i < len(all); i += seg {
		e := i + seg
		if e > len(all) {
			e = len(all)
		}
		s.conn.Feed(all[i:e])
		if i/seg%3 == 2 {
			vsym.Quiesce()
		}
	}
	vsym.Quiesce()
	s.check(msgs...)
}

// Long header blocks, and the longest response there is.
//
// vh:bound a response with 0..400 (8 numbers) header lines before or after the content length, or one header line of 100..60000 bytes (9 lengths); without a body or with one that brings the message to 1000, 65534 or 65535 bytes; its last two bytes arbitrary; then a frame; in segments of 65536, 4096 or 1000 bytes
// vh:reach ok
// vh:opt steps=400000000
func VH_C01_Headers() {
	var h, t string
	if vsym.Choose("what", 0, 1) == 0 {
		n := []int{0, 1, 9, 17, 33, 65, 129, 400}[vsym.Choose("lines", 0, 7)]
		for i := 0; i < n; i++ {
			h += "X-H" + strconv.Itoa(i) + ": Content-Length: " + strconv.Itoa(i) + "\r\n"
		}
	} else {
		n := []int{100, 255, 256, 1023, 1024, 4096, 8192, 32768, 60000}[vsym.Choose("length", 0, 8)]
		h = "X: " + string(make([]byte, n)) + "\r\n"
	}
	if vsym.Choose("behind", 0, 1) == 1 {
		h, t = "", h
	}
	want := []int{0, 1000, 65534, 65535}[vsym.Choose("total", 0, 3)]
	build := func(n int) []byte {
		m := []byte("RTSP/1.0 200 OK\r\n" + h + "Content-Length: " + strconv.Itoa(n) + "\r\n" + t + "\r\n")
		return append(m, make([]byte, n)...)
	}
	k := 0
	if l := len(build(0)); want > l {
		k = want - l
		for len(build(k)) > want {
			k--
		}
	}
	m := build(k)
	if k > 2 {
		m[len(m)-2], m[len(m)-1] = vsym.Byte("b"), vsym.Byte("b")
	}
	f := c01Message(0, 2)
	s := vhNewStream()
	seg := []int{65536, 4096, 1000}[vsym.Choose("segment", 0, 2)]
	for i := 0; i < len(m); i += seg {
		e := i + seg
		if e > len(m) {
			e = len(m)
		}
		s.conn.Feed(m[i:e])
	}
	s.conn.Feed(f)
	vsym.Quiesce()
	s.check(m, f)
}
