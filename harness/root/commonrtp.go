package rtspclient

import (
	"errors"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

// vhHead is a RTP header in which everything the client has no use for is arbitrary.
func vhHead() []byte {
	return append([]byte{0x80}, vsym.Bytes("rtp", 11)...)
}

// vhAnyHead is any RTP header of 12 bytes.
func vhAnyHead() []byte { return vsym.Bytes("rtp", 12) }

func vhCat(a []byte, b ...byte) []byte {
	return append(append([]byte{}, a...), b...)
}

// vhH264 cuts the unit u (u[0] is the NAL header) after the given payload positions into FU-A packets.
func vhH264FU(u []byte, cuts []int) [][]byte {
	var r [][]byte
	last := 1
	for i := 0; i <= len(cuts); i++ {
		e := len(u)
		if i < len(cuts) {
			e = cuts[i]
		}
		h := u[0] & 0x1f
		if i == 0 {
			h |= 0x80
		}
		if i == len(cuts) {
			h |= 0x40
		}
		r = append(r, vhCat(vhCat(vhHead(), u[0]&0xe0|28, h), u[last:e]...))
		last = e
	}
	return r
}

// vhH265FU cuts the unit u (two header bytes) into fragmentation units.
func vhH265FU(u []byte, cuts []int) [][]byte {
	var r [][]byte
	last := 2
	for i := 0; i <= len(cuts); i++ {
		e := len(u)
		if i < len(cuts) {
			e = cuts[i]
		}
		h := u[0] >> 1 & 0x3f
		if i == 0 {
			h |= 0x80
		}
		if i == len(cuts) {
			h |= 0x40
		}
		r = append(r, vhCat(vhCat(vhHead(), u[0]&0x81|49<<1, u[1], h), u[last:e]...))
		last = e
	}
	return r
}

// vhAP is an aggregation packet with the given payload header.
func vhAP(head []byte, us [][]byte) []byte {
	p := vhCat(vhHead(), head...)
	for _, u := range us {
		p = append(p, byte(len(u)>>8), byte(len(u)))
		p = append(p, u...)
	}
	return p
}

// vhH264Unit is a NAL unit of n arbitrary bytes with a unit type of its own (not an RTP one).
func vhH264Unit(n int) []byte {
	u := vsym.Bytes("unit", n)
	vsym.Assume(u[0]&0x1f >= 1 && u[0]&0x1f <= 23)
	return u
}

func vhH265Unit(n int) []byte {
	u := vsym.Bytes("unit", n)
	vsym.Assume(u[0]>>1&0x3f < 48)
	return u
}

// vhCuts chooses up to max cut positions in lo..n.
func vhCuts(lo, n, max int) []int {
	k := vsym.Choose("cuts", 1, max)
	var r []int
	for i := 0; i < k; i++ {
		lo = vsym.Choose("cut", lo, n)
		r = append(r, lo)
	}
	return r
}

// expect checks that exactly the given units were delivered for channel ch.
func (a *vhApp) expect(ch int, us [][]byte) {
	var got [][]byte
	for _, d := range a.data {
		if d.ChannelNum == ch {
			got = append(got, d.Data)
		}
	}
	vsym.Assert(len(got) >= len(us), "unit not delivered when its last packet arrived")
	vsym.Assert(len(got) <= len(us), "something that was not sent is delivered")
	for i := range us {
		vsym.Assert(string(got[i]) == string(us[i]), "delivered unit differs from the unit sent")
	}
}

// vhSessions plays sessions of two streams of one codec on one session object.
// The units of both are sent interleaved, with other messages in between; the
// first session ends within a unit. pack returns the packets of a new unit.
func vhSessions(codec string, pack func() ([][]byte, [][]byte)) {
	app, s, srv := vhPlaying(codec, codec)
	k := vsym.Choose("between", 0, 4)
	between := func() {
		switch k {
		case 0:
			srv.conn.Feed([]byte("RTSP/1.0 200 OK\r\nCSeq: 9\r\nContent-Length: 3\r\n\r\n$\x00\x00"))
		case 1:
			srv.conn.Feed(vhFrame(1, vhRTP(true, 1, []byte{28, 0x80, 1, 2})))
		case 2:
			srv.conn.Feed(vhFrame(0, nil))
			srv.conn.Feed(vhFrame(2, []byte{0x80, 0x80, 3}))
		case 3:
			srv.conn.Feed([]byte("rtsp/1.0 500 X\r\n\r\n"))
		}
	}
	play := func(n int) (units [2][][]byte) {
		var pkts [2][][]byte
		for i := range pkts {
			pkts[i], units[i] = pack()
		}
		for i := 0; len(pkts[0])+len(pkts[1]) > 0 && i != n; i++ {
			c := i % 2
			if len(pkts[c]) == 0 {
				c = 1 - c
			}
			srv.conn.Feed(vhFrame(byte(2*c), pkts[c][0]))
			pkts[c] = pkts[c][1:]
			between()
		}
		vsym.Quiesce()
		return
	}
	if u := play(-1); true {
		app.expect(0, u[0])
		app.expect(2, u[1])
	}
	app.data = nil
	play(vsym.Choose("packets", 1, 2))
	for _, d := range app.data {
		// what was complete
		vsym.Assert(d.ChannelNum == 0 || d.ChannelNum == 2, "unit of another channel")
	}
	switch vsym.Choose("end", 0, 2) {
	case 0:
		srv.conn.Hangup()
	case 1:
		srv.conn.FeedErr(errors.New("reset"))
	case 2:
		s.Close()
	}
	vsym.Quiesce()
	app.data = nil
	srv = vhNewServer(vhAnswer(vhSDP(codec, codec)))
	vsym.Assert(s.SetConnection(srv.conn) == nil, "session not established again")
	u := play(-1)
	app.expect(0, u[0])
	app.expect(2, u[1])
	vsym.Reach("ok")
}
