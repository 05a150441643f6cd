package rtspclient

import "github.com/NodeBoy2/rtspclient/zzv/vsym"

//vh:use commonrtp

// c02Alive checks that every stream of the session still works.
func (app *vhApp) c02Alive(srv *vhServer) {
	vsym.Quiesce()
	// the first unit of a stream may be damaged by what came before
	a, b := []byte{0x65, 1, 2}, []byte{0x26, 1, 3}
	c, d := []byte{7, 8}, []byte{9}
	for i := 0; i < 2; i++ {
		app.data = nil
		srv.conn.Feed(vhFrame(0, vhRTP(true, 2, a)))
		srv.conn.Feed(vhFrame(2, vhRTP(true, 3, b)))
		srv.conn.Feed(vhFrame(4, vhRTP(true, 4, c)))
		srv.conn.Feed(vhFrame(6, vhRTP(true, 5, d)))
		vsym.Quiesce()
	}
	app.expect(0, [][]byte{a})
	app.expect(2, [][]byte{b})
	app.expect(4, [][]byte{c})
	app.expect(6, [][]byte{d})
	vsym.Assert(len(app.data) == 4, "something that was not sent is delivered")
	vsym.Reach("delivered")
}

var c02codecs = []string{"H264", "H265", "bbw", "VP8"}

// An arbitrary frame on any channel never crashes or hangs the client, and well-formed packets
// after it are delivered.
//
// vh:bound one H.264, one H.265, one marker-framed and one plain stream; one frame of 0..24 (thorough 0..40) arbitrary bytes on any channel, then well-formed packets of all streams
// vh:reach delivered
func VH_C02_Frame() {
	app, _, srv := vhPlaying(c02codecs...)
	f := vsym.Bytes("frame", vsym.Choose("n", 0, 24+16*vsym.Tier()))
	srv.conn.Feed(vhFrame(vsym.Byte("ch"), f))
	app.c02Alive(srv)
}

// Two arbitrary packets in a row on one stream.
//
// vh:bound two packets of 10..17 (thorough 0..20) arbitrary bytes on one of the four streams, then well-formed packets of all streams
// vh:reach delivered
// vh:opt paths_t=10000000
func VH_C02_Two() {
	app, _, srv := vhPlaying(c02codecs...)
	ch := byte(2 * vsym.Choose("stream", 0, 3))
	for i := 0; i < 2; i++ {
		n := 0
		if vsym.Tier() == 0 {
			n = vsym.Choose("n", 10, 17)
		} else {
			n = vsym.Choose("n", 0, 20)
		}
		srv.conn.Feed(vhFrame(ch, vsym.Bytes("frame", n)))
	}
	app.c02Alive(srv)
}

// Arbitrary packets whose payload header announces large units.
//
// vh:bound a packet of 256, 1024 or 65535 bytes on any of the four streams: RTP header and first payload byte arbitrary, the next five each one of 0, 1, 3, 128, 255, the rest all 0 (not the largest), 1 or 255
// vh:reach delivered
func VH_C02_Large() {
	app, _, srv := vhPlaying(c02codecs...)
	ch := byte(2 * vsym.Choose("stream", 0, 3))
	b := make([]byte, []int{256, 1024, 65535}[vsym.Choose("n", 0, 2)])
	fill := []byte{0, 1, 255}[vsym.Choose("fill", 0, 2)]
	vsym.Assume(fill != 0 || len(b) < 65535)
	for i := range b {
		b[i] = fill
	}
	copy(b, vsym.Bytes("frame", 18))
	for _, c := range b[13:18] {
		vsym.Assume(c == 0 || c == 1 || c == 3 || c == 128 || c == 255)
	}
	srv.conn.Feed(vhFrame(ch, b))
	app.c02Alive(srv)
}

// Frames that arrive during the set-up of the session.
//
// vh:bound a frame of 0..15 arbitrary bytes on any channel before the answer to request 0..5 of the set-up
// vh:reach delivered
func VH_C02_Early() {
	f := vhFrame(vsym.Byte("ch"), vsym.Bytes("frame", vsym.Choose("n", 0, 15)))
	at := vsym.Choose("at", 0, 5)
	app := &vhApp{}
	s := app.session()
	var srv *vhServer
	answer := vhAnswer(vhSDP(c02codecs...))
	srv = vhNewServer(func(i int, req string) string {
		if i == at {
			srv.conn.Feed(f)
		}
		return answer(i, req)
	})
	vsym.Assert(s.ParsingURL("rtsp://h/p") == nil, "valid URL refused")
	vsym.Assert(s.SetConnection(srv.conn) == nil, "session not established by an accepting server")
	app.c02Alive(srv)
}

// Many damaged packets.
//
// vh:bound 400 frames on all four streams and other channels: correct packets of all kinds (fragments, aggregates, single ones) of 12..80 bytes, each cut short, with one byte changed, repeated, or not, in one of 32 fixed ways each, one of them with two arbitrary bytes; then well-formed packets of all streams
// vh:reach delivered
// vh:opt steps=40000000
func VH_C02_Many() {
	app, _, srv := vhPlaying(c02codecs...)
	x := 7 + 1000*vsym.Choose("way", 0, 31)
	next := func(n int) int {
		x = (x*1103515245 + 12345) & 0x7fffffff
		return (x >> 8) % n
	}
	for i := 0; i < 400; i++ {
		ch := []int{0, 2, 4, 6, 1, 9}[next(6)]
		u := make([]byte, 2+next(60))
		for j := range u {
			u[j] = byte(next(256))
		}
		h := vhRTP(next(3) == 0, i, nil)
		switch next(6) {
		case 0:
			h = append(h, 28|byte(next(4))<<5, byte(next(8))<<5|byte(next(32)))
		case 1:
			h = append(h, 49<<1, 1, byte(next(8))<<5|byte(next(64)))
		case 2:
			h = append(h, 24, 0, byte(len(u)))
		case 3:
			h = append(h, 48<<1, 1, 0, byte(len(u)))
		case 4:
			h = append(h, byte(next(256)), byte(next(256)))
		}
		p := append(h, u...)
		switch next(4) {
		case 0:
			p = p[:next(len(p)+1)]
		case 1:
			p[next(len(p))] = byte(next(256))
		case 2:
			srv.conn.Feed(vhFrame(byte(ch), p))
		}
		if i == 210 && len(p) > 16 {
			p[12], p[13] = vsym.Byte("b"), vsym.Byte("b")
			vsym.Assume(p[12] == 28 || p[12] == 24 || p[12] == 98 || p[12] == 96 || p[12] == 0)
			vsym.Assume(p[13]&0x3f == 0)
		}
		srv.conn.Feed(vhFrame(byte(ch), p))
		if i%8 == 0 {
			vsym.Quiesce()
		}
	}
	app.c02Alive(srv)
}
