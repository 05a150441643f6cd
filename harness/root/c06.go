package rtspclient

import "github.com/NodeBoy2/rtspclient/zzv/vsym"

//vh:use commonrtp

// c06Pack returns packets of one unit for the stream of the given kind.
func c06Pack(kind int) ([][]byte, []byte) {
	switch kind {
	case 0:
		u := vhH264Unit(3)
		return vhH264FU(u, []int{2}), u
	case 1:
		u := vhH265Unit(4)
		return vhH265FU(u, []int{3}), u
	case 2:
		u := vsym.Bytes("unit", 2)
		return [][]byte{vhCat(vhHead(), u...)}, u
	}
	u := vsym.Bytes("unit", 2)
	a, b := vhCat(vhHead(), u[0]), vhCat(vhHead(), u[1])
	a[1] &= 0x7f
	b[1] |= 0x80
	return [][]byte{a, b}, u
}

// Packets of the streams interleaved in any way, with frames of other channels in between.
//
// vh:bound two streams (each H.264, H.265, plain or marker-framed) on channels 0 and 2 send one (thorough: two) unit(s) of 2..4 arbitrary bytes in 1..2 packets, interleaved in any order; one frame of 0..20 (step 5) arbitrary bytes on any other channel anywhere between
// vh:reach ok
// vh:opt paths_t=5000000
func VH_C06_Interleave() {
	codecs := []string{"H264", "H265", "VP8", "bbw"}
	kind := []int{vsym.Choose("a", 0, 3), vsym.Choose("b", 0, 3)}
	app, _, srv := vhPlaying(codecs[kind[0]], codecs[kind[1]])
	type stream struct {
		pkts  [][]byte
		units [][]byte
		ends  []int // number of packets after which each unit is complete
		sent  int
	}
	var st [2]stream
	total := 0
	for k := range st {
		for i := 0; i <= vsym.Tier(); i++ {
			p, u := c06Pack(kind[k])
			st[k].pkts = append(st[k].pkts, p...)
			st[k].units = append(st[k].units, u)
			st[k].ends = append(st[k].ends, len(st[k].pkts))
		}
		total += len(st[k].pkts)
	}
	noise := vsym.Choose("noiseat", 0, total)
	for i := 0; i <= total; i++ {
		if i == noise {
			ch := vsym.Byte("ch")
			vsym.Assume(ch > 3 || ch&1 == 1)
			srv.conn.Feed(vhFrame(ch, vsym.Bytes("noise", 5*vsym.Choose("len", 0, 4))))
		}
		if i == total {
			break
		}
		k := 0
		if st[0].sent == len(st[0].pkts) || st[1].sent < len(st[1].pkts) && vsym.Choose("turn", 0, 1) == 1 {
			k = 1
		}
		srv.conn.Feed(vhFrame(byte(2*k), st[k].pkts[st[k].sent]))
		st[k].sent++
		vsym.Quiesce()
		n := 0
		for k := range st {
			c := 0
			for c < len(st[k].ends) && st[k].ends[c] <= st[k].sent {
				c++
			}
			app.expect(2*k, st[k].units[:c])
			n += c
		}
		vsym.Assert(len(app.data) == n, "unit delivered for another channel")
	}
	vsym.Quiesce()
	vsym.Assert(len(app.data) == len(st[0].units)+len(st[1].units), "unit delivered for another channel")
	vsym.Reach("ok")
}

// Medias beyond the first few keep their channel numbers.
//
// vh:bound a session of 9 plain medias, one packet on each RTP channel in descending order
// vh:reach ok
func VH_C06_Many() {
	app, s, srv := vhPlaying("VP8", "VP8", "VP8", "VP8", "VP8", "VP8", "VP8", "VP8", "VP8")
	vsym.Assert(len(s.RtpMediaMap) == 9, "wrong number of medias")
	b := vsym.Bytes("b", 9)
	for i := 8; i >= 0; i-- {
		srv.conn.Feed(vhFrame(byte(2*i), vhCat(vhHead(), b[i])))
	}
	vsym.Quiesce()
	vsym.Assert(len(app.data) == 9, "wrong number of units")
	for i := range app.data {
		d := app.data[i]
		vsym.Assert(d.ChannelNum == 16-2*i && d.Session == s, "unit labelled with another channel or session")
		vsym.Assert(string(d.Data) == string(b[8-i:9-i]), "unit damaged")
	}
	vsym.Reach("ok")
}

// A frame on a channel of an earlier description delivers nothing after the session was set up again.
//
// vh:bound a session of two plain medias, disconnected, set up again with one media; one packet on each of the channels 0..3
// vh:reach ok
func VH_C06_Again() {
	app, s, srv := vhPlaying("VP8", "VP8")
	srv.conn.Hangup()
	vsym.Quiesce()
	srv = vhNewServer(vhAnswer(vhSDP("VP8")))
	if s.SetConnection(srv.conn) != nil {
		vsym.Fail("session not established again")
	}
	ch := vsym.Byte("ch")
	b := vsym.Byte("b")
	srv.conn.Feed(vhFrame(ch, vhCat(vhHead(), b)))
	vsym.Quiesce()
	if ch != 0 {
		vsym.Assert(len(app.data) == 0, "unit delivered for a channel that was not set up")
		return
	}
	vsym.Assert(len(app.data) == 1 && len(app.data[0].Data) == 1 && app.data[0].Data[0] == b, "unit not delivered")
	vsym.Reach("ok")
}

// As many medias as there are channels.
//
// vh:bound a session of 10, 16, 17, 33, 64, 65, 100, 127 or 128 medias, of four kinds by turns; one unit (with one arbitrary byte) on each RTP channel in two packets, or as two units, interleaved in descending order; frames on the RTCP channels and on those beyond in between
// vh:reach ok
// vh:opt steps=400000000
func VH_C06_Channels() {
	n := []int{10, 16, 17, 33, 64, 65, 100, 127, 128}[vsym.Choose("n", 0, 8)]
	var codecs []string
	sdp := ""
	for i := 0; i < n; i++ {
		codecs = append(codecs, []string{"H264", "H265", "VP8", "bbw"}[i%4])
		sdp += "m=video 0 RTP/AVP 96\r\na=rtpmap:96 " + codecs[i] + "/90000\r\na=control:t" + vhItoa(i) + "\r\n"
	}
	app := &vhApp{}
	s := app.session()
	srv := vhNewServer(vhAnswer("v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=x\r\nt=0 0\r\n" + sdp))
	vsym.Assert(s.ParsingURL("rtsp://h/p") == nil, "valid URL refused")
	vsym.Assert(s.SetConnection(srv.conn) == nil, "session not established by an accepting server")
	vsym.Assert(len(s.RtpMediaMap) == n, "wrong number of medias")
	want := make([][][]byte, n)
	pkts := make([][][]byte, n)
	for i := range want {
		b := vsym.Byte("b")
		switch i % 4 {
		case 0:
			u := []byte{0x65, byte(i), b}
			want[i] = [][]byte{u}
			pkts[i] = vhH264FU(u, []int{2})
		case 1:
			u := []byte{2, 1, byte(i), b}
			want[i] = [][]byte{u}
			pkts[i] = vhH265FU(u, []int{3})
		case 2:
			want[i] = [][]byte{{byte(i), b}, {b, byte(i)}}
			pkts[i] = [][]byte{vhRTP(true, 1, want[i][0]), vhRTP(false, 2, want[i][1])}
		case 3:
			want[i] = [][]byte{{byte(i), b, b, byte(i)}}
			pkts[i] = [][]byte{vhRTP(false, 1, []byte{byte(i), b}), vhRTP(true, 2, []byte{b, byte(i)})}
		}
	}
	total := 0
	for k := 0; k < 2; k++ {
		for i := n - 1; i >= 0; i-- {
			srv.conn.Feed(vhFrame(byte(2*i), pkts[i][k]))
			srv.conn.Feed(vhFrame(byte(2*i+1), vhRTP(true, 1, []byte{1, 2})))
			if c := 2*n + 2*(i%9); c < 256 {
				srv.conn.Feed(vhFrame(byte(c), vhRTP(true, 1, []byte{1, 2})))
			}
		}
	}
	vsym.Quiesce()
	for i := range want {
		app.expect(2*i, want[i])
		total += len(want[i])
	}
	vsym.Assert(len(app.data) == total, "unit delivered for another channel")
	vsym.Reach("ok")
}
