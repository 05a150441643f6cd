package rtspclient

import (
	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

//vh:use commonrtp

// c36Packet is one of the packets of which units are made, of arbitrary content.
func c36Packet(kind int) []byte {
	switch kind {
	case 0: // two units in one packet
		return vhAP([]byte{24}, [][]byte{vhH264Unit(2), vhH264Unit(3)})
	case 1:
		return vhCat(vhHead(), vhH264Unit(3)...)
	case 2, 3, 4: // begin, middle, end of a unit
		u := vsym.Bytes("part", 2)
		t := vsym.Byte("type")
		vsym.Assume(t&0xc0 == 0)
		return vhCat(vhCat(vhHead(), 0x7c, t|[]byte{0x80, 0, 0x40}[kind-2]), u...)
	}
	return nil
}

func c36Packet265(kind int) []byte {
	switch kind {
	case 0:
		return vhAP([]byte{48 << 1, 1}, [][]byte{vhH265Unit(3), vhH265Unit(2)})
	case 1:
		return vhCat(vhHead(), vhH265Unit(3)...)
	case 2, 3, 4:
		u := vsym.Bytes("part", 2)
		t := vsym.Byte("type")
		vsym.Assume(t&0xc0 == 0)
		return vhCat(vhCat(vhHead(), 49<<1, 1, t|[]byte{0x80, 0, 0x40}[kind-2]), u...)
	}
	return nil
}

// c36Take is what an application may do with the bytes of a unit.
func c36Take(d []byte, how int, x byte) {
	switch how {
	case 0: // change them
		for i := range d {
			d[i] ^= x
		}
	case 1: // go on behind them
		d = append(d, x, x, x, x, x, x)
		d[0] = x
	case 2: // use all there is
		d = d[:cap(d)]
		for i := 0; i < len(d) && i < 64; i++ {
			d[i] = x
		}
	}
}

// Units are the application's.
//
// vh:bound 3 packets (thorough 4) of any kind (aggregation of two units, single unit, begin, middle or end of a fragmented unit; plain and marker-framed codec) on one stream or by turns on two, payloads of 2..5 arbitrary bytes; the application keeps every unit, and another one changes, extends or fills (up to its capacity) every unit when it gets it; the connection ends and is used again
// vh:reach ok
func VH_C36_Units() {
	codec := vsym.Choose("codec", 0, 3)
	streams := vsym.Choose("streams", 1, 2)
	codecs := []string{"H264", "H265", "bbw", "VP8"}
	names := []string{codecs[codec], codecs[codec]}[:streams]
	how := vsym.Choose("how", 0, 2)
	x := vsym.Byte("fill")

	type copied struct {
		ch int
		d  string
	}
	var kept, used []copied
	var units []*RtspData
	srvs := [2]*vhServer{vhNewServer(vhAnswer(vhSDP(names...))), vhNewServer(vhAnswer(vhSDP(names...)))}
	var ss [2]*RtspClientSession
	ss[0] = NewRtspClientSession(func(d *RtspData) {
		units = append(units, d)
		kept = append(kept, copied{d.ChannelNum, string(d.Data)})
	}, func(*RtspEvent) {})
	ss[1] = NewRtspClientSession(func(d *RtspData) {
		used = append(used, copied{d.ChannelNum, string(d.Data)})
		c36Take(d.Data, how, x)
	}, func(*RtspEvent) {})
	start := func() {
		for i, s := range ss {
			vsym.Assert(s.ParsingURL("rtsp://h/p") == nil, "valid URL refused")
			vsym.Assert(s.SetConnection(srvs[i].conn) == nil, "session not established by an accepting server")
		}
	}
	start()
	n := 3 + vsym.Tier()
	for i := 0; i < n; i++ {
		var p []byte
		switch codec {
		case 0:
			p = c36Packet(vsym.Choose("packet", 0, 4))
		case 1:
			p = c36Packet265(vsym.Choose("packet", 0, 4))
		default:
			p = vhCat(vhAnyHead(), vsym.Bytes("payload", 2)...)
		}
		for k := range ss {
			srvs[k].conn.Feed(vhFrame(byte(i%streams*2), append([]byte{}, p...)))
		}
		vsym.Quiesce()
	}
	if vsym.Choose("again", 0, 1) == 1 {
		for k := range ss {
			srvs[k].conn.Hangup()
		}
		vsym.Quiesce()
		srvs = [2]*vhServer{vhNewServer(vhAnswer(vhSDP(names...))), vhNewServer(vhAnswer(vhSDP(names...)))}
		start()
		for k := range ss {
			srvs[k].conn.Feed(vhFrame(0, vhRTP(true, 1, []byte{0x42, 1, 2})))
		}
		vsym.Quiesce()
	}
	vsym.Assert(len(kept) == len(used), "what an application does with a unit changes the number of units")
	for i := range kept {
		vsym.Assert(kept[i].ch == used[i].ch && kept[i].d == used[i].d, "what an application does with a unit changes a later one")
		vsym.Assert(string(units[i].Data) == kept[i].d && units[i].ChannelNum == kept[i].ch, "unit changes after it was delivered")
	}
	vsym.Reach("ok")
}

func c36Eq(a []byte, b string) bool { return len(a) == len(b) && string(a) == b }

// Many units.
//
// vh:bound 40, 70, 130 or 300 units of 1..1400 bytes (one byte of every 16th arbitrary) in aggregation packets, alone or in fragments by turns, on one stream or two; the application keeps them all, or changes each
// vh:reach ok
// vh:opt steps=100000000
func VH_C36_Many() {
	n := []int{40, 70, 130, 300}[vsym.Choose("n", 0, 3)]
	h265 := vsym.Choose("h265", 0, 1) == 1
	change := vsym.Choose("change", 0, 1) == 1
	large := vsym.Choose("large", 0, 1)
	codec := "H264"
	if h265 {
		codec = "H265"
	}
	var kept []string
	var units []*RtspData
	s := NewRtspClientSession(func(d *RtspData) {
		kept = append(kept, string(d.Data))
		units = append(units, d)
		if change {
			d.Data = append(d.Data, 1, 2, 3)
			for i := 0; i < len(d.Data) && i < 8; i++ {
				d.Data[i] = 0xee
			}
		}
	}, func(*RtspEvent) {})
	srv := vhNewServer(vhAnswer(vhSDP(codec, codec)))
	vsym.Assert(s.ParsingURL("rtsp://h/p") == nil, "valid URL refused")
	vsym.Assert(s.SetConnection(srv.conn) == nil, "session not established by an accepting server")
	head := vhRTP(true, 1, nil)
	var sent []string
	unit := func(i int) []byte {
		size := 4 + i%5
		if large == 1 {
			size = 4 + i*37%1397
		}
		u := make([]byte, size)
		u[0], u[1], u[2], u[3] = 0x41, 1, byte(i), byte(i>>8)
		if h265 {
			u[0] = 0x02
		}
		if i%16 == 5 {
			u[size-1] = vsym.Byte("b")
		}
		sent = append(sent, string(u))
		return u
	}
	for i := 0; len(sent) < n; i++ {
		ch := byte(i % 3 / 2 * 2)
		switch i % 3 {
		case 0:
			u, v := unit(len(sent)), unit(len(sent)+1)
			p := vhCat(head, 24)
			if h265 {
				p = vhCat(head, 48<<1, 1)
			}
			p = append(append(p, byte(len(u)>>8), byte(len(u))), u...)
			p = append(append(p, byte(len(v)>>8), byte(len(v))), v...)
			srv.conn.Feed(vhFrame(ch, p))
		case 1:
			srv.conn.Feed(vhFrame(ch, vhCat(head, unit(len(sent))...)))
		case 2:
			u := unit(len(sent))
			if h265 {
				srv.conn.Feed(vhFrame(ch, vhCat(vhCat(head, 49<<1, 1, 0x81), u[2:3]...)))
				srv.conn.Feed(vhFrame(ch, vhCat(vhCat(head, 49<<1, 1, 0x41), u[3:]...)))
			} else {
				srv.conn.Feed(vhFrame(ch, vhCat(vhCat(head, 0x5c, 0x81), u[1:3]...)))
				srv.conn.Feed(vhFrame(ch, vhCat(vhCat(head, 0x5c, 0x41), u[3:]...)))
			}
		}
		vsym.Quiesce()
	}
	vsym.Assert(len(kept) == len(sent), "number of units")
	for i := range sent {
		vsym.Assert(kept[i] == sent[i], "what an application does with a unit changes a later one")
		vsym.Assert(change || c36Eq(units[i].Data, sent[i]), "unit changes after it was delivered")
	}
	vsym.Reach("ok")
}
