package rtspclient

import (
	"strings"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

//vh:use commonrtp
//vh:use commonauth

var c07codecs = []string{"VP8", "PCMU", "MPEG4-GENERIC", "JPEG", "h263", "X"}

// Plain codecs: every packet is one unit.
//
// vh:bound six codec names, three packets of 1..3 arbitrary bytes with arbitrary RTP headers
// vh:reach ok
func VH_C07_Plain() {
	app, _, srv := vhPlaying(c07codecs[vsym.Choose("codec", 0, len(c07codecs)-1)])
	var us [][]byte
	for i := 0; i < 3; i++ {
		u := vsym.Bytes("unit", vsym.Choose("n", 1, 3))
		us = append(us, u)
		srv.conn.Feed(vhFrame(0, vhCat(vhAnyHead(), u...)))
		vsym.Quiesce()
		app.expect(0, us)
	}
	vsym.Reach("ok")
}

// Whatever other name a codec has, it is a plain one.
//
// vh:bound codec names of 1..5 (thorough 8) arbitrary token characters, or one of H264, H265, HEVC and bbw with 1..2 more before or behind; two packets of 4 arbitrary bytes
// vh:reach ok
func VH_C07_Names() {
	name := ""
	k := vsym.Choose("special", 0, 4)
	if k == 0 {
		name = vhToken("codec", vsym.Choose("len", 1, 5+3*vsym.Tier()))
	} else {
		x := vhToken("more", vsym.Choose("len", 1, 2))
		name = []string{"H264", "H265", "HEVC", "bbw"}[k-1]
		if vsym.Choose("before", 0, 1) == 1 {
			name = x + name
		} else {
			name += x
		}
	}
	for _, o := range []string{"H264", "H265", "HEVC", "bbw"} {
		vsym.Assume(!strings.EqualFold(name, o))
	}
	app, _, srv := vhPlaying(name)
	var us [][]byte
	for i := 0; i < 2; i++ {
		u := vsym.Bytes("unit", 4)
		us = append(us, u)
		srv.conn.Feed(vhFrame(0, vhCat(vhAnyHead(), u...)))
		vsym.Quiesce()
		app.expect(0, us)
	}
	vsym.Reach("ok")
}

// Marker-framed codec: payloads are concatenated up to the packet with the marker bit.
//
// vh:bound four (thorough six) packets of 0..2 arbitrary bytes with arbitrary RTP headers
// vh:reach ok
// vh:opt paths_t=10000000
func VH_C07_Mark() {
	app, _, srv := vhPlaying("bbw")
	var us [][]byte
	var cur []byte
	for i := 0; i < 4+2*vsym.Tier(); i++ {
		h := vhAnyHead()
		u := vsym.Bytes("unit", vsym.Choose("n", 0, 2))
		cur = append(cur, u...)
		srv.conn.Feed(vhFrame(0, vhCat(h, u...)))
		if h[1]&0x80 != 0 {
			if len(cur) > 0 {
				us = append(us, cur)
			}
			cur = nil
		}
		vsym.Quiesce()
		app.expect(0, us)
	}
	vsym.Reach("ok")
}

// Large packets.
//
// vh:bound a packet of 256, 1400, 32768 or 65523 payload bytes (first, middle and last byte arbitrary), plain or marker-framed (twice, the marker on the second), followed by a small one
// vh:reach ok
func VH_C07_Large() {
	mark := vsym.Bool("mark")
	codec := "VP8"
	if mark {
		codec = "bbw"
	}
	app, _, srv := vhPlaying(codec)
	n := []int{256, 1400, 32768, 65523}[vsym.Choose("n", 0, 3)]
	u := make([]byte, n)
	u[0], u[n/2], u[n-1] = vsym.Byte("first"), vsym.Byte("middle"), vsym.Byte("last")
	var us [][]byte
	if mark {
		srv.conn.Feed(vhFrame(0, vhRTP(false, 1, u)))
		srv.conn.Feed(vhFrame(0, vhRTP(true, 2, u)))
		us = append(us, vhCat(u, u...))
	} else {
		srv.conn.Feed(vhFrame(0, vhRTP(false, 1, u)))
		us = append(us, u)
	}
	s := vsym.Bytes("small", 2)
	srv.conn.Feed(vhFrame(0, vhRTP(true, 3, s)))
	vsym.Quiesce()
	app.expect(0, append(us, s))
	vsym.Reach("ok")
}

// Many packets.
//
// vh:bound 400 packets of 1..300 bytes by turns (one in nine with two arbitrary bytes), plain or marker-framed with the marker on every k-th packet (k = 1, 2, 7, 50, 200), sequence numbers passing 65535
// vh:reach ok
// vh:opt steps=400000000
func VH_C07_Many() {
	k := []int{0, 1, 2, 7, 50, 200}[vsym.Choose("mark", 0, 5)]
	codec := "VP8"
	if k > 0 {
		codec = "bbw"
	}
	app, _, srv := vhPlaying(codec)
	var us [][]byte
	var cur []byte
	for i := 1; i <= 400; i++ {
		u := make([]byte, 1+i*37%300)
		for j := range u {
			u[j] = byte(i + j)
		}
		if i%9 == 0 {
			u[0], u[len(u)-1] = vsym.Byte("first"), vsym.Byte("last")
		}
		mark := k > 0 && i%k == 0
		srv.conn.Feed(vhFrame(0, vhRTP(mark || k == 0 && i%3 == 0, (65300+i)&0xffff, u)))
		cur = append(cur, u...)
		if mark || k == 0 {
			us = append(us, cur)
			cur = nil
		}
		if i%40 == 0 {
			vsym.Quiesce()
			app.expect(0, us)
		}
	}
	vsym.Reach("ok")
}

// The session ends within units and is set up again; other messages between the packets.
//
// vh:bound two streams of the codec with one unit each, interleaved, responses or frames of other channels or too short ones or nothing between any two packets; then two units of which one or two packets arrive before the session is ended by the server, by an error or by Close; then the same session object set up again with one unit on each stream; marker-framed units of 2 arbitrary bytes in 1..2 packets, and plain ones
// vh:reach ok
func VH_C07_Sessions() {
	mark := vsym.Choose("mark", 0, 1) == 1
	name := "VP8"
	if mark {
		name = "bbw"
	}
	vhSessions(name, func() ([][]byte, [][]byte) {
		u := vsym.Bytes("unit", 2)
		if !mark {
			return [][]byte{vhCat(vhAnyHead(), u[0]), vhCat(vhAnyHead(), u[1])}, [][]byte{u[:1], u[1:]}
		}
		h, e := vhAnyHead(), vhAnyHead()
		e[1] |= 0x80
		if vsym.Choose("form", 0, 1) == 0 {
			return [][]byte{vhCat(e, u...)}, [][]byte{u}
		}
		h[1] &= 0x7f
		return [][]byte{vhCat(h, u[0]), vhCat(e, u[1])}, [][]byte{u}
	})
}
