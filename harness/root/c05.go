package rtspclient

import "github.com/NodeBoy2/rtspclient/zzv/vsym"

//vh:use commonrtp

func c05Pack(form, max, cuts int) (pkts, units [][]byte) {
	switch form {
	case 0: // single NAL unit packet
		u := vhH265Unit(vsym.Choose("n", 2, max))
		return [][]byte{vhCat(vhHead(), u...)}, [][]byte{u}
	case 1:
		u := vhH265Unit(vsym.Choose("n", 2, max))
		return vhH265FU(u, vhCuts(2, len(u), cuts)), [][]byte{u}
	}
	k := vsym.Choose("k", 1, 3)
	for i := 0; i < k; i++ {
		units = append(units, vhH265Unit(vsym.Choose("n", 2, 3)))
	}
	return [][]byte{vhAP([]byte{vsym.Byte("f")&0x81 | 48<<1, vsym.Byte("tid")}, units)}, units
}

// A sequence of units, each packed in any way; deliveries are checked after every packet.
//
// vh:bound two (thorough three) pack operations: single packet, fragmentation units with 2..3 fragments at any positions (empty ones included) or an aggregation packet of 1..3 units; units of 2..5 arbitrary bytes; RTP headers arbitrary
// vh:reach ok
// vh:opt paths=2000000 paths_t=20000000
func VH_C05_Units() {
	name := "H265"
	if vsym.Bool("hevc") {
		name = "HEVC"
	}
	app, _, srv := vhPlaying(name)
	var all [][]byte
	for i := 0; i < 2+vsym.Tier(); i++ {
		pkts, units := c05Pack(vsym.Choose("form", 0, 2), 5, 2)
		for j, p := range pkts {
			srv.conn.Feed(vhFrame(0, p))
			vsym.Quiesce()
			if j < len(pkts)-1 {
				app.expect(0, all)
			}
		}
		all = append(all, units...)
		app.expect(0, all)
	}
	vsym.Reach("ok")
}

// Large units, packed in any way, followed by a small unit.
//
// vh:bound a unit of 255..257, 511..513, 1400, 32767..32769 or 65000 bytes (header, one middle and the last byte arbitrary) as single packet, as fragments of 100, 255 or 1400 bytes, or twice in an aggregation packet (as far as it fits); then a small single packet
// vh:reach ok
func VH_C05_Large() {
	app, _, srv := vhPlaying("H265")
	sizes := []int{255, 256, 257, 511, 512, 513, 1400, 32767, 32768, 32769, 65000}
	n := sizes[vsym.Choose("size", 0, len(sizes)-1)]
	u := make([]byte, n)
	copy(u, vhH265Unit(2))
	u[n/2], u[n-1] = vsym.Byte("middle"), vsym.Byte("last")
	units := [][]byte{u}
	var pkts [][]byte
	switch vsym.Choose("form", 0, 2) {
	case 0:
		pkts = [][]byte{vhCat(vhHead(), u...)}
	case 1:
		k := []int{100, 255, 1400}[vsym.Choose("fragment", 0, 2)]
		var cuts []int
		for i := k; i < n; i += k {
			cuts = append(cuts, i)
		}
		pkts = vhH265FU(u, cuts)
	default:
		if n < 32760 {
			v := append([]byte{}, u...)
			v[n/3] = vsym.Byte("third")
			units = append(units, v)
		}
		pkts = [][]byte{vhAP([]byte{48 << 1, 1}, units)}
	}
	for _, p := range pkts {
		srv.conn.Feed(vhFrame(0, p))
	}
	vsym.Quiesce()
	app.expect(0, units)
	s := vhH265Unit(2)
	srv.conn.Feed(vhFrame(0, vhCat(vhHead(), s...)))
	vsym.Quiesce()
	app.expect(0, append(units, s))
	vsym.Reach("ok")
}

// Many units, many fragments, many units in one packet.
//
// vh:bound 100 packets carrying units by turns singly, in fragments (2..90 of them) and in aggregation packets (4..200 units), sequence numbers passing 65535; one unit in seven has an arbitrary header and last byte
// vh:reach ok
// vh:opt steps=400000000
func VH_C05_Many() {
	app, _, srv := vhPlaying("H265")
	seq := 65480
	var all [][]byte
	no := 0
	unit := func(n int) []byte {
		no++
		u := make([]byte, n)
		if no%7 == 0 {
			copy(u, vhH265Unit(2))
			if n > 2 {
				u[n-1] = vsym.Byte("last")
			}
			return u
		}
		for i := range u {
			u[i] = byte(no + i*3)
		}
		u[0] = byte(no % 48 << 1)
		return u
	}
	send := func(p []byte, last bool, units ...[]byte) {
		p[2], p[3] = byte(seq>>8), byte(seq)
		seq++
		srv.conn.Feed(vhFrame(0, p))
		if no%5 == 0 || last {
			vsym.Quiesce()
			app.expect(0, append(all, units...))
		}
	}
	plain := func(p []byte) []byte { copy(p, vhRTP(seq%2 == 0, seq, nil)); return p }
	shape := vsym.Choose("shape", 0, 2)
	for i := 0; i < 34; i++ {
		u := unit(2 + (i*(37+shape))%900)
		send(plain(vhCat(make([]byte, 12), u...)), true, u)
		all = append(all, u)

		u = unit(200 + i)
		var cuts []int
		for j := 1; j < []int{1, 2, 3, 8, 9, 16, 17, 33, 64, 90}[(i+shape)%10]; j++ {
			cuts = append(cuts, 2+2*j)
		}
		fu := vhH265FU(u, cuts)
		if len(fu) == 1 {
			fu = vhH265FU(u, []int{100})
		}
		for j := range fu {
			if j < len(fu)-1 {
				send(fu[j], false)
			} else {
				send(fu[j], true, u)
			}
		}
		all = append(all, u)

		var us [][]byte
		for j := 0; j < []int{4, 5, 8, 9, 15, 16, 17, 31, 32, 33, 64, 200}[(i+shape)%12]; j++ {
			us = append(us, unit(2+(i+j)%40))
		}
		send(vhAP([]byte{48 << 1, 1}, us), true, us...)
		all = append(all, us...)
	}
	vsym.Reach("ok")
}

// The session ends within units and is set up again; other messages between the packets.
//
// vh:bound two streams of the codec with one unit each, interleaved, responses or frames of other channels or too short ones or nothing between any two packets; then two units of which one or two packets arrive before the session is ended by the server, by an error or by Close; then the same session object set up again with one unit on each stream; units of 4 arbitrary bytes as a single packet or in two fragments
// vh:reach ok
func VH_C05_Sessions() {
	name := []string{"H265", "HEVC"}[vsym.Choose("name", 0, 1)]
	vhSessions(name, func() ([][]byte, [][]byte) {
		u := vhH265Unit(4)
		if vsym.Choose("form", 0, 1) == 0 {
			return [][]byte{vhCat(vhHead(), u...)}, [][]byte{u}
		}
		return vhH265FU(u, []int{3}), [][]byte{u}
	})
}
