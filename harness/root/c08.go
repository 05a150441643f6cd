package rtspclient

import "github.com/NodeBoy2/rtspclient/zzv/vsym"

//vh:use commonrtp

const c08limit = 8 * 1024 * 1024

// c08Cut cuts a unit of n bytes into fragments of k bytes (the last but one of j bytes if j > 0).
func c08cuts(lo, n, k int) []int {
	var r []int
	for i := lo + k; i < n; i += k {
		r = append(r, i)
	}
	return r
}

// A unit around the limit, then small units.
//
// vh:bound H.264 and H.265 fragmentation units and marker-framed packets; a unit of 8 MiB minus 1, 8 MiB, 8 MiB plus 1, 8 MiB plus 65536 or 16 MiB plus 1 bytes (header and last bytes arbitrary, the rest zero) in fragments of 65000 or 65500 bytes; then two small units
// vh:reach intact oversized
// vh:opt steps=4000000000 time=200
func VH_C08_Limit() {
	kind := vsym.Choose("kind", 0, 2)
	app, _, srv := vhPlaying([]string{"H264", "H265", "bbw"}[kind])
	n := c08limit + []int{-1, 0, 1, 65536, c08limit + 1}[vsym.Choose("size", 0, 4)]
	k := []int{65000, 65500}[vsym.Choose("fragment", 0, 1)]
	u := make([]byte, n)
	u[n-1], u[n-2] = vsym.Byte("last"), vsym.Byte("lastbutone")
	var pkts [][]byte
	switch kind {
	case 0:
		copy(u, vhH264Unit(1))
		pkts = vhH264FU(u, c08cuts(1, n, k))
	case 1:
		copy(u, vhH265Unit(2))
		pkts = vhH265FU(u, c08cuts(2, n, k))
	default:
		u[0] = vsym.Byte("first")
		for i := 0; i < n; i += k {
			e := i + k
			if e > n {
				e = n
			}
			pkts = append(pkts, vhRTP(e == n, i, u[i:e]))
		}
	}
	for _, p := range pkts {
		srv.conn.Feed(vhFrame(0, p))
		vsym.Quiesce()
	}
	if n <= c08limit {
		app.expect(0, [][]byte{u})
		vsym.Reach("intact")
	} else {
		vsym.Assert(len(app.data) > 0, "nothing of an oversized unit handed over")
		m := 0
		for _, d := range app.data {
			vsym.Assert(len(d.Data) <= c08limit, "unit larger than the limit")
			vsym.Assert(m+len(d.Data) <= n, "more handed over than received")
			for _, i := range []int{0, 1, len(d.Data) - 2, len(d.Data) - 1} {
				if i >= 0 && i < len(d.Data) {
					vsym.Assert(d.Data[i] == u[m+i], "part of an oversized unit damaged")
				}
			}
			m += len(d.Data)
		}
		vsym.Reach("oversized")
	}
	app.data = nil
	var us [][]byte
	for i := 0; i < 2; i++ {
		var p [][]byte
		var s []byte
		switch kind {
		case 0:
			s = vhH264Unit(3)
			p = vhH264FU(s, []int{2})
		case 1:
			s = vhH265Unit(3)
			p = vhH265FU(s, []int{2})
		default:
			s = vsym.Bytes("small", 2)
			p = [][]byte{vhRTP(true, 9, s)}
		}
		us = append(us, s)
		for _, q := range p {
			srv.conn.Feed(vhFrame(0, q))
		}
		vsym.Quiesce()
		app.expect(0, us)
	}
}
