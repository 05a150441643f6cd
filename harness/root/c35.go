package rtspclient

import (
	"encoding/base64"
	"net"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

//vh:use commonauth

// c35peer is a session object with its server and its application.
type c35peer struct {
	app    *vhApp
	s      *RtspClientSession
	srv    *vhServer
	url    string
	err    error
	during func(i int) // when request i is written
	frames [][]byte
	user   string
	suffix string // of realm and nonce
	id     string // of the session
	kindOK bool
}

// c35new is one of two sessions; x is a byte of its units, kind how its server behaves.
func c35new(which, kind int, twin bool, x byte) *c35peer {
	p := &c35peer{app: &vhApp{}}
	p.s = p.app.session()
	name := "ab"[which : which+1]
	p.user = name
	p.url = "rtsp://u" + name + ":p" + name + "@" + name + "/" + name
	if twin {
		// the same stream for another user
		which = 0
		p.url = "rtsp://u" + name + ":p" + name + "@h/p"
		name = ""
	}
	var good func(int, string) string
	if which == 0 {
		y := p.url[7+1]
		good = vhAnswer(vhSDP("H264", "PCMU"))
		p.frames = [][]byte{
			vhFrame(0, vhRTP(false, 1, []byte{0x7c, 0x85, y, x})),
			vhFrame(0, vhRTP(false, 2, []byte{0x7c, 0x05, y, x, 2})),
			vhFrame(0, vhRTP(true, 3, []byte{0x7c, 0x45, 3})),
			vhFrame(2, vhRTP(true, 3, []byte{x, 4})),
		}
	} else {
		good = func(i int, req string) string {
			if vhMethod(req) == "SETUP" {
				return vhOK(req, "Session: other;timeout=3\r\n", "")
			}
			return vhAnswer(vhSDP("H265", "H264"))(i, req)
		}
		p.frames = [][]byte{
			vhFrame(0, vhRTP(false, 1, []byte{0x62, 1, 0x93, x, 12})),
			vhFrame(2, vhRTP(true, 2, []byte{0x65, x, 13})),
			vhFrame(0, vhRTP(true, 3, []byte{0x62, 1, 0x53, 14, x})),
			vhFrame(2, vhRTP(false, 3, []byte{0x7c, 0x85, 15, x})),
		}
	}
	p.kindOK = kind < 3
	p.suffix, p.id = name, "12345678"
	if which == 1 {
		p.id = "other"
	}
	p.srv = vhNewServer(nil)
	p.srv.reply = func(i int, req string) string {
		if p.during != nil {
			p.during(i)
		}
		switch {
		case kind == 1 && !strings.Contains(req, "Authorization"):
			return "RTSP/1.0 401 U\r\nWWW-Authenticate: Digest realm=\"r" + name + "\", nonce=\"n" + name + "\"\r\n\r\n"
		case kind == 2 && !strings.Contains(req, "Authorization"):
			return "RTSP/1.0 401 U\r\nWWW-Authenticate: Basic realm=\"r" + name + "\"\r\n\r\n"
		case kind == 3 && i == 1:
			return "RTSP/1.0 500 X\r\n\r\n"
		case kind == 4 && i == 1:
			return ""
		}
		return good(i, req)
	}
	return p
}

func (p *c35peer) start() {
	host := p.url[strings.Index(p.url, "@")+1:]
	host = host[:strings.Index(host, "/")]
	vsym.SetDial(func(network, address string, timeout time.Duration) (net.Conn, error) {
		vsym.Assert(network == "tcp" && address == host+":554", "connection to another address")
		return p.srv.conn, nil
	})
	p.err = p.s.Play(p.url)
}

func (p *c35peer) end(how int) {
	switch how {
	case 0:
		if p.s.SendPause() == nil {
			p.s.WaitRtspResponse()
		}
		p.s.Close()
	case 1:
		p.srv.conn.Hangup()
	}
	vsym.Quiesce()
}

// proper checks that the requests are for this session.
func (p *c35peer) proper() {
	at := strings.Index(p.url, "@")
	url := "rtsp://" + p.url[at+1:]
	set := false
	for _, r := range p.srv.reqs {
		l := r[:strings.Index(r, "\r\n")]
		f := strings.Split(l, " ")
		vsym.Assert(len(f) == 3 && (f[1] == url || strings.HasPrefix(f[1], url+"/t")), "URL of another session")
		id := vhHeader(r, "Session")
		vsym.Assert(len(id) == 0 && !set || len(id) == 1 && set && id[0] == p.id, "session identifier of another session")
		if vhMethod(r) == "SETUP" && p.kindOK {
			set = true
		}
		for _, a := range vhHeader(r, "Authorization") {
			if strings.HasPrefix(a, "Digest ") {
				d := vhDigest("u"+p.user, "r"+p.suffix, "p"+p.user, "n"+p.suffix, f[0], f[1])
				vsym.Assert(strings.Contains(a, "username=\"u"+p.user+"\"") && strings.Contains(a, "response=\""+d+"\""), "authorization of another session")
			} else {
				vsym.Assert(a == "Basic "+base64.StdEncoding.EncodeToString([]byte("u"+p.user+":p"+p.user)), "authorization of another session")
			}
		}
	}
}

func c35same(a, b *c35peer) {
	vsym.Assert((a.err == nil) == (b.err == nil), "result depends on the other session")
	vsym.Assert(len(a.srv.reqs) == len(b.srv.reqs), "number of requests depends on the other session")
	for i := range a.srv.reqs {
		vsym.Assert(a.srv.reqs[i] == b.srv.reqs[i], "request depends on the other session")
	}
	vsym.Assert(len(a.app.events) == len(b.app.events), "number of events depends on the other session")
	for i := range a.app.events {
		vsym.Assert(a.app.events[i] == b.app.events[i], "event depends on the other session")
	}
	vsym.Assert(len(a.app.data) == len(b.app.data), "number of units depends on the other session")
	for i, d := range a.app.data {
		e := b.app.data[i]
		vsym.Assert(d.ChannelNum == e.ChannelNum && string(d.Data) == string(e.Data), "unit depends on the other session")
		vsym.Assert(d.Session == a.s, "unit of another session")
	}
	vsym.Assert(a.srv.conn.Closed() == b.srv.conn.Closed(), "connection closed in one case only")
	vsym.Assert(len(a.s.RtpMediaMap) == len(b.s.RtpMediaMap), "medias depend on the other session")
	for k, m := range a.s.RtpMediaMap {
		n := b.s.RtpMediaMap[k]
		vsym.Assert(m.CodecName == n.CodecName && m.TrackURL == n.TrackURL && m.PayloadFormat == n.PayloadFormat, "medias depend on the other session")
	}
}

// Two sessions at the same time.
//
// vh:bound two session objects with different credentials, and different or the same URL, codecs, session identifiers, realms and nonces; servers (accepting, asking for Digest or Basic authorization, refusing or silent at a SETUP; 9 pairs of them); the second started before, after, or at any request of the set-up of the first; 4 frames of each, with an arbitrary byte and received in two pieces, the pieces in one of 256 orders (thorough; 6 quick), in one order (quick: with two pairs of servers) one packet of the first on an arbitrary channel with an arbitrary marker and two arbitrary header bytes; both ended in either order by PAUSE and Close or by the server; each compared with the same session alone
// vh:reach same
// vh:opt paths=1000000 steps=100000000
func VH_C35_Two() {
	k := [][2]int{{0, 0}, {0, 1}, {1, 1}, {1, 2}, {2, 0}, {0, 3}, {3, 0}, {1, 4}, {2, 2}}[vsym.Choose("kinds", 0, 8)]
	twin := vsym.Choose("twin", 0, 1) == 1
	x, y := vsym.Byte("byte"), vsym.Byte("byte")
	a, b := c35new(0, k[0], twin, x), c35new(1, k[1], twin, y)
	order := 0
	if vsym.Tier() == 1 {
		order = vsym.Choose("order", 0, 255) * 0x101
	} else {
		order = []int{0x00ff, 0xff00, 0x3333, 0x5555, 0xaaaa, 0x3c96}[vsym.Choose("order", 0, 5)]
	}
	var any []byte
	if order == 0x3333 && (k == [2]int{0, 0} && !twin || k == [2]int{1, 1} && twin || vsym.Tier() == 1) {
		// an arbitrary packet of the first session within a unit of the second
		any = vhFrame(vsym.Byte("channel"), vhRTP(vsym.Bool("mark"), 9, append(vsym.Bytes("any", 2), 9, x)))
		a.frames[2] = any
	}
	switch at := vsym.Choose("start", -2, 4); at {
	case -2:
		a.start()
		b.start()
	case -1:
		b.start()
		a.start()
	default:
		a.during = func(i int) {
			if i != at {
				return
			}
			if k[1] == 4 {
				go b.start()
			} else {
				b.start()
			}
		}
		a.start()
		a.during = nil
		if b.srv.reqs == nil {
			b.start()
		}
	}
	time.Sleep(5 * time.Second)
	vsym.Quiesce()
	// in halves
	var fa, fb [][]byte
	for i, f := range a.frames {
		fa = append(fa, f[:6+i], f[6+i:])
	}
	for i, f := range b.frames {
		fb = append(fb, f[:9-3*i/2], f[9-3*i/2:])
	}
	for i := 0; len(fa)+len(fb) > 0; i++ {
		if len(fb) == 0 || len(fa) > 0 && order>>uint(i)&1 == 1 {
			a.srv.conn.Feed(fa[0])
			fa = fa[1:]
		} else {
			b.srv.conn.Feed(fb[0])
			fb = fb[1:]
		}
		vsym.Quiesce()
	}
	how := vsym.Choose("end", 0, 3)
	if how&2 == 0 {
		a.end(how & 1)
		b.end(0)
	} else {
		b.end(how & 1)
		a.end(0)
	}
	time.Sleep(5 * time.Second)
	vsym.Quiesce()
	a0, b0 := c35new(0, k[0], twin, x), c35new(1, k[1], twin, y)
	if any != nil {
		a0.frames[2] = any
	}
	for i, p := range []*c35peer{a0, b0} {
		p.start()
		time.Sleep(5 * time.Second)
		vsym.Quiesce()
		for _, f := range p.frames {
			p.srv.conn.Feed(f)
			vsym.Quiesce()
		}
		if how>>1 == i {
			p.end(how & 1)
		} else {
			p.end(0)
		}
		time.Sleep(5 * time.Second)
		vsym.Quiesce()
	}
	a.proper()
	b.proper()
	c35same(a, a0)
	c35same(b, b0)
	vsym.Reach("same")
}
