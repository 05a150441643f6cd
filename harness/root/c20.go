package rtspclient

import (
	"strings"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

// c20Session starts a session with the description: that is to succeed or to
// fail with an error, as reported by the event. It returns the number of SETUPs.
func c20Session(sdp string, again bool) int {
	app := &vhApp{}
	s := app.session()
	srv := vhNewServer(vhAnswer(sdp))
	vsym.Assert(s.ParsingURL("rtsp://h/p") == nil, "valid URL refused")
	err := s.SetConnection(srv.conn)
	n := 0
	for _, r := range srv.reqs {
		if vhMethod(r) == "SETUP" {
			n++
		}
	}
	ok := vhCount(app.events, RtspEventRequestSuccess)
	vsym.Assert(ok+vhCount(app.events, RtspEventRequestError) == 1 && (ok == 1) == (err == nil), "outcome not reported once")
	if err == nil {
		vsym.Assert(n > 0 && len(s.RtpMediaMap) == n, "success without a media")
		vsym.Reach("accepted")
	} else {
		vsym.Reach("refused")
	}
	// the next session is not affected
	if err != nil && again {
		srv2 := vhNewServer(vhAnswer(vhSDP("PCMU")))
		vsym.Assert(s.SetConnection(srv2.conn) == nil && len(srv2.reqs) == 3, "session not established by an accepting server")
	}
	return n
}

var c20Lines = []string{
	"v=0", "o=- 1 1 IN IP4 1.2.3.4", "s=x", "i=x", "u=x", "e=x", "p=x", "c=IN IP4 224.2.36.42/127/3", "b=CT:1",
	"t=0 0", "r=7d 1h 0 25h", "z=1 1h 2 -1h", "k=prompt", "a=x:y",
	"m=video 0 RTP/AVP 96", "i=x", "c=IN IP6 ff15::101/3", "b=CT:1", "k=clear:x", "a=rtpmap:96 H264/90000", "a=control:t0",
}

// Any text.
//
// vh:bound any description of 1..4 (thorough 1..5) bytes
// vh:reach refused
// vh:opt paths=1000000 paths_t=5000000
func VH_C20_Any() {
	c20Session(vsym.Str("text", vsym.Choose("len", 1, 4+vsym.Tier())), false)
}

// One line of a description is anything.
//
// vh:bound each of 21 lines of a description with all kinds of lines: its value, or what is behind its first character, replaced by 0..2 (thorough 0..3) arbitrary bytes
// vh:reach refused accepted
// vh:opt paths=1000000 paths_t=5000000
func VH_C20_Line() {
	at := vsym.Choose("line", 0, len(c20Lines)-1)
	keep := vsym.Choose("keep", 2, 3)
	n := vsym.Choose("len", 0, 2+vsym.Tier())
	sdp := ""
	for i, l := range c20Lines {
		if i == at {
			l = l[:keep] + vsym.Str("text", n)
		}
		sdp += l + "\r\n"
	}
	c20Session(sdp, false)
}

// Lines that are missing, doubled, moved or foreign.
//
// vh:bound a description with all kinds of lines in which one line is left out, repeated, cut at any place, moved to any other place, or preceded by a line of any type character with an empty value or one byte of value
// vh:reach refused accepted
// vh:opt paths=1000000 paths_t=5000000
func VH_C20_Order() {
	at := vsym.Choose("line", 0, len(c20Lines)-1)
	l := c20Lines[at]
	rest := append(append([]string{}, c20Lines[:at]...), c20Lines[at+1:]...)
	insert := func(i int, s ...string) []string {
		return append(append(append([]string{}, rest[:i]...), s...), rest[i:]...)
	}
	var ls []string
	switch vsym.Choose("change", 0, 4) {
	case 0:
		ls = rest
	case 1:
		ls = insert(at, l, l)
	case 2:
		ls = insert(at, l[:vsym.Choose("cut", 0, len(l)-1)])
	case 3:
		ls = insert(vsym.Choose("to", 0, len(rest)), l)
	case 4:
		ls = insert(at, vsym.Str("type", 1)+"="+vsym.Str("value", vsym.Choose("len", 0, 1)), l)
	}
	c20Session(strings.Join(ls, "\r\n")+"\r\n", true)
}

// Attributes the client evaluates.
//
// vh:bound each of rtpmap, fmtp, x-dimensions, framerate, x-framerate and control with a value of 1..2 (thorough 1..3) arbitrary bytes, or one of 9 large, negative or empty numbers in each place, with and without the payload format before it; and a list of payload formats of 0..2 (thorough 0..3) arbitrary bytes
// vh:reach refused accepted
// vh:opt paths=1000000 paths_t=5000000
func VH_C20_Attributes() {
	num := func() string {
		return []string{"", "0", "-1", "2147483648", "4294967296", "9223372036854775808", "18446744073709551616", "1e9", "99999999999999999999999"}[vsym.Choose("number", 0, 8)]
	}
	pre := ""
	if vsym.Choose("format", 0, 1) == 1 {
		pre = "96 "
	}
	any := func() string { return vsym.Str("value", vsym.Choose("len", 1, 2+vsym.Tier())) }
	big := vsym.Choose("big", 0, 1) == 1
	m := "m=video 0 RTP/AVP 96\r\n"
	a := "a=recvonly\r\n"
	k := vsym.Choose("attribute", 0, 6)
	switch {
	case k == 0 && big:
		a = "a=rtpmap:" + pre + "X/" + num() + "/" + num() + "\r\n"
	case k == 1 && big:
		a = "a=fmtp:" + pre + num() + "=" + num() + "\r\n"
	case k == 2 && big:
		a = "a=x-dimensions:" + num() + "," + num() + "\r\n"
	case k == 6 && big:
		m = "m=video " + num() + " RTP/AVP " + num() + "\r\n"
	case k == 6:
		m = "m=video 0 RTP/AVP " + vsym.Str("formats", vsym.Choose("len", 0, 2+vsym.Tier())) + "\r\n"
	case big:
		a = "a=" + []string{"framerate:", "x-framerate:", "control:"}[k-3] + num() + "\r\n"
	default:
		a = "a=" + []string{"rtpmap:", "fmtp:", "x-dimensions:", "framerate:", "x-framerate:", "control:"}[k] + pre + any() + "\r\n"
	}
	c20Session("v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=x\r\nt=0 0\r\n" + m+a, false)
}

// Many medias, many lines, long lines.
//
// vh:bound a description with 2..200 (11 numbers) medias, or with that many lines of one of 9 kinds that may repeat, or with a line of one of 13 kinds that long (16..5000 characters, 11 lengths); one byte of it is arbitrary
// vh:reach refused accepted
// vh:opt paths=1000000 steps=20000000
func VH_C20_Many() {
	k := vsym.Choose("n", 0, 10)
	n := []int{2, 9, 10, 16, 17, 32, 33, 64, 65, 100, 200}[k]
	long := strings.Repeat("1", []int{16, 17, 64, 65, 127, 256, 257, 1024, 2048, 4097, 5000}[k]-1) + vsym.Str("some", 1)
	head := "v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=x\r\n"
	media := "m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\n"
	tail := ""
	switch vsym.Choose("what", 0, 2) {
	case 0:
		m := media + "a=control:" + vsym.Str("some", 1) + "\r\n"
		got := c20Session(head+"t=0 0\r\n"+strings.Repeat(m, n), false)
		_ = got
		return
	case 1:
		l := []string{"e=x", "p=x", "b=CT:1", "a=x:y", "a=rtpmap:96 H264/90000", "a=fmtp:96 a=1;b=2", "t=0 0", "c=IN IP4 1.2.3.4", "a=control:x"}[vsym.Choose("kind", 0, 8)] + "\r\n"
		if vsym.Choose("at", 0, 1) == 0 {
			head += strings.Repeat(l, n)
		} else {
			tail = strings.Repeat(l, n)
		}
	case 2:
		l := []string{"i=", "u=", "k=", "a=", "a=rtpmap:96 ", "a=rtpmap:", "a=fmtp:96 ", "a=fmtp:96 x=", "a=control:", "a=framerate:", "a=x-dimensions:1,", "m=audio 0 RTP/AVP ", "m=audio "}[vsym.Choose("kind", 0, 12)] + long + "\r\n"
		tail = l
	}
	c20Session(head+"t=0 0\r\n"+media+tail, false)
}
