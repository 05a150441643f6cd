package rtspclient

import (
	"strconv"
	"strings"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

// c03Hole is any text of up to n bytes, or ASCII text of up to m bytes.
func c03Hole(n, m int) string {
	k := vsym.Choose("len", 0, m)
	b := vsym.Str("hole", k)
	if k > n {
		for i := 0; i < k; i++ {
			vsym.Assume(b[i] < 0x80)
		}
	}
	return b
}

// c03Parse interprets a response; the body taken from it is at its place in the bytes received.
func c03Parse(b []byte) {
	orig := string(b)
	ctx := &RtspResponseContext{}
	err := ParserRtspResponse(b, ctx)
	vsym.Out("parsed", err, ctx.Status)
	if err != nil {
		vsym.Reach("err")
		return
	}
	vsym.Reach("ok")
	vsym.Assert(len(ctx.content) <= len(orig), "body extends past the bytes received")
	e := strings.Index(orig, "\r\n\r\n")
	vsym.Assert(e >= 0, "response without blank line accepted")
	vsym.Assert(strings.HasPrefix(orig[e+4:], ctx.content), "body differs from the bytes after the blank line")
}

// Arbitrary bytes.
//
// vh:bound up to 2 (thorough 3) arbitrary or 3 (thorough 4) ASCII bytes, alone, after "RTSP" or "rtsp", after "RTSP/1.0" or "RTSP/1.0 " or after a status or another header line; followed by nothing or a blank line
// vh:reach ok err
func VH_C03_Bytes() {
	pre := []string{"", "RTSP", "rtsp", "RTSP/1.0 ", "RTSP/1.0 200", "RTSP/1.0 200 OK\r\n", "RTSP/1.0", "RTSP/1.0\tOK\r\nA:b\r\n"}[vsym.Choose("pre", 0, 7)]
	post := []string{"", "\r\n\r\n", "\r\n\r\nbody"}[vsym.Choose("post", 0, 2)]
	b := c03Hole(2+vsym.Tier(), 3+vsym.Tier())
	c03Parse([]byte(pre + b + post))
}

var c03headers = []string{
	"RTSP/1.0 200 OK\r\nContent-Length:@\r\n\r\nbody",
	"RTSP/1.0 200 OK\r\nContent-Length: 2@\r\n\r\nbody",
	"RTSP/1.0 200 OK\r\nContent-Length: -@\r\n\r\nbody",
	"RTSP/1.0 200 OK\r\nContent-Length: 99999999999999999@\r\n\r\nbody",
	"RTSP/1.0 200 OK\r\nContent-Length: 9223372036854775807@\r\n\r\nbody",
	"RTSP/1.0 200 OK\r\nContent-Length: 3\r\nContent-Length:@\r\n\r\nbody",
	"RTSP/1.0 200 OK\r\nSession:@\r\n\r\n",
	"RTSP/1.0 200 OK\r\nSession: 1;@\r\n\r\n",
	"RTSP/1.0 401 No\r\nWWW-Authenticate:@\r\n\r\n",
	"RTSP/1.0 401 No\r\nWWW-Authenticate: Digest @\r\n\r\n",
	"RTSP/1.0 401 No\r\nWWW-Authenticate: Digest realm@, nonce=\"b\"\r\n\r\n",
	"RTSP/1.0 401 No\r\nWWW-Authenticate: Digest realm=\"a@\r\n\r\n",
	"RTSP/1.0 401 No\r\nWWW-Authenticate: Basic realm=@\r\n\r\n",
	"RTSP/1.0 401 No\r\n@: Basic realm=\"a\"\r\n\r\n",
}

// Arbitrary bytes in the interesting headers.
//
// vh:bound 14 responses with a hole of 0..2 arbitrary (thorough 3 ASCII) bytes in a content length, session or challenge
// vh:reach ok err
// vh:opt paths=3000000
func VH_C03_Header() {
	t := c03headers[vsym.Choose("header", 0, len(c03headers)-1)]
	b := c03Hole(2, 2+vsym.Tier())
	c03Parse([]byte(strings.Replace(t, "@", b, 1)))
}

// A response cut anywhere, with any content length.
//
// vh:bound a response with any 64-bit signed content length of up to 4 digits or near the limits of the range, cut at any place
// vh:reach ok err
func VH_C03_Cut() {
	l := []string{"0", "3", "4", "5", "-1", "-4", "65535", "2147483648", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1e3", ""}[vsym.Choose("length", 0, 12)]
	s := "RTSP/1.0 200 OK\r\nSession: 1\r\nContent-Length: " + l + "\r\n\r\nbody"
	c03Parse([]byte(s[:vsym.Choose("cut", 0, len(s))]))
}

// The whole client survives such an answer to any request, and the caller gets an error or a result.
//
// vh:bound a response of the list above (hole of 0..1 arbitrary bytes (thorough 2 ASCII)), or one with a content length near the limits of the range, as answer to request 0..3 of a session set-up; then end of stream
// vh:reach done
// vh:opt paths=3000000
func VH_C03_Session() {
	at := vsym.Choose("at", 0, 3)
	var r string
	if k := vsym.Choose("header", 0, len(c03headers)+5); k < len(c03headers) {
		b := c03Hole(1, 1+vsym.Tier())
		r = strings.Replace(c03headers[k], "@", b, 1)
	} else {
		r = "RTSP/1.0 200 OK\r\nContent-Length: " + strconv.Itoa([]int{-1, -65535, 65535, 65536, 1 << 31, 1<<63 - 1}[k-len(c03headers)]) + "\r\n\r\nbody"
	}
	app := &vhApp{}
	s := app.session()
	answer := vhAnswer(vhSDP("H264", "VP8"))
	srv := vhNewServer(func(i int, req string) string {
		if i == at {
			return r
		}
		return answer(i, req)
	})
	vsym.Assert(s.ParsingURL("rtsp://u:p@h/p") == nil, "valid URL refused")
	err := s.SetConnection(srv.conn)
	vsym.Quiesce()
	vsym.Out("done", err, len(app.events))
	srv.conn.Hangup()
	vsym.Quiesce()
	vsym.Assert(vhCount(app.events, RtspEventDisconnected) == 1, "end of the connection not reported once")
	vsym.Reach("done")
}

// Long responses.
//
// vh:bound a response with 0..400 (6 numbers) header lines or challenges or sessions, or with a status line, header name, value, parameter list, realm or content length of each of 8 lengths from 16 to 5000; one byte (thorough two) arbitrary; complete, or cut at one of 3 (thorough 16) places
// vh:reach ok err
// vh:opt steps=40000000
func VH_C03_Long() {
	k := vsym.Choose("n", 0, 7)
	n := []int{16, 20, 33, 65, 256, 257, 1025, 5000}[k]
	b := vsym.Str("some", 1+vsym.Tier())
	x := strings.Repeat("9", n-len(b)) + b
	c := vsym.Choose("shape", 0, 10)
	r := ""
	switch c {
	case 0:
		r = "RTSP/1.0 " + x + " OK\r\n\r\n"
	case 1:
		r = "RTSP/1.0 200 " + x + "\r\nSession: 1\r\n\r\n"
	case 2:
		r = "RTSP/1.0 200 OK\r\n" + x + ": 1\r\n\r\n"
	case 3:
		r = "RTSP/1.0 200 OK\r\nSession: " + x + "\r\n\r\n"
	case 4:
		r = "RTSP/1.0 200 OK\r\nSession: 1" + strings.Repeat(";", n) + b + "\r\n\r\n"
	case 5:
		r = "RTSP/1.0 401 OK\r\nWWW-Authenticate: Digest realm=\"" + x + "\", nonce=\"" + x + "\"\r\n\r\n"
	case 6:
		r = "RTSP/1.0 401 OK\r\nWWW-Authenticate: Digest " + strings.Repeat("a=\"b\", ", n) + b + "\r\n\r\n"
	case 7:
		r = "RTSP/1.0 200 OK\r\nContent-Length: " + x + "\r\n\r\nbody"
	case 8:
		r = "RTSP/1.0 401 OK\r\n" + strings.Repeat("WWW-Authenticate: Digest realm=\"r\", nonce=\"n\"\r\n", n%401) + b + "\r\n\r\nbody"
	case 9:
		r = "RTSP/1.0 200 OK\r\n" + strings.Repeat("Session: 1\r\nX: y\r\n", n%401) + b + "\r\n\r\nbody"
	case 10:
		r = "RTSP/1.0 200 OK\r\nContent-Length: " + strconv.Itoa(n) + "\r\n\r\n" + strings.Repeat("x", n-len(b)) + b
	}
	if t := vsym.Choose("cut", 0, 3+13*vsym.Tier()); t > 0 {
		r = r[:len(r)*(17-t)/17]
	}
	c03Parse([]byte(r))
}
