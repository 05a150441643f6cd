package rtspclient

import (
	"encoding/base64"
	"net"
	"strings"
	"time"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

//vh:use commonauth

// c12URL is a URL and what is to be derived from it.
type c12URL struct {
	url, address, uri, user, pass string
}

// c12Path is path text: unreserved characters, delimiters and escapes.
func c12Path(name string, n int) string {
	b := vsym.Str(name, n)
	for i := 0; i < n; i++ {
		c := b[i]
		vsym.Assume(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '&' && c <= ';' || c == '_' || c == '~' || c == '=' || c == '!' || c == '$' || c == '@')
	}
	return b
}

func c12Digits(name string, n int) string {
	b := vsym.Str(name, n)
	for i := 0; i < n; i++ {
		vsym.Assume(b[i] >= '0' && b[i] <= '9')
	}
	return b
}

func c12Hex(name string, n int) string {
	b := vsym.Str(name, n)
	for i := 0; i < n; i++ {
		c := b[i]
		vsym.Assume(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F')
	}
	return b
}

// What of the URL is arbitrary.
const (
	c12HostPort = 1 << iota
	c12PathText
	c12UserInfo
)

// c12Any is any URL of the shape covered, with arbitrary text in the places
// given.
func c12Any(places, k int) c12URL {
	var u c12URL
	host := "h"
	if places&c12HostPort == 0 {
		u.address = "h:554"
	} else {
		switch vsym.Choose("host", 0, 3) {
		case 0:
			host = vhUnreserved("name", vsym.Choose("hlen", 1, k))
			vsym.Assume(host[0] != '~' && host[len(host)-1] != '~')
		case 1:
			host = "192.168.1." + c12Digits("ip", vsym.Choose("hlen", 1, k))
		case 2:
			host = "[::" + c12Hex("ip6", vsym.Choose("hlen", 1, k)) + "]"
		case 3:
			host = "[2001:db8:0:1::" + c12Hex("ip6", 1) + "]"
		}
		u.address = host
		switch n := vsym.Choose("port", 0, 2+2*vsym.Tier()); n {
		case 0:
			u.address += ":554"
		case 1:
			// an empty port is the default port
			host += ":"
			u.address += ":554"
		default:
			p := c12Digits("portdigits", 2*n-3)
			vsym.Assume(n != 4 || p[0] < '6')
			host += ":" + p
			u.address += ":" + p
		}
	}
	rest := "/p"
	if places&c12PathText != 0 {
		switch vsym.Choose("path", 0, 3) {
		case 0:
			rest = ""
		case 1:
			rest = "/" + c12Path("text", vsym.Choose("plen", 0, k))
		case 2:
			rest = "/a/" + c12Path("text", 1) + "%" + c12Hex("escape", 2) + "b"
		case 3:
			rest = "/" + c12Path("text", 1) + "?" + c12Path("query", k) + "&x=/y?z"
		}
	}
	info := ""
	if places&c12UserInfo == 0 {
		u.user, u.pass = "u", "w"
		info = "u:w@"
	} else {
		switch vsym.Choose("info", 0, 3) {
		case 1:
			u.user = vhUnreserved("user", k)
			info = u.user + "@"
		case 2:
			u.user, u.pass = vhUnreserved("user", k), vhUnreserved("pass", k)
			info = u.user + ":" + u.pass + "@"
		case 3:
			u.user, u.pass = "a@b", vhUnreserved("pass", 1)+":%"
			info = "a%40b:" + u.pass[:1] + "%3a%25@"
		}
	}
	u.url = "rtsp://" + info + host + rest
	u.uri = "rtsp://" + host + rest
	return u
}

// c12Play plays the URL and checks what is dialled and requested.
func c12Play(app *vhApp, s *RtspClientSession, u c12URL) {
	challenge := u.pass != ""
	old := vhAnswer(vhSDP("VP8"))
	srv := vhNewServer(func(i int, req string) string {
		if len(vhHeader(req, "Authorization")) == 0 {
			return "RTSP/1.0 401 Unauthorized\r\nCSeq: " + vhHeader(req, "CSeq")[0] + "\r\nWWW-Authenticate: Basic realm=\"r\"\r\n\r\n"
		}
		return old(i, req)
	})
	var dialled []string
	vsym.SetDial(func(network, address string, timeout time.Duration) (net.Conn, error) {
		vsym.Assert(network == "tcp", "wrong network")
		dialled = append(dialled, address)
		return srv.conn, nil
	})
	err := s.Play(u.url)
	vsym.Assert(len(dialled) == 1, "not connected once")
	vsym.Assert(dialled[0] == u.address, "wrong host or port")
	vsym.Assert(len(srv.reqs) > 0, "no request")
	for _, r := range srv.reqs {
		uri := r[len(vhMethod(r))+1 : strings.Index(r, " RTSP/1.0\r\n")]
		if vhMethod(r) == "SETUP" {
			vsym.Assert(uri == u.uri+"/t0", "wrong URI of SETUP")
		} else {
			vsym.Assert(uri == u.uri, "wrong request URI")
		}
	}
	if challenge {
		vsym.Assert(err == nil, "session not established")
		h := vhHeader(srv.reqs[1], "Authorization")
		vsym.Assert(len(h) == 1 && h[0] == "Basic "+base64.StdEncoding.EncodeToString([]byte(u.user+":"+u.pass)), "wrong credentials")
		vsym.Reach("authorized")
	} else {
		vsym.Assert(err != nil && len(srv.reqs) == 1, "challenge answered without credentials")
		vsym.Reach("unauthorized")
	}
	s.Close()
	vsym.Quiesce()
	srv.conn.Hangup()
	vsym.Quiesce()
}

// Hosts and ports.
//
// vh:bound hosts: names of 1..2 (thorough 3) unreserved characters, IPv4 and IPv6 literals with 1..2 (3) arbitrary digits; port absent, empty or of 1 (thorough 3, 5) digits; URL with path and credentials
// vh:reach authorized
// vh:opt paths=3000000
func VH_C12_HostPort() {
	app := &vhApp{}
	c12Play(app, app.session(), c12Any(c12HostPort, 2+vsym.Tier()))
}

// Paths and queries.
//
// vh:bound path absent, of 0..2 (thorough 3) arbitrary characters, with an escape of any value, with a query of 2 (3) arbitrary characters
// vh:reach authorized
// vh:opt paths=3000000
func VH_C12_Path() {
	app := &vhApp{}
	c12Play(app, app.session(), c12Any(c12PathText, 2+vsym.Tier()))
}

// User info.
//
// vh:bound user info absent, user of 3 (thorough 5) arbitrary unreserved characters, user and password of 3 (5), escapes
// vh:reach authorized unauthorized
// vh:opt paths=3000000
func VH_C12_UserInfo() {
	app := &vhApp{}
	c12Play(app, app.session(), c12Any(c12UserInfo, 3+2*vsym.Tier()))
}

// Everything together.
//
// vh:bound hosts, ports, paths and user info of the shapes above in all combinations, one arbitrary character in each place, thorough only
// vh:opt paths=3000000
func VH_C12_All() {
	if vsym.Tier() == 0 {
		return
	}
	app := &vhApp{}
	c12Play(app, app.session(), c12Any(c12HostPort|c12PathText|c12UserInfo, 1))
}

// Two URLs one after the other.
//
// vh:bound one of three URLs, then every URL with host, port and user info of the shapes above with one arbitrary character in each place
// vh:reach authorized unauthorized
// vh:opt paths=3000000
func VH_C12_Pair() {
	app := &vhApp{}
	s := app.session()
	a := []c12URL{
		{"rtsp://h", "h:554", "rtsp://h", "", ""},
		{"rtsp://x:y@h:8554/p?q", "h:8554", "rtsp://h:8554/p?q", "x", "y"},
		{"rtsp://x@[::1]:1/p%20", "[::1]:1", "rtsp://[::1]:1/p%20", "x", ""},
	}[vsym.Choose("first", 0, 2)]
	c12Play(app, s, a)
	places := c12HostPort
	if vsym.Choose("places", 0, 1) == 1 {
		places = c12UserInfo
	}
	c12Play(app, s, c12Any(places, 1))
}

// Long URLs, and special ports.
//
// vh:bound host names of 8..253 characters, paths, queries and user info of 8..2000 characters (10 lengths each, one character arbitrary), one of them at a time; ports 1, 80, 443, 554, 555, 0554, 8554, 32768, 65535
// vh:reach authorized
// vh:opt paths=3000000
func VH_C12_Long() {
	k := vsym.Choose("n", 0, 9)
	n := []int{8, 16, 17, 32, 64, 65, 128, 256, 257, 2000}[k]
	x := strings.Repeat("x", n-1) + vhUnreserved("some", 1)
	host, port, rest, user, pass := "h", ":8554", "/p", "u", "w"
	switch vsym.Choose("what", 0, 6) {
	case 0:
		n = []int{8, 15, 16, 31, 32, 63, 64, 128, 200, 253}[k]
		host = strings.Repeat("y", n-4) + ".a" + vhToken("host", 1) + "z"
		vsym.Assume(host[n-2] != '+' && host[n-2] != '$')
	case 1:
		rest = "/" + x
	case 2:
		rest = "/a/" + strings.Repeat("b/", n) + x + "?" + x + "=/?:" + x
	case 3:
		user = x
	case 4:
		pass = x
	case 5:
		host, port = "["+strings.Repeat("0123:", 7)+"ab"+c12Hex("ip6", 2)+"]", ""
	case 6:
		port = []string{":1", ":80", ":443", ":554", ":555", ":0554", ":8554", ":32768", ":65535", ""}[k]
	}
	u := c12URL{address: host + port, uri: "rtsp://" + host + port + rest, user: user, pass: pass}
	if port == "" {
		u.address += ":554"
	}
	u.url = "rtsp://" + user + ":" + pass + "@" + host + port + rest
	app := &vhApp{}
	c12Play(app, app.session(), u)
}
