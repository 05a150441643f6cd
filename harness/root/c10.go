package rtspclient

import (
	"encoding/base64"
	"encoding/hex"
	"strings"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

//vh:use commonauth

// c10Field returns the value of a quoted field of a digest answer that may contain anything but a quote.
func c10Field(h, name string) string {
	i := strings.Index(h, name+`="`)
	vsym.Assert(i >= 0, "field missing in the answer")
	h = h[i+len(name)+2:]
	e := strings.Index(h, `"`)
	vsym.Assert(e >= 0, "unterminated field in the answer")
	return h[:e]
}

// c10Check checks the authorization of a request.
func c10Check(req, user, pass, realm, nonce string) {
	line := req[:strings.Index(req, "\r\n")]
	w := strings.Split(line, " ")
	vsym.Assert(len(w) == 3, "malformed request line")
	h := vhHeader(req, "Authorization")
	vsym.Assert(len(h) == 1, "request without one authorization")
	vsym.Assert(strings.HasPrefix(h[0], "Digest "), "no digest answer")
	vsym.Assert(c10Field(h[0], "username") == user, "wrong user name")
	vsym.Assert(c10Field(h[0], " realm") == realm, "wrong realm")
	vsym.Assert(c10Field(h[0], "nonce") == nonce, "wrong nonce")
	vsym.Assert(c10Field(h[0], "uri") == w[1], "wrong URI")
	vsym.Assert(c10Field(h[0], "response") == vhDigest(user, realm, pass, nonce, w[0], w[1]), "response differs from the formula")
}

// c10Session sets up a session that is challenged once and then sends every other request.
func c10Session(url, challenge string, setup func(s *RtspClientSession)) *vhServer {
	app := &vhApp{}
	s := app.session()
	old := vhAnswer(vhSDP("VP8", "H264"))
	srv := vhNewServer(func(i int, req string) string {
		if i == 0 && challenge != "" {
			return "RTSP/1.0 401 Unauthorized\r\nCSeq: 0\r\nWWW-Authenticate: " + challenge + "\r\n\r\n"
		}
		return old(i, req)
	})
	vsym.Assert(s.ParsingURL(url) == nil, "valid URL refused")
	if setup != nil {
		setup(s)
	}
	vsym.Assert(s.SetConnection(srv.conn) == nil, "session not established")
	vsym.Assert(s.SendPause() == nil, "request refused")
	s.WaitRtspResponse()
	vsym.Assert(s.SendPlay(5, 2) == nil, "request refused")
	s.WaitRtspResponse()
	vsym.Assert(s.SendTeardown() == nil, "request refused")
	s.WaitRtspResponse()
	var m []string
	for _, r := range srv.reqs {
		m = append(m, vhMethod(r))
	}
	want := "DESCRIBE SETUP SETUP PLAY PAUSE PLAY TEARDOWN"
	if challenge != "" {
		want = "DESCRIBE " + want
	}
	vsym.Assert(strings.Join(m, " ") == want, "wrong requests")
	return srv
}

// Digest answers of every request, with any user, password, realm, nonce and URI.
//
// vh:bound user and password of 1..3 (thorough 4) unreserved characters, realm and nonce of 0..2 (thorough 0..3) printable characters other than quote and backslash, a path of 0..2 unreserved characters without or with a query (3 shapes); DESCRIBE, SETUP (two), PLAY, PAUSE, TEARDOWN; MD5 as an uninterpreted function
// vh:reach digest
// vh:opt paths=3000000
func VH_C10_Digest() {
	user := vhUnreserved("user", vsym.Choose("ulen", 1, 3+vsym.Tier()))
	pass := vhUnreserved("pass", vsym.Choose("plen", 1, 3+vsym.Tier()))
	n := vsym.Choose("rlen", 0, 2+vsym.Tier())
	realm := vhQuoted("realm", n)
	nonce := vhQuoted("nonce", 2+vsym.Tier()-n)
	path := vhUnreserved("path", vsym.Choose("pathlen", 0, 2))
	url := "rtsp://" + user + ":" + pass + "@h/" + path + []string{"", "?q=1&r=/x", "/a?b", "?"}[vsym.Choose("query", 0, 2)]
	srv := c10Session(url, `Digest realm="`+realm+`", nonce="`+nonce+`"`, nil)
	vsym.Assert(len(vhHeader(srv.reqs[0], "Authorization")) == 0, "answer without challenge")
	for _, r := range srv.reqs[1:] {
		c10Check(r, user, pass, realm, nonce)
	}
	vsym.Reach("digest")
}

// The password never appears in a digest answer.
//
// vh:bound a password of 8 unreserved characters that contains a letter outside a..f in its first place and shares nothing with the rest of the session; concrete MD5 values are covered by the formula
// vh:reach hidden
func VH_C10_Hidden() {
	pass := "zq" + vhUnreserved("pass", 2)
	vsym.Assume(pass[2] > 'w' && pass[3] > 'w')
	for _, r := range c10Session("rtsp://us:"+pass+"@h/p", `Digest realm="r", nonce="n"`, nil).reqs {
		vsym.Assert(!strings.Contains(r, "zq"), "password sent in clear")
		h := vhHeader(r, "Authorization")
		for _, a := range h {
			vsym.Assert(!strings.Contains(a, "Basic"), "basic answer to a digest challenge")
		}
	}
	vsym.Reach("hidden")
}

// Basic answers.
//
// vh:bound user and password of 1..3 (thorough 4) unreserved characters, the password with or without an additional escaped character of any value
// vh:reach basic
// vh:opt paths=3000000
func VH_C10_Basic() {
	user := vhUnreserved("user", vsym.Choose("ulen", 1, 3+vsym.Tier()))
	pass := vhUnreserved("pass", vsym.Choose("plen", 1, 3+vsym.Tier()))
	enc := pass
	if vsym.Choose("escape", 0, 1) == 1 {
		c := vsym.Byte("char")
		enc += "%" + hex.EncodeToString([]byte{c})
		pass += string([]byte{c})
	}
	srv := c10Session("rtsp://"+user+":"+enc+"@h/p", `Basic realm="r"`, nil)
	vsym.Assert(len(vhHeader(srv.reqs[0], "Authorization")) == 0, "answer without challenge")
	for _, r := range srv.reqs[1:] {
		h := vhHeader(r, "Authorization")
		vsym.Assert(len(h) == 1 && h[0] == "Basic "+base64.StdEncoding.EncodeToString([]byte(user+":"+pass)), "basic answer is not the base64 of user:password")
	}
	vsym.Reach("basic")
}

// Without a challenge nothing is answered.
//
// vh:bound user and password of 1..2 unreserved characters; all requests
// vh:reach none
func VH_C10_None() {
	user := vhUnreserved("user", vsym.Choose("ulen", 1, 2))
	pass := vhUnreserved("pass", vsym.Choose("plen", 1, 2))
	for _, r := range c10Session("rtsp://"+user+":"+pass+"@h/p", "", nil).reqs {
		vsym.Assert(len(vhHeader(r, "Authorization")) == 0, "answer without challenge")
	}
	vsym.Reach("none")
}

// Long values, and other schemes of URL.
//
// vh:bound user, password, realm, nonce or path of each of 20 lengths from 8 to 1000 characters, the first, middle and last of which are arbitrary; with or without a query, a port, an IPv6 host
// vh:reach long
// vh:opt paths=3000000
func VH_C10_Long() {
	lens := []int{8, 15, 16, 17, 23, 24, 31, 32, 33, 55, 56, 63, 64, 65, 127, 128, 129, 256, 257, 1000}
	long := func(n int, sym func(name string, n int) string) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"[(i*7+n)%64]
		}
		m := sym("some", 3)
		b[0], b[n/2], b[n-1] = m[0], m[1], m[2]
		return string(b)
	}
	k := vsym.Choose("n", 0, len(lens)-1)
	n := lens[k]
	user, pass, realm, nonce, path := "us", "pw", "r", "n", "p"
	what := vsym.Choose("what", 0, 4)
	switch what {
	case 0:
		user = long(n, vhUnreserved)
	case 1:
		pass = long(n, vhUnreserved)
	case 2:
		realm = long(n, vhQuoted)
	case 3:
		nonce = long(n, vhQuoted)
	case 4:
		path = long(n, vhUnreserved)
	}
	host := []string{"h", "h:8554", "[::1]", "[fe80::1]:554", "192.168.100.200:65535"}[(k+what)%5]
	q := []string{"", "?q", "?a=1&b=" + strings.Repeat("z", n)}[(k+what)%3]
	for _, r := range c10Session("rtsp://"+user+":"+pass+"@"+host+"/"+path+q, `Digest realm="`+realm+`", nonce="`+nonce+`"`, nil).reqs[1:] {
		c10Check(r, user, pass, realm, nonce)
		vsym.Assert(strings.HasPrefix(strings.Split(r, " ")[1], "rtsp://"+host+"/"+path+q), "request for another URI")
	}
	basic := c10Session("rtsp://"+user+":"+pass+"@"+host+"/"+path+q, `Basic realm="`+realm+`"`, nil)
	for _, r := range basic.reqs[1:] {
		h := vhHeader(r, "Authorization")
		vsym.Assert(len(h) == 1 && h[0] == "Basic "+base64.StdEncoding.EncodeToString([]byte(user+":"+pass)), "basic answer is not the base64 of user:password")
	}
	vsym.Reach("long")
}
