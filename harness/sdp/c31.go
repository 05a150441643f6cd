package sdp

import (
	"net"
	"time"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

func c31num(name string) int {
	v := int(vsym.U16(name) & 0x7ff)
	vsym.Assume(v <= 1299)
	return v
}

func c31text(name string, n int) string {
	if n > 2 {
		// long, one character arbitrary
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + i%26)
		}
		b[n-1] = vhTok(name, 1, "")[0]
		return string(b)
	}
	return vhTok(name, n, "")
}

// c31ip returns an address, its text and its type.
func c31ip() (net.IP, string, string) {
	k := vsym.Choose("ip", 0, 6)
	b := vsym.Byte("ip_byte")
	d := c31dec(int(b))
	switch k {
	case 0:
		return net.IPv4(b, 0, 255, 10), d + ".0.255.10", "IP4"
	case 1:
		return net.IP{99, b, 100, 9}, "99." + d + ".100.9", "IP4"
	case 2:
		return net.IPv4(224, 2, 1, b), "224.2.1." + d, "IP4"
	case 3:
		return net.ParseIP("ff15::103"), "FF15::103", "IP6"
	case 4:
		return net.ParseIP("2001:db8:a:b:c:d:e:f"), "2001:DB8:A:B:C:D:E:F", "IP6"
	case 5:
		return net.ParseIP("::"), "::", "IP6"
	}
	return net.ParseIP("::1:0:0"), "::1:0:0", "IP6"
}

func c31or(s, d string) string {
	if s == "" {
		return d
	}
	return s
}

const c31Calls = 22

// c31add makes one call with arbitrary values, texts of n bytes, and returns
// the line it stands for.
func c31add(s Session, call, n int) (Session, Type, string) {
	text := func(name string) string { return c31text(name, n) }
	opt := func(name string) string {
		if vsym.Choose(name+"_set", 0, 1) == 0 {
			return ""
		}
		return c31text(name, n)
	}
	switch call {
	case 0:
		v := c31num("version")
		return s.AddVersion(v), 'v', c31dec(v)
	case 1:
		t := text("phone")
		return s.AddPhone(t), 'p', t
	case 2:
		t := text("email")
		return s.AddEmail(t), 'e', t
	case 3:
		t := text("name")
		return s.AddSessionName(t), 's', t
	case 4:
		t := text("info")
		return s.AddSessionInfo(t), 'i', t
	case 5:
		t := text("uri")
		return s.AddURI(t), 'u', t
	case 6:
		ip, t, k := c31ip()
		c := ConnectionData{NetworkType: opt("net"), AddressType: opt("type"), IP: ip}
		if vsym.Choose("ttl_set", 0, 1) == 1 {
			c.TTL = vsym.Byte("ttl")
			vsym.Assume(c.TTL > 0)
			t += "/" + c31dec(int(c.TTL))
		}
		if vsym.Choose("addresses_set", 0, 1) == 1 {
			c.Addresses = vsym.Byte("addresses")
			vsym.Assume(c.Addresses > 0)
			t += "/" + c31dec(int(c.Addresses))
		}
		if vsym.Choose("ask", 0, 1) == 1 {
			vsym.Assert(c.ConnectionAddress() == t, "address as text")
		}
		return s.AddConnectionData(c), 'c', c31or(c.NetworkType, "IN") + " " + c31or(c.AddressType, k) + " " + t
	case 7:
		ip, t, k := c31ip()
		return s.AddConnectionDataIP(ip), 'c', "IN " + k + " " + t
	case 8:
		o := Origin{Username: text("user"), SessionID: 12345, SessionVersion: 678, NetworkType: opt("net"), AddressType: opt("type")}
		switch vsym.Choose("number", 0, 1) {
		case 0:
			o.SessionID = c31num("id")
		case 1:
			o.SessionVersion = c31num("sessver")
		}
		k := vsym.Choose("address", 0, 3)
		o.Address = []string{"10.47.16.5", "FF15::103", "::1", "host"}[k]
		kind := []string{"IP4", "IP6", "IP6", "IP4"}[k]
		return s.AddOrigin(o), 'o', o.Username + " " + c31dec(o.SessionID) + " " + c31dec(o.SessionVersion) + " " + c31or(o.NetworkType, "IN") + " " + c31or(o.AddressType, kind) + " " + o.Address
	case 9:
		a, b := c31num("start"), 2873404696
		if vsym.Choose("end", 0, 1) == 1 {
			a, b = b, a
		}
		return s.AddTimingNTP(uint64(a), uint64(b)), 't', c31dec(a) + " " + c31dec(b)
	case 10:
		a := c31num("start")
		t := time.Time{}
		e := "0"
		if a > 0 {
			t = time.Unix(int64(a), 0)
			e = c31dec(2208988800 + a)
		}
		return s.AddTiming(time.Time{}, t), 't', "0 " + e
	case 11:
		k := text("key")
		return s.AddFlag(k), 'a', k
	case 12:
		k := text("key")
		return s.AddAttribute(k), 'a', k
	case 13:
		k, v := text("key"), text("value")
		return s.AddAttribute(k, v), 'a', k + ":" + v
	case 14:
		k, v, w := text("key"), text("value"), text("more")
		return s.AddAttribute(k, v, w, "z"), 'a', k + ":" + v + " " + w + " z"
	case 15:
		k, v := text("type"), c31num("bandwidth")
		return s.AddBandwidth(BandwidthType(k), v), 'b', k + ":" + c31dec(v)
	case 16:
		m := MediaDescription{Type: text("type"), Port: c31num("port"), Protocol: text("proto"), Format: text("format")}
		return s.AddMediaDescription(m), 'm', m.Type + " " + c31dec(m.Port) + " " + m.Protocol + " " + m.Format
	case 17:
		m := MediaDescription{Type: text("type"), Port: 49170, PortsNumber: c31num("ports"), Protocol: "RTP/AVP", Format: text("format")}
		vsym.Assume(m.PortsNumber > 0)
		return s.AddMediaDescription(m), 'm', m.Type + " 49170/" + c31dec(m.PortsNumber) + " RTP/AVP " + m.Format
	case 18:
		k, v := text("method"), text("key")
		if vsym.Choose("struct", 0, 1) == 1 {
			return s.AddEncryption(Encryption{k, v}), 'k', k + ":" + v
		}
		return s.AddEncryptionKey(k, v), 'k', k + ":" + v
	case 19:
		k := text("method")
		switch vsym.Choose("way", 0, 2) {
		case 0:
			s = s.AddEncryptionMethod(k)
		case 1:
			s = s.AddEncryptionKey(k, "")
		case 2:
			s = s.AddEncryption(Encryption{Method: k})
		}
		return s, 'k', k
	case 20:
		t := vsym.Byte("line")
		vsym.Assume(t >= 'a' && t <= 'z')
		v := text("value")
		if vsym.Choose("raw", 0, 1) == 1 {
			return s.AddRaw(rune(t), v), Type(t), v
		}
		return s.AddLine(Type(t), v), Type(t), v
	}
	// repeat times in seconds
	a, b := c31num("repeat"), c31num("offset")
	return s.AddRepeatTimes(time.Duration(a)*time.Second, 3600*time.Second, 0, time.Duration(b)*time.Second), 'r', c31dec(a) + " 3600 0 " + c31dec(b)
}

// One call.
//
// vh:bound each of 22 calls with arbitrary values: texts of 1, 2, 62..66, 127, 255..257, 511..513, 1000, 2047..2049 or 5000 bytes (1..2 arbitrary, or the last one), numbers 0..1299, three IPv4 addresses with one byte arbitrary and four IPv6 ones, optional sub-fields present or not
// vh:reach ok
func VH_C31_One() {
	ns := []int{1, 2, 62, 63, 64, 65, 66, 127, 255, 256, 257, 511, 512, 513, 1000, 2047, 2048, 2049, 5000}
	call := vsym.Choose("call", 0, c31Calls-1)
	n := 1
	if call != 0 && call != 7 && call != 9 && call != 10 && call != 21 {
		n = ns[vsym.Choose("len", 0, len(ns)-1)]
	}
	s, t, v := c31add(nil, call, n)
	vsym.Assert(len(s) == 1, "not one line")
	vsym.Assert(s[0].Type == t, "type of the line")
	vsym.Assert(string(s[0].Value) == v, "text of the line")
	vsym.Assert(string(s.AppendTo(nil)) == string(rune(t))+"="+v, "line as text")
	vsym.Reach("ok")
}

// Several calls on a new or an emptied list.
//
// vh:bound every sequence of three of the 22 calls (texts of one arbitrary byte in the last, the others fixed), on no list, an empty one with room for 1..8 lines, or one emptied after holding 1, 2, 3, 4 or 9 lines that were shorter or longer
// vh:reach new reused
func VH_C31_Several() {
	var s Session
	if k := vsym.Choose("old", 0, 7); k > 0 {
		room := []int{1, 2, 3, 4, 9, 5, 8}[k-1]
		s = make(Session, 0, room)
		if k <= 5 {
			v := []string{"x", "a longer value than any of the others that are written here"}[vsym.Choose("long", 0, 1)]
			for i := 0; i < room; i++ {
				s = s.AddLine('x', v+c31dec(i))
			}
			s = s[:0]
			vsym.Reach("reused")
		}
	} else {
		vsym.Reach("new")
	}
	first, second, third := 0, 0, 0
	if vsym.Tier() == 1 {
		first, second = vsym.Choose("first", 0, 4), vsym.Choose("second", 0, 4)
	} else {
		first = vsym.Choose("first", 0, 4)
		second = (first + 2) % 5
	}
	third = vsym.Choose("third", 0, c31Calls-1)
	var ts []Type
	var vs []string
	text := ""
	add := func(t Type, v string) {
		ts, vs = append(ts, t), append(vs, v)
		if len(ts) > 1 {
			text += "\n"
		}
		text += string(rune(t)) + "=" + v
		vsym.Assert(len(s) == len(ts), "not one line per call")
		for i := range ts {
			vsym.Assert(s[i].Type == ts[i], "type of the line")
			vsym.Assert(string(s[i].Value) == vs[i], "text of the line, or an earlier one changed")
		}
		vsym.Assert(string(s.AppendTo([]byte("0"))) == "0"+text, "list as text")
	}
	fixed := func(k int) {
		switch k {
		case 0:
			s = s.AddVersion(7)
			add('v', "7")
		case 1:
			s = s.AddAttribute("rtpmap", "96", "H264/90000")
			add('a', "rtpmap:96 H264/90000")
		case 2:
			s = s.AddFlag("recvonly")
			add('a', "recvonly")
		case 3:
			s = s.AddSessionName("a name of some length")
			add('s', "a name of some length")
		case 4:
			s = s.AddConnectionDataIP(net.IPv4(1, 2, 3, 4))
			add('c', "IN IP4 1.2.3.4")
		}
	}
	fixed(first)
	fixed(second)
	var t Type
	var v string
	s, t, v = c31add(s, third, 1)
	add(t, v)
}

// Many lines.
//
// vh:bound 10, 100 or 300 lines of lengths 1..700 on a new list, and the same again on the emptied one in another order
// vh:reach ok
// vh:opt steps=400000000
func VH_C31_Many() {
	n := []int{10, 100, 300}[vsym.Choose("n", 0, 2)]
	var s Session
	b := vhTok("some", 1, "")
	val := func(i int) string {
		v := make([]byte, 1+i*37%700)
		for j := range v {
			v[j] = byte('0' + (i+j)%70)
		}
		return string(v) + b
	}
	for round := 0; round < 2; round++ {
		s = s[:0]
		for i := 0; i < n; i++ {
			v := val(i + round*11)
			switch i % 4 {
			case 0:
				s = s.AddAttribute(v, v)
			case 1:
				s = s.AddFlag(v)
			case 2:
				s = s.AddSessionInfo(v)
			case 3:
				s = s.AddEncryptionKey(v, v)
			}
		}
		text := s.AppendTo(nil)
		for i := 0; i < n; i++ {
			v := val(i + round*11)
			w := []string{"a=" + v + ":" + v, "a=" + v, "i=" + v, "k=" + v + ":" + v}[i%4]
			if i < n-1 {
				w += "\n"
			}
			vsym.Assert(len(text) >= len(w) && string(text[:len(w)]) == w, "line damaged")
			text = text[len(w):]
		}
		vsym.Assert(len(text) == 0 && len(s) == n, "line invented")
	}
	vsym.Reach("ok")
}

func c31any(name string, max int) string {
	n := vsym.Choose(name+"_len", 0, max)
	return vhTok(name, n, "")
}

// Sub-fields left empty, lists of values, forms of addresses.
//
// vh:bound attributes with 0..4 values of 0..1 arbitrary characters; texts, keys, methods and names of sub-fields of 0..2 arbitrary characters; origins with addresses of 0..4 arbitrary characters or one of 10 written forms (names, IPv4, IPv6, IPv6 ending in IPv4, with zone); repeat times with 1..4 offsets, plain or compact, days, hours, minutes and seconds
// vh:reach ok
// vh:opt paths=2000000
func VH_C31_Forms() {
	var s Session
	var t Type
	v := ""
	switch vsym.Choose("form", 0, 7) {
	case 0:
		k := c31any("key", 2)
		n := vsym.Choose("values", 0, 4)
		t, v = 'a', k
		var vs []string
		for i := 0; i < n; i++ {
			w := c31any("value", 1)
			vs = append(vs, w)
			if i == 0 {
				v += ":" + w
			} else {
				v += " " + w
			}
		}
		s = s.AddAttribute(k, vs...)
	case 1:
		t, v = 'i', c31any("text", 2)
		switch vsym.Choose("call", 0, 6) {
		case 0:
			s = s.AddSessionInfo(v)
		case 1:
			t, s = 's', s.AddSessionName(v)
		case 2:
			t, s = 'e', s.AddEmail(v)
		case 3:
			t, s = 'p', s.AddPhone(v)
		case 4:
			t, s = 'u', s.AddURI(v)
		case 5:
			t, s = 'a', s.AddFlag(v)
		case 6:
			t, s = 'y', s.AddLine('y', v)
		}
	case 2:
		m, k := c31any("method", 2), c31any("key", 2)
		t, v = 'k', m
		if k != "" {
			v += ":" + k
		}
		if vsym.Choose("struct", 0, 1) == 1 {
			s = s.AddEncryption(Encryption{m, k})
		} else {
			s = s.AddEncryptionKey(m, k)
		}
	case 3, 4:
		o := Origin{Username: "-", SessionID: 1, SessionVersion: 2, NetworkType: c31any("net", 1), AddressType: c31any("type", 1)}
		kind := "IP4"
		if k := vsym.Choose("address", 0, 10); k > 0 {
			o.Address = []string{"64:ff9b::10.0.0.1", "::ffff:1.2.3.4", "::1.2.3.4", "::", "FE80::1", "1:2:3:4:5:6:7:8", "example.com", "localhost", "10.0.0.1", "0.0.0.0"}[k-1]
			if k <= 6 {
				kind = "IP6"
			}
		} else {
			o.Address = c31any("anyaddr", 4)
			dot, colon := -1, -1
			for i := len(o.Address) - 1; i >= 0; i-- {
				if o.Address[i] == '.' {
					dot = i
				} else if o.Address[i] == ':' {
					colon = i
				}
			}
			vsym.Assume(dot < 0 || colon < 0 || colon < dot)
			if colon >= 0 {
				kind = "IP6"
			}
		}
		s = s.AddOrigin(o)
		t, v = 'o', "- 1 2 "+c31or(o.NetworkType, "IN")+" "+c31or(o.AddressType, kind)+" "+o.Address
	case 5:
		c := ConnectionData{NetworkType: c31any("net", 2), AddressType: c31any("type", 2), TTL: vsym.Byte("ttl"), Addresses: vsym.Byte("addresses")}
		if vsym.Choose("few", 0, 1) == 1 {
			vsym.Assume(c.TTL < 3 && c.Addresses == 200)
		} else {
			vsym.Assume(c.Addresses < 3 && c.TTL == 127)
		}
		w, kind := "", ""
		c.IP, w, kind = c31ip()
		if c.TTL != 0 {
			w += "/" + c31dec(int(c.TTL))
		}
		if c.Addresses != 0 {
			w += "/" + c31dec(int(c.Addresses))
		}
		vsym.Assert(c.ConnectionAddress() == w, "address as text")
		s = s.AddConnectionData(c)
		t, v = 'c', c31or(c.NetworkType, "IN")+" "+c31or(c.AddressType, kind)+" "+w
	case 6:
		m := MediaDescription{Type: c31any("type", 1), Port: 5, Protocol: c31any("proto", 1), Format: c31any("format", 2)}
		if vsym.Choose("ports", 0, 1) == 1 {
			m.PortsNumber = vsym.Choose("number", 1, 3)
		}
		t, v = 'm', m.Type+" 5"
		if m.PortsNumber > 0 {
			v += "/" + c31dec(m.PortsNumber)
		}
		v += " " + m.Protocol + " " + m.Format
		s = s.AddMediaDescription(m)
	case 7:
		type iv struct {
			s    int
			text string
		}
		ivs := []iv{{0, "0"}, {1, "1"}, {59, "59"}, {60, "1m"}, {61, "61"}, {3600, "1h"}, {3660, "61m"}, {5400, "90m"}, {86400, "1d"}, {90000, "25h"}, {604800, "7d"}, {-3600, "-1h"}, {-1, "-1"}}
		compact := vsym.Choose("compact", 0, 1) == 1
		pick := func(name string) (time.Duration, string) {
			i := ivs[vsym.Choose(name, 0, len(ivs)-1)]
			if !compact {
				i.text = c31dec(i.s)
			}
			return time.Duration(i.s) * time.Second, i.text
		}
		r, w := pick("repeat")
		var os []time.Duration
		t, v = 'r', w+" 60"
		if compact {
			v = w + " 1m"
		}
		n := vsym.Choose("offsets", 1, 4)
		for i := 0; i < n; i++ {
			o, w := time.Duration(i)*time.Second, c31dec(i)
			if i == 1 {
				o, w = pick("offset")
			}
			os = append(os, o)
			v += " " + w
		}
		if compact {
			s = s.AddRepeatTimesCompact(r, time.Minute, os...)
		} else {
			s = s.AddRepeatTimes(r, time.Minute, os...)
		}
	}
	vsym.Assert(len(s) == 1, "not one line")
	vsym.Assert(s[0].Type == t, "type of the line")
	vsym.Assert(string(s[0].Value) == v, "text of the line")
	vsym.Assert(string(s.AppendTo(nil)) == string(rune(t))+"="+v, "line as text")
	vsym.Reach("ok")
}
