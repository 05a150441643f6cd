package sdp

import (
	"net"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

var c24field = []struct{ pre, post string }{
	{"m=a ", " b c"},
	{"m=a 1/", " b c"},
	{"o=- ", " 1 IN IP4 h"},
	{"o=- 1 ", " IN IP4 h"},
	{"b=AS:", ""},
	{"m=a 1 b c\nb=CT:", ""},
	{"v=", ""},
}

func c24get(m *Message, f int) int {
	switch f {
	case 0:
		return m.Medias[0].Description.Port
	case 1:
		return m.Medias[0].Description.PortsNumber
	case 2:
		return m.Origin.SessionID
	case 3:
		return m.Origin.SessionVersion
	case 4:
		return m.Bandwidths[BandwidthApplicationSpecific]
	case 5:
		return m.Medias[0].Bandwidths[BandwidthConferenceTotal]
	}
	return m.Version
}

// Numeric fields: arbitrary text is the exact decimal value or an error.
//
// vh:bound each of 7 numeric fields with 1..4 arbitrary bytes (5 thorough)
// vh:reach accepted rejected
func VH_C24_Number() {
	f := vsym.Choose("field", 0, len(c24field)-1)
	v := vsym.Bytes("number", vsym.Choose("n", 1, 4+vsym.Tier()))
	for _, c := range v {
		vsym.Assume(c != '\n' && c != ' ' && c != '\r' && c != '/')
	}
	if e := v[len(v)-1]; c24field[f].post == "" {
		vsym.Assume(e > ' ' && e < 0x7f) // white space at the end of a line is not part of it
	}
	m, err := vhDecode([]byte(c24field[f].pre + string(v) + c24field[f].post))
	want, ok := vhDec(v)
	if err != nil {
		vsym.Assert(!ok, "a decimal number is accepted")
		vsym.Reach("rejected")
		return
	}
	vsym.Assert(ok, "only decimal numbers are accepted")
	vsym.Assert(int64(c24get(m, f)) == want, "exact value")
	vsym.Reach("accepted")
}

// Numeric fields at the limits of their type: exact or rejected, never truncated.
//
// vh:bound each of 7 numeric fields with 17..20 digits of which the leading 1..2 and the last 4 are arbitrary (the others 9223372036854775807 or 0000..), optional sign
// vh:reach accepted rejected
func VH_C24_Large() {
	f := vsym.Choose("field", 0, len(c24field)-1)
	base := []string{"9223372036854775807", "10000000000000000", "18446744073709551615", "4294967295", "65535", "2147483647"}[vsym.Choose("base", 0, 5)]
	b := []byte(base)
	for i := range b {
		if i == 0 || i >= len(b)-3 {
			b[i] = vsym.Byte("digit")
			vsym.Assume(b[i] >= '0' && b[i] <= '9')
		}
	}
	neg := vsym.Choose("sign", 0, 1) == 1
	txt := string(b)
	if neg {
		txt = "-" + txt
	}
	m, err := vhDecode([]byte(c24field[f].pre + txt + c24field[f].post))
	// exact value as hi*1e10+lo
	var hi, lo int64
	for _, c := range b {
		lo = lo*10 + int64(c-'0')
		hi = hi*10 + lo/1e10
		lo = lo % 1e10
	}
	// 2^63-1 = 922337203 6854775807
	limit := int64(6854775807)
	if neg {
		limit++
	}
	fits := hi < 922337203 || hi == 922337203 && lo <= limit
	if err != nil {
		vsym.Assert(!fits, "a number in range is accepted")
		vsym.Reach("rejected")
		return
	}
	vsym.Assert(fits, "a number out of range is rejected")
	v := hi*1e10 + lo
	if neg {
		v = -v
	}
	vsym.Assert(int64(c24get(m, f)) == v, "exact value")
	vsym.Reach("accepted")
}

func c24conn(m *Message, media bool) (own, other ConnectionData) {
	if media {
		return m.Medias[0].Connection, m.Connection
	}
	return m.Connection, m.Medias[0].Connection
}

// TTL and number of addresses.
//
// vh:bound IPv4 with TTL and address count, IPv6 with address count; one of them 1..4 arbitrary bytes; session and media level
// vh:reach accepted rejected
func VH_C24_Counts() {
	media := vsym.Choose("level", 0, 1) == 1
	v := vsym.Bytes("number", vsym.Choose("n", 1, 4))
	for _, c := range v {
		vsym.Assume(c != '\n' && c != ' ' && c != '\r' && c != '/')
		vsym.Assume(c > ' ' && c < 0x7f)
	}
	form := vsym.Choose("form", 0, 3)
	c := "c=IN IP4 224.2.1.1/" + string(v)
	switch form {
	case 1:
		c = "c=IN IP4 224.2.1.1/" + string(v) + "/3"
	case 2:
		c = "c=IN IP4 224.2.1.1/127/" + string(v)
	case 3:
		c = "c=IN IP6 FF15::101/" + string(v)
	}
	txt := "v=0\n" + c + "\nm=a 1 b c\na=x"
	if media {
		txt = "v=0\nm=a 1 b c\n" + c + "\na=x"
	}
	m, err := vhDecode([]byte(txt))
	want, ok := vhDec(v)
	if v[0] == '-' || v[0] == '+' {
		ok = false
	}
	if err != nil {
		vsym.Assert(!ok || want > 255, "a count in range is accepted")
		vsym.Reach("rejected")
		return
	}
	vsym.Assert(len(m.Medias) == 1, "one media")
	own, other := c24conn(m, media)
	vsym.Assert(other.Blank(), "other section untouched")
	vsym.Assert(want <= 255 && want >= 0, "a count out of range is rejected")
	var ttl, n int64
	switch form {
	case 0:
		ttl = want
	case 1:
		ttl, n = want, 3
	case 2:
		ttl, n = 127, want
	case 3:
		n = want
	}
	vsym.Assert(int64(own.TTL) == ttl, "TTL")
	vsym.Assert(int64(own.Addresses) == n, "number of addresses")
	vsym.Assert(own.NetworkType == "IN" && (own.AddressType == "IP4") == (form < 3), "types")
	if form == 3 {
		vsym.Assert(own.IP.Equal(net.ParseIP("ff15::101")), "IPv6 address")
	} else {
		vsym.Assert(own.IP.Equal(net.IPv4(224, 2, 1, 1)), "IPv4 address")
	}
	vsym.Reach("accepted")
}

// IPv4 addresses.
//
// vh:bound any IPv4 address with 0..2 counts, session and media level, present at both levels or one
// vh:reach accepted
func VH_C24_IPv4() {
	a := vsym.Bytes("ip", 4)
	ip := net.IPv4(a[0], 2, a[1], a[2]).To4()
	var num [4][]byte
	for i := range num {
		num[i] = vsymDec(int(ip[i]))
	}
	c := "c=IN IP4 " + string(num[0]) + "." + string(num[1]) + "." + string(num[2]) + "." + string(num[3])
	switch vsym.Choose("counts", 0, 2) {
	case 1:
		c += "/12"
	case 2:
		c += "/12/3"
	}
	media := vsym.Choose("level", 0, 1) == 1
	both := vsym.Choose("both", 0, 1) == 1
	txt := "v=0\n" + c + "\nm=a 1 b c\n"
	if both {
		txt += "c=IN IP4 10.0.0.9/7\n"
	}
	if media {
		txt = "v=0\n"
		if both {
			txt += "c=IN IP4 10.0.0.9/7\n"
		}
		txt += "m=a 1 b c\n" + c + "\nm=d 2 e f\n"
	}
	m, err := vhDecode([]byte(txt))
	vsym.Assert(err == nil, "accepted")
	own, other := c24conn(m, media)
	vsym.Assert(own.IP.Equal(ip), "address")
	if both {
		vsym.Assert(other.IP.Equal(net.IPv4(10, 0, 0, 9)) && other.TTL == 7 && other.Addresses == 0, "other level")
	} else {
		vsym.Assert(other.Blank(), "other level untouched")
	}
	if media {
		vsym.Assert(len(m.Medias) == 2 && m.Medias[1].Connection.Blank(), "other media untouched")
	}
	vsym.Reach("accepted")
}

// vsymDec writes 0..255 in decimal.
func vsymDec(n int) []byte {
	if n >= 100 {
		return []byte{byte('0' + n/100), byte('0' + n/10%10), byte('0' + n%10)}
	}
	if n >= 10 {
		return []byte{byte('0' + n/10), byte('0' + n%10)}
	}
	return []byte{byte('0' + n)}
}

// Connections of a session and of two medias, of all kinds next to each other.
//
// vh:bound at each of the three levels no connection or one of 8 kinds (IPv4 and IPv6, with and without counts, IPv4 in IPv6 form); each count one arbitrary digit
// vh:reach accepted
func VH_C24_Levels() {
	type want struct {
		kind   int
		ttl, n byte
	}
	num := 0
	digit := func() byte {
		num++
		d := vsym.Byte("digit")
		vsym.Assume(d < 10)
		return d
	}
	ips := []string{"", "224.2.1.1", "239.255.1.2", "10.0.0.7", "0.0.0.0", "ff15::101", "::1", "2001:db8::7", "::ffff:1.2.3.4"}
	var ws [3]want
	txt := []byte("v=0\n")
	for i := range ws {
		if i > 0 {
			txt = append(txt, "m=a 1 b c\n"...)
		}
		hi := 8
		if i == 2 && vsym.Tier() == 0 {
			hi = 5
		}
		w := &ws[i]
		w.kind = vsym.Choose("kind", 0, hi)
		if w.kind == 0 {
			continue
		}
		if w.kind < 5 {
			txt = append(txt, "c=IN IP4 "+ips[w.kind]...)
			if w.kind == 1 || w.kind == 2 {
				w.ttl = digit()
				txt = append(txt, '/', '0'+w.ttl)
			}
			if w.kind == 2 {
				w.n = digit()
				txt = append(txt, '/', '0'+w.n)
			}
		} else {
			txt = append(txt, "c=IN IP6 "+ips[w.kind]...)
			if w.kind == 5 || w.kind == 6 {
				w.n = digit()
				txt = append(txt, '/', '0'+w.n)
			}
		}
		txt = append(txt, '\n')
	}
	m, err := vhDecode(txt)
	vsym.Out("dec", err)
	vsym.Assert(err == nil, "accepted")
	vsym.Assert(len(m.Medias) == 2, "two medias")
	for i, w := range ws {
		c := m.Connection
		if i > 0 {
			c = m.Medias[i-1].Connection
		}
		if w.kind == 0 {
			vsym.Assert(c.Blank(), "no connection")
			continue
		}
		vsym.Assert(c.NetworkType == "IN" && (c.AddressType == "IP4") == (w.kind < 5) && (c.AddressType == "IP6") == (w.kind >= 5), "types")
		vsym.Assert(c.IP.Equal(net.ParseIP(ips[w.kind])), "address")
		vsym.Assert(c.TTL == w.ttl, "TTL")
		vsym.Assert(c.Addresses == w.n, "number of addresses")
	}
	vsym.Reach("accepted")
}
