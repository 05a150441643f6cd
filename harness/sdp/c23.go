package sdp

import (
	"net"
	"time"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

func c23attrs(a, b Attributes) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w := b[k]
		if len(v) != len(w) {
			return false
		}
		for i := range v {
			if v[i] != w[i] {
				return false
			}
		}
	}
	return true
}

func c23bw(a, b map[BandwidthType]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// c23same compares messages field by field and says what differs.
func c23same(a, b *Message) {
	vsym.Assert(a.Version == b.Version, "version")
	vsym.Assert(a.Origin == b.Origin, "origin")
	vsym.Assert(a.Name == b.Name, "name")
	vsym.Assert(a.Info == b.Info, "info")
	vsym.Assert(a.URI == b.URI, "uri")
	vsym.Assert(a.Email == b.Email, "email")
	vsym.Assert(a.Phone == b.Phone, "phone")
	vsym.Assert(a.Connection.Equal(b.Connection), "connection")
	vsym.Assert(c23attrs(a.Attributes, b.Attributes), "attributes")
	vsym.Assert(a.Encryption == b.Encryption, "encryption")
	vsym.Assert(c23bw(a.Bandwidths, b.Bandwidths), "bandwidths")
	vsym.Assert(len(a.Timing) == len(b.Timing), "number of timings")
	for i, t := range a.Timing {
		u := b.Timing[i]
		vsym.Assert(t.Start.Equal(u.Start) && t.End.Equal(u.End), "timing")
		vsym.Assert(t.Repeat == u.Repeat && t.Active == u.Active, "repeat")
		vsym.Assert(len(t.Offsets) == len(u.Offsets), "number of offsets")
		for j := range t.Offsets {
			vsym.Assert(t.Offsets[j] == u.Offsets[j], "offset")
		}
	}
	vsym.Assert(len(a.TZAdjustments) == len(b.TZAdjustments), "number of zones")
	for i, z := range a.TZAdjustments {
		y := b.TZAdjustments[i]
		vsym.Assert(z.Start.Equal(y.Start) && z.Offset == y.Offset, "zone")
	}
	vsym.Assert(len(a.Medias) == len(b.Medias), "number of medias")
	for i, m := range a.Medias {
		n := b.Medias[i]
		vsym.Assert(m.Title == n.Title, "title")
		vsym.Assert(m.Description == n.Description, "description")
		vsym.Assert(m.Connection.Equal(n.Connection), "media connection")
		vsym.Assert(c23attrs(m.Attributes, n.Attributes), "media attributes")
		vsym.Assert(m.Encryption == n.Encryption, "media encryption")
		vsym.Assert(c23bw(m.Bandwidths, n.Bandwidths), "media bandwidths")
	}
}

func c23check(m *Message) {
	s := m.Append(nil)
	r := new(Message)
	d := NewDecoder(s)
	vsym.Assert(d.Decode(r) == nil, "encoded message is decodable")
	c23same(m, r)
	r, err := vhDecode(s.AppendTo(nil))
	vsym.Assert(err == nil, "encoded text is decodable")
	c23same(m, r)
	vsym.Reach("same")
}

func c23base() *Message {
	return &Message{
		Origin: Origin{Username: "-", SessionID: 1, SessionVersion: 2, NetworkType: "IN", AddressType: "IP4", Address: "10.0.0.1"},
		Name:   "-",
		Timing: []Timing{{}},
	}
}

func c23text(name string) string { return string(vhTok(name, vsym.Choose("len", 1, 2), "")) }

func c23num(name string) int {
	v := vsym.U16(name) & 0x3fff
	vsym.Assume(v <= 999 || vsym.Tier() == 1)
	return int(v)
}

func c23conn(name string) ConnectionData {
	b := vsym.Byte(name)
	switch vsym.Choose(name+"_kind", 0, 3) {
	case 0:
		return ConnectionData{NetworkType: "IN", AddressType: "IP4", IP: net.IPv4(10, b, 0, 1)}
	case 1:
		ttl := vsym.Byte("ttl")
		return ConnectionData{NetworkType: "IN", AddressType: "IP4", IP: net.IPv4(224, 2, 1, b), TTL: ttl}
	case 2:
		ttl := vsym.Byte("ttl")
		vsym.Assume(ttl > 0) // the text form has no address count without TTL
		return ConnectionData{NetworkType: "IN", AddressType: "IP4", IP: net.IPv4(224, 2, 1, 1), TTL: ttl, Addresses: b}
	}
	ip := net.ParseIP("ff15::101")
	ip[13] = vsym.Byte("v6")
	return ConnectionData{NetworkType: "IN", AddressType: "IP6", IP: ip, Addresses: b}
}

// Session level fields.
//
// vh:bound every presence combination of info, URI, e-mail, phone, connection, bandwidths, key; each value in turn arbitrary (texts of 1..2 graphic characters, numbers of up to 3 digits (5 thorough), all address bytes)
// vh:reach same
func VH_C23_Session() {
	m := c23base()
	f := vsym.Choose("focus", 0, 9)
	txt := func(k int, s string) string {
		if f == k {
			return c23text("text")
		}
		return s
	}
	if f == 0 {
		m.Version = c23num("version")
		m.Origin.SessionID = c23num("id")
	}
	if f == 1 {
		m.Origin = Origin{vhTok("user", 1, ""), 7, c23num("sessver"), vhTok("net", 2, ""), vhTok("type", 1, ""), vhTok("addr", 2, "")}
	}
	m.Name = txt(2, m.Name)
	if vsym.Bool("info") {
		m.Info = txt(3, "some info")
	}
	if vsym.Bool("uri") {
		m.URI = txt(4, "http://a/b?c=d")
	}
	if vsym.Bool("email") {
		m.Email = txt(5, "a@b (A B)")
	}
	if vsym.Bool("phone") {
		m.Phone = txt(6, "+1 2 3")
	}
	if vsym.Bool("conn") {
		m.Connection = ConnectionData{NetworkType: "IN", AddressType: "IP4", IP: net.IPv4(10, 1, 0, 1)}
		if f == 7 {
			m.Connection = c23conn("conn_byte")
		}
	}
	if vsym.Bool("bandwidth") {
		m.Bandwidths = map[BandwidthType]int{BandwidthApplicationSpecific: 5}
		if f == 8 {
			m.Bandwidths[BandwidthConferenceTotal] = c23num("bw")
		}
	}
	if vsym.Bool("key") {
		m.Encryption = Encryption{Method: "clear", Key: "a b:c"}
		if f == 9 {
			m.Encryption = Encryption{Method: vhTok("method", 1, ":"), Key: vhTok("key", vsym.Choose("keylen", 0, 2), "")}
		}
	}
	c23check(m)
}

func c23dur(name string) time.Duration {
	u := []time.Duration{time.Second, time.Minute, time.Hour, 24 * time.Hour}[vsym.Choose(name+"_unit", 0, 3)]
	v := vsym.Byte(name)
	vsym.Assume(v <= 99 || vsym.Tier() == 1)
	return time.Duration(v) * u
}

// Timings, repeats and zones.
//
// vh:bound 1..2 timings (3 thorough) with 0..2 repeat offsets each and 0..2 zones; times any of the first 1000 seconds or fixed, durations 0..99 seconds, minutes, hours or days, one arbitrary at a time
// vh:reach same
func VH_C23_Timing() {
	m := c23base()
	m.Timing = nil
	n := vsym.Choose("timings", 1, 2+vsym.Tier())
	nz := vsym.Choose("zones", 0, 2)
	f := vsym.Choose("focus", 0, n+nz-1)
	for i := 0; i < n; i++ {
		t := Timing{Start: NTPToTime(2873397496), End: NTPToTime(uint64(2873404696 + i))}
		no := 2 - 2*((i+n)%2)
		if i == f {
			no = vsym.Choose("offsets", 0, 2)
		}
		t.Offsets = []time.Duration{0, 25 * time.Hour}[:no]
		if no > 0 {
			t.Repeat, t.Active = 7*24*time.Hour, 90*time.Second
		}
		if i == f {
			switch w := vsym.Choose("what", 0, 4); {
			case w == 0:
				t.Start = NTPToTime(uint64(c23num("start")))
			case w == 1:
				t.End = NTPToTime(uint64(c23num("end")))
			case no > 0 && w == 2:
				t.Repeat = c23dur("repeat")
			case no > 0 && w == 3:
				t.Active = c23dur("active")
			case no > 0 && w == 4:
				t.Offsets[no-1] = c23dur("offset")
			default:
				t.Start = time.Time{}
			}
		}
		m.Timing = append(m.Timing, t)
	}
	for i := 0; i < nz; i++ {
		z := TimeZone{NTPToTime(uint64(2882844526 + i)), -time.Hour}
		if n+i == f {
			z.Offset = c23dur("zone")
			if vsym.Bool("neg") {
				z.Offset = -z.Offset
			}
		}
		m.TZAdjustments = append(m.TZAdjustments, z)
	}
	if vsym.Bool("key") {
		m.Encryption.Method = "prompt"
	}
	if vsym.Bool("attr") {
		m.AddFlag("recvonly")
	}
	c23check(m)
}

// Attributes.
//
// vh:bound 0..3 attributes at session and media level, keys of 1..2 and values of 0..2 graphic characters or spaces inside, keys may coincide
// vh:reach same
func VH_C23_Attributes() {
	m := c23base()
	var md Media
	md.Description = MediaDescription{Type: "video", Port: 1, Protocol: "RTP/AVP", Format: "96"}
	media := vsym.Bool("media")
	n := vsym.Choose("n", 0, 3)
	for i := 0; i < n; i++ {
		k := vhTok("key", 1+i%2, ":")
		v := vhTok("value", vsym.Choose("len", 0, 2), "")
		if media {
			md.AddAttribute(k, v)
		} else {
			m.AddAttribute(k, v)
		}
	}
	if media {
		m.Medias = append(m.Medias, md)
	}
	c23check(m)
}

// Medias.
//
// vh:bound 0..3 medias; in one of them every presence combination of title, connection, bandwidth, key, attributes with one arbitrary value
// vh:reach same
func VH_C23_Media() {
	m := c23base()
	n := vsym.Choose("medias", 0, 3)
	fm := vsym.Choose("which", 0, n)
	if vsym.Bool("sconn") {
		m.Connection = ConnectionData{NetworkType: "IN", AddressType: "IP4", IP: net.IPv4(10, 1, 0, 1), TTL: 5}
	}
	for i := 0; i < n; i++ {
		md := Media{Description: MediaDescription{Type: "video", Port: 49170 + i, Protocol: "RTP/AVP", Format: "96"}}
		if i != fm {
			if i == 1 {
				md.Title = "t"
				md.Connection = ConnectionData{NetworkType: "IN", AddressType: "IP4", IP: net.IPv4(224, 1, 0, 1), TTL: 9}
				md.AddAttribute("x", "y")
			}
			m.Medias = append(m.Medias, md)
			continue
		}
		f := vsym.Choose("focus", 0, 6)
		if f == 0 {
			md.Description = MediaDescription{vhTok("type", 1, ""), c23num("port"), 0, vhTok("proto", 1, ""), vhTok("fmt", 1, "") + " " + vhTok("fmt", 1, "")}
		}
		if f == 1 {
			md.Description.PortsNumber = c23num("ports")
		}
		if vsym.Bool("title") {
			md.Title = "a title"
			if f == 2 {
				md.Title = c23text("title")
			}
		}
		if vsym.Bool("conn") {
			md.Connection = ConnectionData{NetworkType: "IN", AddressType: "IP4", IP: net.IPv4(10, 1, 0, 2)}
			if f == 3 {
				md.Connection = c23conn("conn_byte")
			}
		}
		if vsym.Bool("bandwidth") {
			md.Bandwidths = Bandwidths{BandwidthConferenceTotal: 7}
			if f == 4 {
				md.Bandwidths[BandwidthApplicationSpecific] = c23num("bw")
			}
		}
		if vsym.Bool("key") {
			md.Encryption = Encryption{Method: "prompt"}
			if f == 5 {
				md.Encryption = Encryption{Method: vhTok("method", 1, ":"), Key: vhTok("key", 1, "")}
			}
		}
		if vsym.Bool("attr") {
			md.AddAttribute("rtpmap", "99 h263-1998/90000")
			if f == 6 {
				md.AddAttribute(vhTok("akey", 1, ":"), vhTok("aval", 1, ""))
			}
		}
		m.Medias = append(m.Medias, md)
	}
	c23check(m)
}

// Many of everything, long texts.
//
// vh:bound 4..100 (8 numbers) medias, timings, repeat offsets, zones, attributes (of one or of many names, of the session or of a media); or one of 12 texts of 16..4000 characters (8 lengths); each with one or two arbitrary characters
// vh:reach same
// vh:opt steps=40000000
func VH_C23_Many() {
	m := c23base()
	k := vsym.Choose("n", 0, 7)
	n := []int{4, 5, 8, 9, 16, 17, 33, 100}[k]
	v := vhTok("some", 1, ":")
	num := func(i int) string {
		s := ""
		for {
			s = string(rune('0'+i%10)) + s
			i /= 10
			if i == 0 {
				return s
			}
		}
	}
	md := Media{Description: MediaDescription{Type: "video", Port: 49170, Protocol: "RTP/AVP", Format: "96"}}
	switch vsym.Choose("what", 0, 9) {
	case 0:
		for i := 0; i < n; i++ {
			x := md
			x.Title = v + num(i)
			x.Description.Port = 65535 - i
			x.Description.PortsNumber = i
			x.Description.Format = num(i) + " " + v
			if i%3 == 1 {
				x.Connection = ConnectionData{NetworkType: "IN", AddressType: "IP4", IP: net.IPv4(10, 1, 0, byte(i))}
			}
			if i%2 == 1 {
				x.Bandwidths = Bandwidths{BandwidthConferenceTotal: i}
				x.Encryption = Encryption{Method: "clear", Key: v + num(i)}
			}
			x.AddAttribute("i"+num(i), v+num(i))
			m.Medias = append(m.Medias, x)
		}
	case 1:
		m.Timing = nil
		for i := 0; i < n; i++ {
			t := Timing{Start: NTPToTime(uint64(2873397496 + 1000*i)), End: NTPToTime(uint64(2873397497 + 2000*i))}
			if i%3 == 0 {
				t.Repeat, t.Active, t.Offsets = time.Duration(i+1)*time.Hour, time.Duration(i+1)*time.Second, []time.Duration{0, time.Duration(i) * time.Minute}
			}
			m.Timing = append(m.Timing, t)
		}
	case 2:
		m.Timing[0].Repeat, m.Timing[0].Active = 7*24*time.Hour, time.Hour
		for i := 0; i < n; i++ {
			m.Timing[0].Offsets = append(m.Timing[0].Offsets, time.Duration(i*i*i)*time.Minute)
		}
	case 3:
		for i := 0; i < n; i++ {
			m.TZAdjustments = append(m.TZAdjustments, TimeZone{NTPToTime(uint64(2882844526 + i*100000)), time.Duration(i*317-900) * time.Second})
		}
	case 4:
		for i := 0; i < n; i++ {
			m.AddAttribute("same", v+num(i))
		}
	case 5:
		for i := 0; i < n; i++ {
			m.AddAttribute("k"+num(i), v+num(i)+" "+num(i))
			m.AddFlag("f" + num(i))
		}
	case 6, 7:
		for i := 0; i < n; i++ {
			md.AddAttribute("rtpmap", num(i)+" "+v)
			md.AddAttribute(v+num(i), "x:y")
			md.AddFlag("g" + num(i))
		}
		m.Medias = append(m.Medias, Media{Description: md.Description}, md, Media{Description: md.Description})
	default:
		x := make([]byte, []int{16, 17, 64, 127, 256, 257, 1024, 4000}[k])
		for i := range x {
			x[i] = "abc:=/; d"[i%9]
		}
		x[0] = v[0]
		x[len(x)-1] = vhTok("some", 1, "")[0]
		s := string(x)
		w := "x"
		for len(w) < len(s) {
			w += "yz"
		}
		w += v
		switch vsym.Choose("text", 0, 11) {
		case 0:
			m.Name = s
		case 1:
			m.Info = s
		case 2:
			m.URI = s
		case 3:
			m.Email = s
		case 4:
			m.Phone = s
		case 5:
			m.Encryption = Encryption{Method: w, Key: s}
		case 6:
			m.AddAttribute(w, s)
		case 7:
			m.Origin.Username = w
		case 8:
			m.Origin.Address = w
		case 9:
			md.Title = s
			md.Encryption = Encryption{Method: w, Key: s}
			m.Medias = append(m.Medias, md)
		case 10:
			md.AddAttribute(w, s)
			md.AddFlag(w)
			m.Medias = append(m.Medias, md)
		case 11:
			md.Description.Format = w + " " + w
			md.Description.Protocol = w
			m.Medias = append(m.Medias, md)
		}
	}
	c23check(m)
}
