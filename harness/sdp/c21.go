package sdp

import "github.com/NodeBoy2/rtspclient/zzv/vsym"

// Every byte string given to the SDP decoder is either decoded or rejected with an error.
//
// vh:bound text of up to 4 arbitrary bytes (6 in the thorough tier)
// vh:reach ok err
func VH_C21_Text() {
	n := vsym.Choose("n", 0, 4+2*vsym.Tier())
	b := vsym.Bytes("sdp", n)
	s, err := DecodeSession(b, nil)
	vsym.Out("dec", len(s), err)
	if err != nil {
		vsym.Reach("err")
		return
	}
	vsym.Reach("ok")
	m := new(Message)
	d := NewDecoder(s)
	err = d.Decode(m)
	vsym.Out("msg", err)
}

const c21types = "vosiuepcbtrzkam"

// One line of every known type with an arbitrary value, in a session, time or media section.
//
// vh:bound one line of each known type, value of 0..6 arbitrary bytes (0..8 thorough), alone, after a media line or after a timing line
// vh:reach ok err
func VH_C21_Field() {
	t := Type(c21types[vsym.Choose("type", 0, len(c21types)-1)])
	n := vsym.Choose("n", 0, 6+2*vsym.Tier())
	v := vsym.Bytes("value", n)
	var s Session
	switch vsym.Choose("section", 0, 2) {
	case 1:
		s = append(s, Line{TypeMediaDescription, []byte("a 1 b c")})
	case 2:
		s = append(s, Line{TypeTiming, []byte("0 0")})
	}
	s = append(s, Line{t, v})
	m := new(Message)
	d := NewDecoder(s)
	err := d.Decode(m)
	vsym.Out("msg", err)
	if err != nil {
		vsym.Reach("err")
		return
	}
	vsym.Reach("ok")
}

var c21tmpl = []struct{ pre, post string }{
	{"c=IN IP4 ", ""},
	{"c=IN IP6 ", ""},
	{"c=IN IP4 224.1.2.3", ""},
	{"c=IN IP6 FF15::101", ""},
	{"c=IN ", " 1.2.3.4"},
	{"o=- 1 1 IN IP4", ""},
	{"o=", " 1 IN IP4 h"},
	{"t=1 ", ""},
	{"t=0 0\nr=1 ", ""},
	{"t=0 0\nr=1 1 ", ""},
	{"t=0 0\nr=", " 1 1"},
	{"z=1 ", ""},
	{"z=1 1 ", ""},
	{"b=AS", ""},
	{"m=a ", " b c"},
	{"m=a 1", ""},
	{"m=a 1 b c\nc=IN IP4 1.2.3.4", ""},
	{"m=a 1 b c\nc=IN IP6 1::4", ""},
	{"m=a 1 b c\nb=CT:", ""},
	{"m=a 1 b c\nk=", ""},
	{"m=a 1 b c\na=", "\nm=a 1 b c"},
	{"v=0\n", "=0"},
}

// Complete lines with an arbitrary hole at every interesting place.
//
// vh:bound 22 descriptions with a hole of 0..3 arbitrary bytes (0..5 thorough)
// vh:reach ok err
func VH_C21_Hole() {
	t := c21tmpl[vsym.Choose("tmpl", 0, len(c21tmpl)-1)]
	n := vsym.Choose("n", 0, 3+2*vsym.Tier())
	b := append([]byte(t.pre), vsym.Bytes("hole", n)...)
	b = append(b, t.post...)
	s, err := DecodeSession(b, nil)
	vsym.Out("dec", len(s), err)
	if err != nil {
		vsym.Reach("err")
		return
	}
	m := new(Message)
	d := NewDecoder(s)
	err = d.Decode(m)
	vsym.Out("msg", err, len(m.Medias), len(m.Attributes), len(m.Timing))
	if err != nil {
		vsym.Reach("err")
		return
	}
	vsym.Reach("ok")
}

// Line lists built through the API: arbitrary types, nil and empty values, in any order.
//
// vh:bound lists of up to 2 lines (3 thorough), type any 32-bit value, value nil, empty or one of 8 texts
// vh:reach ok err
func VH_C21_Lines() {
	vals := []string{"", "0", "0 0", "1 1 1", "a:1", "IN IP4 1.2.3.4/5/6", "a 1 b c", "- 1 1 IN IP4 h", "AS:1"}
	n := vsym.Choose("n", 0, 2+vsym.Tier())
	var s Session
	for i := 0; i < n; i++ {
		var v []byte
		if k := vsym.Choose("val", -1, len(vals)-1); k >= 0 {
			v = []byte(vals[k])
		}
		s = append(s, Line{Type(vsym.U32("type")), v})
	}
	m := new(Message)
	d := NewDecoder(s)
	err := d.Decode(m)
	vsym.Out("msg", err, len(m.Medias), len(m.Attributes), len(m.Timing))
	if err != nil {
		vsym.Reach("err")
		return
	}
	vsym.Reach("ok")
}

// Long lines: many fields, long values and long addresses, with an arbitrary hole at the end.
//
// vh:bound a line of each of 8 kinds with 3, 31..34, 63..65, 100, 255..257 or 1000 repeated units before a hole of 0..2 arbitrary bytes
// vh:reach ok err
func VH_C21_Long() {
	counts := []int{3, 31, 32, 33, 34, 63, 64, 65, 100, 255, 256, 257, 1000}
	n := counts[vsym.Choose("count", 0, len(counts)-1)]
	pre, unit := "", ""
	switch vsym.Choose("kind", 0, 7) {
	case 0:
		pre, unit = "m=audio 1 RTP/AVP", " 0"
	case 1:
		pre, unit = "t=0 0\nz=", "1 2 "
	case 2:
		pre, unit = "t=0 0\nr=1 1", " 0"
	case 3:
		pre, unit = "a=k:", "v:"
	case 4:
		pre, unit = "b=", "X"
	case 5:
		pre, unit = "o=", "u"
	case 6:
		pre, unit = "v=0\n", "m=a 1 b c\n"
	case 7:
		pre, unit = "c=IN IP4 ", "1"
	}
	b := []byte(pre)
	for i := 0; i < n; i++ {
		b = append(b, unit...)
	}
	b = append(b, vsym.Bytes("hole", vsym.Choose("n", 0, 2))...)
	s, err := DecodeSession(b, nil)
	vsym.Out("dec", len(s), err)
	if err != nil {
		vsym.Reach("err")
		return
	}
	m := new(Message)
	d := NewDecoder(s)
	err = d.Decode(m)
	vsym.Out("msg", err, len(m.Medias), len(m.Attributes), len(m.Timing))
	if err != nil {
		vsym.Reach("err")
		return
	}
	vsym.Reach("ok")
}
