package sdp

import (
	"time"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

type c32pair struct{ k, v string }

// c32check compares all ways of asking for the key with what was added.
func c32check(m *Message, d *Media, q string, all []c32pair) {
	var want []string
	for _, p := range all {
		if p.k == q {
			want = append(want, p.v)
		}
	}
	first := ""
	if len(want) > 0 {
		first = want[0]
		vsym.Reach("found")
	} else {
		vsym.Reach("absent")
	}
	var a Attributes
	if m != nil {
		a = m.Attributes
		vsym.Assert(m.Attribute(q) == first, "first value of the message")
		vsym.Assert(m.Flag(q) == (len(want) > 0), "flag of the message")
	} else {
		a = d.Attributes
		vsym.Assert(d.Attribute(q) == first, "first value of the media")
		vsym.Assert(d.Flag(q) == (len(want) > 0), "flag of the media")
	}
	vsym.Assert(a.Value(q) == first, "first value")
	vsym.Assert(a.Flag(q) == (len(want) > 0), "flag")
	vs := a.Values(q)
	vsym.Assert(len(vs) == len(want), "number of values")
	for i := range want {
		vsym.Assert(vs[i] == want[i], "value")
	}
}

// Attributes and flags added in any order, asked for at any time.
//
// vh:bound 0..4 calls of AddAttribute and AddFlag on a message or a media (there with 0..2 values), names of 1 arbitrary character each (the last 2), or all of 3..8, values of 0..2 arbitrary characters; any name of 1..2 characters asked for after each; the same again after encoding and decoding
// vh:reach found absent
// vh:opt paths=2000000
func VH_C32_Attributes() {
	var m *Message
	d := &Media{Description: MediaDescription{Type: "video", Port: 1, Protocol: "RTP/AVP", Format: "96"}}
	if vsym.Choose("media", 0, 1) == 0 {
		m = c32base()
	}
	n := vsym.Choose("n", 0, 4)
	length := vsym.Choose("namelen", 2, 8)
	q := vhTok("asked", length, ":")
	if length == 2 {
		q = vhTok("asked_short", vsym.Choose("askedlen", 1, 2), ":")
	} else {
		n = (length + 1) / 3
	}
	var all []c32pair
	for i := 0; i < n; i++ {
		k := ""
		if length == 2 {
			k = vhTok("name_short", 1+i/3, ":")
		} else {
			k = vhTok("name", length, ":")
		}
		v := ""
		switch op := vsym.Choose("op", 0, 2); {
		case op == 0 && m != nil:
			m.AddFlag(k)
		case op == 0:
			d.AddFlag(k)
		case m != nil:
			v = vhTok("value", op, "")
			m.AddAttribute(k, v)
		case op == 1:
			v = vhTok("value", 1, "")
			d.AddAttribute(k, v)
		default:
			v = vhTok("value", 1, "") + " " + vhTok("value", 1, "")
			d.AddAttribute(k, v[:1], v[2:])
		}
		all = append(all, c32pair{k, v})
		if i == n-1 {
			c32check(m, d, q, all)
		}
	}
	if n == 0 {
		c32check(m, d, q, nil)
	}
	// written and read back
	e := m
	if m == nil {
		e = c32base()
		e.Medias = Medias{*d}
	}
	r := new(Message)
	dec := NewDecoder(e.Append(nil))
	vsym.Assert(dec.Decode(r) == nil, "encoded message refused")
	if m != nil {
		c32check(r, nil, q, all)
	} else {
		vsym.Assert(len(r.Medias) == 1, "media lost")
		vsym.Assert(!r.Flag(q) && r.Attribute(q) == "", "attribute of the media found in the session")
		c32check(nil, &r.Medias[0], q, all)
	}
}

func c32base() *Message {
	return &Message{
		Origin: Origin{Username: "-", SessionID: 1, SessionVersion: 2, NetworkType: "IN", AddressType: "IP4", Address: "10.0.0.1"},
		Name:   "-",
		Timing: []Timing{{}},
	}
}

// Attributes of several medias do not mix.
//
// vh:bound 0..3 medias and the session, in any two of which the same or different names of 1..8 arbitrary characters are set, one before and one after the other sections are built; read back from text
// vh:reach found absent
func VH_C32_Sections() {
	m := c32base()
	n := vsym.Choose("medias", 0, 3)
	for i := 0; i < n; i++ {
		m.Medias = append(m.Medias, Media{Description: MediaDescription{Type: "video", Port: i, Protocol: "RTP/AVP", Format: "96"}})
	}
	all := make([][]c32pair, n+1)
	length := vsym.Choose("namelen", 1, 8)
	for i := 0; i < 2; i++ {
		where := vsym.Choose("where", 0, n)
		k, v := vhTok("name", length, ":"), vhTok("value", 1, "")
		if where == n {
			m.AddAttribute(k, v)
		} else {
			m.Medias[where].AddAttribute(k, v)
		}
		all[where] = append(all[where], c32pair{k, v})
	}
	q := vhTok("asked", length, ":")
	for round := 0; round < 2; round++ {
		vsym.Assert(len(m.Medias) == n, "number of medias")
		c32check(m, nil, q, all[n])
		for i := 0; i < n; i++ {
			c32check(nil, &m.Medias[i], q, all[i])
		}
		r, err := vhDecode(m.Append(nil).AppendTo(nil))
		vsym.Assert(err == nil, "encoded message refused")
		m = r
	}
}

// Start and end are those of the first timing.
//
// vh:bound 0..3 timings with arbitrary or no start and end, whole seconds from 1970 to 2106
// vh:reach none some
func VH_C32_Times() {
	m := c32base()
	m.Timing = nil
	n := vsym.Choose("timings", 0, 3)
	var start, end time.Time
	for i := 0; i < n; i++ {
		var t Timing
		if vsym.Choose("start_set", 0, 1) == 1 {
			t.Start = time.Unix(int64(vsym.U32("start")), 0)
		}
		if vsym.Choose("end_set", 0, 1) == 1 {
			t.End = time.Unix(int64(vsym.U32("end")), 0)
		}
		if i == 0 {
			start, end = t.Start, t.End
		}
		m.Timing = append(m.Timing, t)
	}
	vsym.Assert(m.Start().Equal(start), "start")
	vsym.Assert(m.End().Equal(end), "end")
	if n == 0 {
		vsym.Assert(m.Start().IsZero() && m.End().IsZero(), "time without a timing")
		vsym.Reach("none")
	} else {
		vsym.Reach("some")
	}
}

// Many attributes.
//
// vh:bound 10, 100 or 300 attributes with 1, 7 or 100 different names, one value arbitrary, asked for before and after encoding and decoding
// vh:reach found absent
// vh:opt steps=400000000
func VH_C32_Many() {
	m := c32base()
	n := []int{10, 100, 300}[vsym.Choose("n", 0, 2)]
	names := []int{1, 7, 100}[vsym.Choose("names", 0, 2)]
	b := vhTok("some", 1, "")
	var all []c32pair
	for i := 0; i < n; i++ {
		p := c32pair{"n" + c31dec(i%names), "v" + c31dec(i)}
		if i%3 == 0 {
			p.v += ":" + b
		}
		if i%5 == 4 {
			p.v = ""
			m.AddFlag(p.k)
		} else {
			m.AddAttribute(p.k, p.v)
		}
		all = append(all, p)
	}
	for round := 0; round < 2; round++ {
		for i := 0; i < names && i < 20; i++ {
			c32check(m, nil, "n"+c31dec(i), all)
		}
		c32check(m, nil, "n"+c31dec(names), all)
		c32check(m, nil, "n", all)
		r, err := vhDecode(m.Append(nil).AppendTo(nil))
		vsym.Assert(err == nil, "encoded message refused")
		m = r
	}
}
