package sdp

import "github.com/NodeBoy2/rtspclient/zzv/vsym"

var c25val = map[Type]string{
	'v': "0", 'o': "- 1 1 IN IP4 h", 's': "-", 'i': "x", 'u': "x", 'e': "x", 'p': "x",
	'c': "IN IP4 1.2.3.4", 'b': "AS:1", 't': "0 0", 'r': "1 1 0", 'z': "0 0", 'k': "p", 'a': "x", 'm': "a 1 b c",
}

var c25prefix = []string{"", "vos", "vost", "vostr", "vosta", "vosm", "vostma", "vosiuepcb", "voszt", "vostm"}

// What may never be accepted: an unknown type, a session or time line after the
// first media line, a repeat line before any timing, a version that is not first,
// an origin after anything but a version.
func c25mustReject(ts []Type) bool {
	media, timing := false, false
	n := 0 // lines other than bandwidths and attributes
	for _, t := range ts {
		switch t {
		case 'v':
			if n > 0 {
				return true
			}
		case 'o':
			if n > 1 {
				return true
			}
		case 's':
			if n > 2 {
				return true
			}
		case 'r':
			if !timing {
				return true
			}
		case 't':
			timing = true
		case 'm':
			media = true
		case 'i', 'u', 'e', 'p', 'c', 'b', 'z', 'k', 'a':
		default:
			return true
		}
		if media {
			switch t {
			case 'v', 'o', 's', 'u', 'e', 'p', 't', 'r', 'z':
				return true
			}
		}
		if t != 'b' && t != 'a' {
			n++
		}
	}
	return false
}

func c25session(ts []Type) Session {
	var s Session
	for _, t := range ts {
		v := c25val[t]
		if v == "" {
			v = "0"
		}
		s = append(s, Line{t, []byte(v)})
	}
	return s
}

// Wrong orders are rejected.
//
// vh:bound every sequence of up to 3 line types (4 thorough; any 32-bit type values) after each of 10 beginnings
// vh:reach rejected accepted
func VH_C25_Reject() {
	var ts []Type
	for _, r := range c25prefix[vsym.Choose("prefix", 0, len(c25prefix)-1)] {
		ts = append(ts, Type(r))
	}
	n := vsym.Choose("n", 0, 3+vsym.Tier())
	for i := 0; i < n; i++ {
		t := Type(vsym.U32("type"))
		for _, k := range "vosiuepcbtrzkam" {
			if t == Type(k) {
				t = Type(k)
				break
			}
		}
		ts = append(ts, t)
	}
	bad := c25mustReject(ts)
	m := new(Message)
	d := NewDecoder(c25session(ts))
	err := d.Decode(m)
	if bad {
		vsym.Assert(err != nil, "wrong order is rejected")
		vsym.Reach("rejected")
	} else if err == nil {
		nm := 0
		for _, t := range ts {
			if t == 'm' {
				nm++
			}
		}
		vsym.Assert(len(m.Medias) == nm, "one media per media line")
		vsym.Reach("accepted")
	}
}

// Every description in the order of RFC 4566 is accepted.
//
// vh:bound every presence combination of the optional lines: i u e p c, 0..2 bandwidths, 1..3 timings with 0..1 repeat line, z, k, 0..2 attributes, 0..2 media with i c k and 0..2 bandwidths and attributes (one of them with every combination)
// vh:reach accepted
func VH_C25_Accept() {
	var ts []Type
	add := func(s string) {
		for _, r := range s {
			ts = append(ts, Type(r))
		}
	}
	opt := func(s string) {
		if vsym.Bool("has_" + s) {
			add(s)
		}
	}
	rep := func(s string, min, max int) {
		for n := vsym.Choose("n"+s, min, max); n > 0; n-- {
			add(s)
		}
	}
	add("vos")
	nm := vsym.Choose("media", 0, 2)
	focus := vsym.Choose("focus", 0, nm)
	nt := 1
	if focus == 0 {
		for _, s := range []string{"i", "u", "e", "p", "c"} {
			opt(s)
		}
		rep("b", 0, 2)
		nt = vsym.Choose("timings", 1, 3)
		for i := 0; i < nt; i++ {
			add("t")
			opt("r")
		}
		opt("z")
		opt("k")
		rep("a", 0, 2)
	} else {
		opt("c")
		add("t")
		opt("a")
	}
	for i := 1; i <= nm; i++ {
		add("m")
		if i == focus {
			opt("i")
			opt("c")
			rep("b", 0, 2)
			opt("k")
			rep("a", 0, 2)
		} else {
			opt("a")
		}
	}
	m := new(Message)
	d := NewDecoder(c25session(ts))
	vsym.Assert(d.Decode(m) == nil, "correct order is accepted")
	vsym.Assert(len(m.Medias) == nm, "one media per media line")
	vsym.Assert(len(m.Timing) == nt, "one timing per timing line")
	vsym.Reach("accepted")
}

// Many lines of a kind, and misplaced ones behind many.
//
// vh:bound a description with 3..130 (8 numbers) timings (with or without repeats), bandwidths, attributes (of the session or of a media) or medias (bare or with all their lines): accepted; with any of 16 line types (one of them any) put in after it, or between the last two lines of the session: rejected if never allowed there
// vh:reach accepted rejected
// vh:opt steps=40000000
func VH_C25_Many() {
	n := []int{3, 4, 8, 9, 17, 33, 65, 130}[vsym.Choose("n", 0, 7)]
	head, mid, tail := "vosc", "", ""
	rep := func(s string, n int) string {
		r := ""
		for i := 0; i < n; i++ {
			r += s
		}
		return r
	}
	nt, nm := 1, 0
	switch vsym.Choose("what", 0, 7) {
	case 0:
		mid, nt = rep("t", n), n
	case 1:
		mid, nt = rep("tr", n), n
	case 2:
		mid = rep("b", n) + "t"
	case 3:
		mid = "tzk" + rep("a", n)
	case 4:
		mid, tail, nm = "t", "m"+rep("a", n), 1
	case 5:
		mid, tail, nm = "t", rep("m", n), n
	case 6:
		mid, tail, nm = "t", rep("micbbkaa", n), n
	case 7:
		mid, tail, nm = "tr", "mic"+rep("b", n)+"m", 2
	}
	var ts []Type
	for _, r := range head + mid + tail {
		ts = append(ts, Type(r))
	}
	if k := vsym.Choose("extra", -1, 15); k >= 0 {
		t := Type(vsym.U32("type"))
		if k < 15 {
			t = Type("vosiuepcbtrzkam"[k])
		} else {
			for _, r := range "vosiuepcbtrzkam" {
				vsym.Assume(t != Type(r))
			}
		}
		if at := len(head) + len(mid); vsym.Choose("at", 0, 1) == 1 {
			ts = append(ts[:at:at], append([]Type{t}, ts[at:]...)...)
		} else {
			ts = append(ts, t)
		}
		if !c25mustReject(ts) {
			return
		}
		d := NewDecoder(c25session(ts))
		vsym.Assert(d.Decode(new(Message)) != nil, "wrong order is rejected")
		vsym.Reach("rejected")
		return
	}
	m := new(Message)
	d := NewDecoder(c25session(ts))
	vsym.Assert(d.Decode(m) == nil, "correct order is accepted")
	vsym.Assert(len(m.Medias) == nm, "one media per media line")
	vsym.Assert(len(m.Timing) == nt, "one timing per timing line")
	vsym.Reach("accepted")
}
