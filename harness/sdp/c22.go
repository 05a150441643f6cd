package sdp

import "github.com/NodeBoy2/rtspclient/zzv/vsym"

// c22list returns n lines; line wild has any type character and arbitrary value bytes.
func c22list(n, wild, max int) Session {
	var s Session
	for i := 0; i < n; i++ {
		l := vsym.Choose("len", 1, max)
		if i == wild {
			t := vsym.U32("type")
			vsym.Assume(t > ' ' && t != '=' && t <= 0x10ffff && !(t >= 0xd800 && t < 0xe000))
			// white space runes
			vsym.Assume(t != 0x85 && t != 0xa0 && t != 0x1680 && !(t >= 0x2000 && t <= 0x200a))
			vsym.Assume(t != 0x2028 && t != 0x2029 && t != 0x202f && t != 0x205f && t != 0x3000)
			s = append(s, Line{Type(t), vhText("value", l)})
			continue
		}
		t := vsym.Byte("btype")
		vsym.Assume(t > ' ' && t < 0x7f && t != '=')
		s = append(s, Line{Type(t), []byte(vhTok("value", l, ""))})
	}
	return s
}

func c22same(a, b Session) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Type != b[i].Type || string(a[i].Value) != string(b[i].Value) {
			return false
		}
	}
	return true
}

// AppendTo followed by DecodeSession gives the lines back.
//
// vh:bound up to 2 lines (3 thorough), values of 1..2 bytes (3 thorough), of which one line has any Unicode type character and arbitrary bytes, prefix 0..1 bytes, result compared after overwriting the input buffer
// vh:reach read
func VH_C22_AppendTo() {
	n := vsym.Choose("n", 0, 2+vsym.Tier())
	s := c22list(n, vsym.Choose("wild", 0, n), 2+vsym.Tier())
	var pre []byte
	if vsym.Choose("pre", 0, 1) == 1 {
		pre = []byte("\n")
	}
	b := s.AppendTo(pre)
	r, err := DecodeSession(b, nil)
	vsym.Assert(err == nil, "written lines are readable")
	for i := range b {
		b[i] = 'X'
	}
	vsym.Assert(c22same(s, r), "lines are read back unchanged")
	vsym.Assert(s.Equal(r), "Equal")
	vsym.Reach("read")
}

var c22sep = []string{"\n", "\r\n", "\n\n", "\r\n\r\n", "\n \t", " \n", "\n\v\n"}

// Any line separators, with and without a reused line list.
//
// vh:bound 1..2 lines (3 thorough), values of 1..2 arbitrary bytes, 7 line separators per gap, 4 beginnings and ends, optionally reading into the memory of an earlier list of up to 3 lines
// vh:reach read
func VH_C22_Separators() {
	n := vsym.Choose("n", 1, 2+vsym.Tier())
	var s Session
	for i := 0; i < n; i++ {
		t := vsym.Byte("type")
		vsym.Assume(t > ' ' && t < 0x7f && t != '=')
		v := vsym.Bytes("value", vsym.Choose("len", 1, 2))
		for _, c := range v {
			vsym.Assume(c > ' ' && c < 0x7f)
		}
		s = append(s, Line{Type(t), v})
	}
	b := []byte([]string{"", "\n", " ", "\r\n"}[vsym.Choose("begin", 0, 3)])
	for i, l := range s {
		if i > 0 {
			b = append(b, c22sep[vsym.Choose("sep", 0, len(c22sep)-1)]...)
		}
		b = append(b, byte(l.Type), '=')
		b = append(b, l.Value...)
	}
	b = append(b, []string{"", "\n", " ", "\r\n"}[vsym.Choose("end", 0, 3)]...)
	var old Session
	switch k := vsym.Choose("reuse", 0, 4); {
	case k > 0:
		text := "v=0123456789\no=abcdefghij\ns=k"
		if k == 4 {
			text += "\nt=1\nx=y\nz=z"
		}
		o, err := DecodeSession([]byte(text), nil)
		vsym.Assert(err == nil, "earlier list")
		if k < 3 {
			o = o[:k]
		}
		old = o[:0]
	}
	r, err := DecodeSession(b, old)
	vsym.Assert(err == nil, "lines are readable")
	for i := range b {
		b[i] = 'X'
	}
	vsym.Assert(c22same(s, r), "lines are read back unchanged")
	vsym.Reach("read")
}

// Lines added through the API survive text, appended to lines already read.
//
// vh:bound 1..3 lines (AddLine, AddRaw or AddAttribute with values of 0..2 arbitrary bytes), on a fresh, reused or extended list
// vh:reach read
func VH_C22_Add() {
	var s Session
	var want Session
	switch vsym.Choose("base", 0, 2) {
	case 1:
		o, _ := DecodeSession([]byte("v=0123456789\no=abcdefghij\ns=k\nt=12345"), nil)
		s = o[:0]
	case 2:
		o, _ := DecodeSession([]byte("v=0123456789\no=abcdefghij\ns=k\nt=12345"), nil)
		s = o[:2]
		want = Session{{'v', []byte("0123456789")}, {'o', []byte("abcdefghij")}}
	}
	n := vsym.Choose("n", 1, 3)
	for i := 0; i < n; i++ {
		switch vsym.Choose("how", 0, 2) {
		case 0:
			v := vhTok("v", vsym.Choose("len", 1, 2), "")
			s = s.AddLine(TypeEmail, v)
			want = append(want, Line{TypeEmail, []byte(v)})
		case 1:
			v := vhTok("v", 1, "")
			s = s.AddRaw('x', v)
			want = append(want, Line{'x', []byte(v)})
		case 2:
			k := vhTok("k", 1, ":")
			switch vsym.Choose("vals", 0, 2) {
			case 0:
				s = s.AddAttribute(k)
				want = append(want, Line{TypeAttribute, []byte(k)})
			case 1:
				v := vhTok("v", 1, "")
				s = s.AddAttribute(k, v)
				want = append(want, Line{TypeAttribute, []byte(k + ":" + v)})
			case 2:
				v := vhTok("v", 1, "")
				s = s.AddAttribute(k, v, "w")
				want = append(want, Line{TypeAttribute, []byte(k + ":" + v + " w")})
			}
		}
	}
	vsym.Assert(c22same(s, want), "lines as added")
	r, err := DecodeSession(s.AppendTo(nil), nil)
	vsym.Assert(err == nil, "written lines are readable")
	vsym.Assert(c22same(r, want), "lines are read back unchanged")
	vsym.Reach("read")
}

// Many lines and long ones.
//
// vh:bound 4..1000 lines (10 numbers), or a line of 16..70000 characters (10 lengths) between others; first and last character of values arbitrary; LF, CRLF or blank lines in between; fresh, or reading into the memory of a longer or shorter earlier list
// vh:reach read
// vh:opt steps=40000000
func VH_C22_Many() {
	k := vsym.Choose("n", 0, 9)
	var s Session
	v := vhTok("value", 2, "")
	fill := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = "ab =\t:/;\x00\xff\r"[(i+n)%11]
		}
		b[0], b[n-1] = v[0], v[1]
		return b
	}
	types := []Type("vosiuepcbtrzkam\u00e9\U00010000\u4e2d")
	if vsym.Choose("what", 0, 1) == 0 {
		n := []int{4, 8, 9, 16, 17, 33, 64, 100, 257, 1000}[k]
		for i := 0; i < n; i++ {
			s = append(s, Line{types[i%len(types)], fill(2 + i%5)})
		}
	} else {
		n := []int{16, 17, 64, 255, 256, 1024, 4095, 4097, 65536, 70000}[k]
		s = Session{{'v', []byte("0")}, {'s', fill(n)}, {'a', fill(n / 2)}, {'m', []byte("x")}}
	}
	sep := []string{"\n", "\r\n", "\r\n\r\n"}[vsym.Choose("sep", 0, 2)]
	var b []byte
	if sep == "\n" {
		b = s.AppendTo(nil)
	} else {
		for _, l := range s {
			b = append(append(append(b, string(rune(l.Type))+"="...), l.Value...), sep...)
		}
	}
	var old Session
	if r := vsym.Choose("reuse", 0, 2); r > 0 {
		for i := 0; i < []int{0, 3, 400}[r]; i++ {
			old = append(old, Line{'x', []byte("0123456789012345678901234567890123456789")[:5*(i%8)]})
		}
		old = old[:0]
	}
	r, err := DecodeSession(b, old)
	vsym.Assert(err == nil, "lines are readable")
	for i := range b {
		b[i] = 'X'
	}
	vsym.Assert(c22same(s, r), "lines are read back unchanged")
	vsym.Reach("read")
}
