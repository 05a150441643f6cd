package sdp

import (
	"net"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

func c33text(name string) string {
	n := vsym.Choose(name+"_len", 0, 2)
	return string(vsym.Bytes(name, n))
}

func c33say(got, want bool) {
	if want {
		vsym.Assert(got, "equal values called different")
		vsym.Reach("equal")
	} else {
		vsym.Assert(!got, "different values called equal")
		vsym.Reach("different")
	}
}

// Lines and lists of lines.
//
// vh:bound two lists of 0..2 lines (thorough 3), types of 8 bits, values of 0..2 arbitrary bytes (nil among them)
// vh:reach equal different
// vh:opt paths=2000000
func VH_C33_Lines() {
	var s [2]Session
	for i := range s {
		n := vsym.Choose("lines", 0, 2+vsym.Tier())
		for j := 0; j < n; j++ {
			l := Line{Type: Type(vsym.Byte("type"))}
			if k := vsym.Choose("len", 0, 2); k > 0 {
				l.Value = vsym.Bytes("value", k)
			} else if vsym.Choose("nil", 0, 1) == 0 {
				l.Value = []byte{}
			}
			s[i] = append(s[i], l)
		}
	}
	want := len(s[0]) == len(s[1])
	for j := 0; j < len(s[0]) && j < len(s[1]); j++ {
		a, b := s[0][j], s[1][j]
		same := a.Type == b.Type && string(a.Value) == string(b.Value)
		if j == 0 {
			c33say(a.Equal(b), same)
		}
		want = want && same
	}
	c33say(s[0].Equal(s[1]), want)
	c33say(s[1].Equal(s[0]), want)
	vsym.Assert(s[0].Equal(s[0]), "list differs from itself")
}

// Origins and keys.
//
// vh:bound two values each, texts of 0..2 arbitrary bytes, all 64-bit numbers; one field of each compared with arbitrary values, the others equal or one more of them different
// vh:reach equal different blank
func VH_C33_Fields() {
	if vsym.Choose("what", 0, 1) == 0 {
		a := Encryption{c33text("method"), c33text("key")}
		b := Encryption{c33text("method"), c33text("key")}
		same := a.Method == b.Method && a.Key == b.Key
		c33say(a.Equal(b), same)
		c33say(b.Equal(a), same)
		vsym.Assert(a.Blank() == (a.Method == "" && a.Key == ""), "blank key")
		if a.Blank() {
			vsym.Reach("blank")
		}
		return
	}
	var o [2]Origin
	f := vsym.Choose("focus", 0, 5)
	g := vsym.Choose("other", -1, 5)
	for i := range o {
		o[i] = Origin{"u", 1, 2, "IN", "IP4", "h"}
		p := &o[i]
		for _, f := range []int{f, g} {
			if g == f && i == 0 {
				continue
			}
			switch f {
			case 0:
				p.Username = c33text("user")
			case 1:
				p.SessionID = vsym.Int("id")
			case 2:
				p.SessionVersion = vsym.Int("version")
			case 3:
				p.NetworkType = c33text("net")
			case 4:
				p.AddressType = c33text("type")
			case 5:
				p.Address = c33text("address")
			}
		}
	}
	same := o[0].Username == o[1].Username && o[0].SessionID == o[1].SessionID && o[0].SessionVersion == o[1].SessionVersion &&
		o[0].NetworkType == o[1].NetworkType && o[0].AddressType == o[1].AddressType && o[0].Address == o[1].Address
	c33say(o[0].Equal(o[1]), same)
	c33say(o[1].Equal(o[0]), same)
}

// Connection data; an IPv4 address is the same in its 4 and 16 byte forms.
//
// vh:bound two values, types of 0..2 arbitrary bytes, no address, all IPv4 addresses with 2 arbitrary bytes in both forms, IPv6 ones with 2 arbitrary bytes, any TTL and count
// vh:reach equal different blank
func VH_C33_Connection() {
	var c [2]ConnectionData
	var text [2]string
	var kind [2]int
	f := vsym.Choose("focus", 0, 3)
	for i := range c {
		k := 0
		if f == 0 {
			k = vsym.Choose("ip", 0, 3)
		}
		x, y := byte(1), byte(2)
		if k > 0 {
			x, y = vsym.Byte("x"), vsym.Byte("y")
			text[i] = string([]byte{x, y})
		}
		kind[i] = k
		switch k {
		case 1:
			c[i].IP = net.IP{10, x, y, 1}
		case 2:
			c[i].IP = net.IPv4(10, x, y, 1)
			kind[i] = 1
		case 3:
			c[i].IP = make(net.IP, 16)
			c[i].IP[0], c[i].IP[1], c[i].IP[14] = 0xff, x, y
		}
		switch f {
		case 1:
			c[i].TTL, c[i].Addresses = vsym.Byte("ttl"), vsym.Byte("addresses")
		case 2:
			c[i].NetworkType = c33text("net")
		case 3:
			c[i].AddressType = c33text("type")
		}
	}
	a, b := c[0], c[1]
	same := kind[0] == kind[1] && text[0] == text[1] && a.TTL == b.TTL && a.Addresses == b.Addresses && a.NetworkType == b.NetworkType && a.AddressType == b.AddressType
	c33say(a.Equal(b), same)
	c33say(b.Equal(a), same)
	blank := kind[0] == 0 && a.TTL == 0 && a.Addresses == 0 && a.NetworkType == "" && a.AddressType == ""
	vsym.Assert(a.Blank() == blank, "blank connection")
	if blank {
		vsym.Reach("blank")
	}
}
