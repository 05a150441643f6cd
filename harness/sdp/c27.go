package sdp

import (
	"time"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

func c27mag(name string, quick, thorough uint32) int64 {
	v := vsym.U32(name) & 0xffffff
	if vsym.Tier() == 1 {
		quick = thorough
	}
	vsym.Assume(v <= quick)
	n := int64(v)
	if vsym.Choose(name+"_neg", 0, 1) == 1 {
		n = -n
	}
	return n
}

// c27decimal tells whether b is the canonical decimal text of n.
func c27decimal(b []byte, n int64) bool {
	v, ok := vhDec(b)
	if !ok || v != n {
		return false
	}
	if b[0] == '-' {
		b = b[1:]
		if b[0] == '0' {
			return false
		}
	}
	if b[0] == '+' {
		return false
	}
	return len(b) == 1 || b[0] != '0'
}

func c27int(name string) int {
	if k := vsym.Choose("fixed", 0, 10); k > 0 {
		return []int{0, 2147483647, 2147483648, -2147483648, 999999999999999999, 1000000000000000000, -999999999999999999, 123456789012345678, 1<<63 - 1, -1 << 63}[k-1]
	}
	return int(c27mag(name, 9999, 999999))
}

// Integers are written as their decimal representation.
//
// vh:bound all integers of up to 4 digits with sign (6 thorough) and 10 fixed large ones (the smallest and the largest among them), written as version, bandwidth, port, ports number or session id
// vh:reach written
func VH_C27_Ints() {
	n := c27int("n")
	var b []byte
	var s Session
	switch vsym.Choose("field", 0, 4) {
	case 0:
		s = s.AddVersion(n)
		b = s[0].Value
	case 1:
		s = s.AddBandwidth(BandwidthConferenceTotal, n)
		vsym.Assert(string(s[0].Value[:3]) == "CT:", "bandwidth type")
		b = s[0].Value[3:]
	case 2:
		s = s.AddMediaDescription(MediaDescription{Type: "a", Port: n, Protocol: "b", Format: "c"})
		v := s[0].Value
		vsym.Assert(string(v[:2]) == "a " && string(v[len(v)-4:]) == " b c", "media line")
		b = v[2 : len(v)-4]
	case 3:
		vsym.Assume(n != 0)
		s = s.AddMediaDescription(MediaDescription{Type: "a", Port: 1, PortsNumber: n, Protocol: "b", Format: "c"})
		v := s[0].Value
		vsym.Assert(string(v[:4]) == "a 1/" && string(v[len(v)-4:]) == " b c", "media line")
		b = v[4 : len(v)-4]
	case 4:
		s = s.AddOrigin(Origin{Username: "u", SessionID: n, SessionVersion: 7, Address: "h"})
		v := s[0].Value
		vsym.Assert(string(v[:2]) == "u " && string(v[len(v)-11:]) == " 7 IN IP4 h"[:11], "origin line")
		b = v[2 : len(v)-11]
	}
	vsym.Assert(c27decimal(b, int64(n)), "decimal representation")
	vsym.Reach("written")
}

// TTL and number of addresses are written as their decimal representation.
//
// vh:bound all bytes
// vh:reach written
func VH_C27_Bytes() {
	ttl, n := vsym.Byte("ttl"), vsym.Byte("addresses")
	a := vsym.Bytes("ip", 4)
	var s Session
	s = s.AddConnectionData(ConnectionData{IP: []byte{224, 9, 99, 100}, TTL: ttl, Addresses: n})
	v := s[0].Value
	pre := "IN IP4 224.9.99.100"
	vsym.Assert(string(v[:len(pre)]) == pre, "address")
	v = v[len(pre):]
	for _, x := range []byte{ttl, n} {
		if x == 0 {
			continue
		}
		vsym.Assert(len(v) > 1 && v[0] == '/', "separator")
		e := 1
		for e < len(v) && v[e] != '/' {
			e++
		}
		vsym.Assert(c27decimal(v[1:e], int64(x)), "decimal representation")
		v = v[e:]
	}
	vsym.Assert(len(v) == 0, "nothing else")
	// the four numbers of the address
	s = s.AddConnectionDataIP([]byte{a[0], 1, a[1], a[2]})
	v = s[1].Value[7:]
	for i, x := range []byte{a[0], 1, a[1], a[2]} {
		e := 0
		for e < len(v) && v[e] != '.' {
			e++
		}
		vsym.Assert(c27decimal(v[:e], int64(x)), "address number")
		if i < 3 {
			v = v[e+1:]
		} else {
			v = v[e:]
		}
	}
	vsym.Assert(len(v) == 0, "four numbers")
	vsym.Reach("written")
}

var c27large = []int64{65535, 65536, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<33 + 1,
	99999999, 100000001, 31536000, 31536001, 604799, 9223372036, 9223372035, 9223286400, 9223372020}

func c27dur(name string) (time.Duration, int64) {
	k := vsym.Choose("unit", 0, 5)
	if k == 5 {
		// large ones: near the limits of number types and of whole days
		v := c27large[vsym.Choose("large", 0, len(c27large)-1)]
		if vsym.Choose(name+"_neg", 0, 1) == 1 {
			v = -v
		}
		return time.Duration(v) * time.Second, v
	}
	if k > 0 {
		// whole multiples of a unit
		v := int64(vsym.U16(name))
		if vsym.Tier() == 0 {
			vsym.Assume(v <= 99)
		} else {
			vsym.Assume(v <= 24000)
		}
		if vsym.Choose(name+"_neg", 0, 1) == 1 {
			v = -v
		}
		u := []int64{1, 60, 3600, 86400}[k-1]
		return time.Duration(v*u) * time.Second, v * u
	}
	v := c27mag(name, 9999, 999999)
	return time.Duration(v) * time.Second, v
}

// Repeat lines.
//
// vh:bound one of interval, duration and offset any whole number of seconds of up to 4 digits (6 thorough) or -99..99 (-24000..24000) minutes, hours or days, or one of 19 of up to 10 digits with sign, compact or plain
// vh:reach read
func VH_C27_Repeat() {
	d, sec := c27dur("d")
	x := []time.Duration{7 * 24 * time.Hour, time.Hour, 90 * time.Second}
	pos := vsym.Choose("pos", 0, 2)
	x[pos] = d
	var s Session
	s = s.AddTiming(time.Time{}, time.Time{})
	if vsym.Choose("compact", 0, 1) == 1 {
		s = s.AddRepeatTimesCompact(x[0], x[1], x[2])
	} else {
		s = s.AddRepeatTimes(x[0], x[1], x[2])
	}
	vsym.Assert(len(s) == 2, "one line each")
	m := new(Message)
	dec := NewDecoder(s)
	vsym.Assert(dec.Decode(m) == nil, "written repeat times are readable")
	vsym.Assert(len(m.Timing) == 1 && len(m.Timing[0].Offsets) == 1, "one repeat")
	t := m.Timing[0]
	vsym.Assert(t.Repeat == x[0], "interval")
	vsym.Assert(t.Active == x[1], "duration")
	vsym.Assert(t.Offsets[0] == x[2], "offset")
	_ = sec
	vsym.Reach("read")
}

// Time zone lines.
//
// vh:bound one offset any whole number of seconds of up to 4 digits with sign (6 thorough) or -99..99 minutes, hours or days, or one of 19 of up to 10 digits; 1 or 2 adjustments
// vh:reach read
func VH_C27_Zones() {
	d, _ := c27dur("d")
	z := []TimeZone{{NTPToTime(2882844526), -time.Hour}, {NTPToTime(2898848070), 0}}
	pos := vsym.Choose("pos", 0, 1)
	z[pos].Offset = d
	z = z[:vsym.Choose("n", pos+1, 2)]
	var s Session
	s = s.AddTimeZones(z...)
	m := new(Message)
	dec := NewDecoder(s)
	vsym.Assert(dec.Decode(m) == nil, "written zones are readable")
	vsym.Assert(len(m.TZAdjustments) == len(z), "number of adjustments")
	for i, a := range m.TZAdjustments {
		vsym.Assert(a.Start.Equal(z[i].Start), "start")
		vsym.Assert(a.Offset == z[i].Offset, "offset")
	}
	vsym.Reach("read")
}
