package sdp

import (
	"time"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

// Timestamp to time and back.
//
// vh:bound all 64-bit timestamps except the one denoting the Go zero time
// vh:reach zero set
func VH_C26_FromNTP() {
	v := vsym.U64("ntp")
	var notime int64 = -62135596800 + 2208988800 // 0001-01-01
	vsym.Assume(v != uint64(notime))
	t := NTPToTime(v)
	if v == 0 {
		vsym.Assert(t.IsZero(), "zero stands for no time")
		vsym.Assert(TimeToNTP(t) == 0, "no time is zero")
		vsym.Reach("zero")
		return
	}
	vsym.Assert(!t.IsZero(), "a timestamp is a time")
	vsym.Assert(t.Unix() == int64(v)-2208988800, "seconds since 1900")
	vsym.Assert(t.Nanosecond() == 0, "whole seconds")
	vsym.Assert(TimeToNTP(t) == v, "timestamp survives")
	vsym.Reach("set")
}

// Time to timestamp and back, in any time zone.
//
// vh:bound all times from 1900-01-01 00:00:01 up to the year 292277022365, whole seconds, zone offsets -14 h .. 14 h; sub-second part 0 or arbitrary
// vh:reach set
func VH_C26_FromTime() {
	sec := vsym.Int64("unix")
	vsym.Assume(sec > -2208988800 && sec < 1<<62)
	t := time.Unix(sec, 0)
	frac := vsym.Choose("frac", 0, 1) == 1
	if frac {
		ns := vsym.Int64("ns")
		vsym.Assume(ns >= 0 && ns < 1000000000)
		t = time.Unix(sec, ns)
	}
	switch vsym.Choose("zone", 0, 2) {
	case 1:
		off := vsym.Int("offset")
		vsym.Assume(off >= -14*3600 && off <= 14*3600)
		t = t.In(time.FixedZone("Z", off))
	case 2:
		t = t.UTC()
	}
	n := TimeToNTP(t)
	vsym.Assert(n == uint64(sec+2208988800), "seconds since 1900")
	r := NTPToTime(n)
	vsym.Assert(r.Unix() == sec, "same second")
	if !frac {
		vsym.Assert(r.Equal(t), "time survives")
	}
	vsym.Reach("set")
}

// Timing lines carry both timestamps.
//
// vh:bound start or end any timestamp of up to 4 digits (6 thorough) or one of 8 fixed large values
// vh:reach decoded
func VH_C26_Line() {
	pick := func(name string) uint64 {
		if vsym.Choose("fixed", 0, 1) == 0 {
			v := uint64(vsym.U32(name))
			max := uint64(9999)
			if vsym.Tier() == 1 {
				max = 999999
			}
			vsym.Assume(v <= max)
			return v
		}
		return []uint64{2208988799, 2208988800, 2208988801, 2873397496, 4294967295, 4294967296, 1 << 62, 1<<63 - 1}[vsym.Choose("big", 0, 7)]
	}
	a, b := uint64(0), uint64(3034423619)
	if vsym.Choose("which", 0, 1) == 0 {
		a = pick("ntp")
	} else {
		b = pick("ntp")
	}
	var s Session
	if vsym.Choose("how", 0, 1) == 0 {
		s = s.AddTimingNTP(a, b)
	} else {
		s = s.AddTiming(NTPToTime(a), NTPToTime(b))
	}
	m := new(Message)
	d := NewDecoder(s)
	vsym.Assert(d.Decode(m) == nil, "written timing is readable")
	vsym.Assert(len(m.Timing) == 1, "one timing")
	vsym.Assert(TimeToNTP(m.Timing[0].Start) == a, "start")
	vsym.Assert(TimeToNTP(m.Timing[0].End) == b, "end")
	vsym.Assert(m.Start().Equal(m.Timing[0].Start) && m.End().Equal(m.Timing[0].End), "Start/End")
	vsym.Reach("decoded")
}
