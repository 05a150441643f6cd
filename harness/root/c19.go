package rtspclient

import (
	"strings"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

//vh:use commonauth

const c19Head = "v=0\r\no=- 1 1 IN IP4 1.2.3.4\r\ns=x\r\nt=0 0\r\n"

// c19Medias are the medias the application sees for a description.
func c19Medias(sdp string, n int) []MediaSubsession {
	app := &vhApp{}
	s := app.session()
	srv := vhNewServer(vhAnswer(sdp))
	vsym.Assert(s.ParsingURL("rtsp://h/p") == nil, "valid URL refused")
	vsym.Assert(s.SetConnection(srv.conn) == nil, "session not established by an accepting server")
	vsym.Assert(len(s.RtpMediaMap) == n, "not one media per section")
	var ms []MediaSubsession
	for i := 0; i < n; i++ {
		m, ok := s.RtpMediaMap[2*i]
		vsym.Assert(ok, "not one media per section")
		ms = append(ms, m)
	}
	return ms
}

// c19Number is a number of n digits, the first of which is not 0.
func c19Number(name string, n int) (string, int) {
	b := vsym.Bytes(name, n)
	v := 0
	for i := range b {
		vsym.Assume(b[i] >= '0' && b[i] <= '9' && (i > 0 || b[i] != '0'))
		v = 10*v + int(b[i]-'0')
	}
	return string(b), v
}

func c19CRLF() string { return []string{"\r\n", "\n"}[vsym.Choose("nl", 0, 1)] }

// Dynamic payload formats.
//
// vh:bound payload formats 35..127, codec name of 1..4 (thorough 1..6) token characters, no clock rate or one of 1..6 digits, then no channel count or one of 1..2 digits, other formats listed behind with maps before and after it
// vh:reach ok
func VH_C19_Rtpmap() {
	pt, v := c19Number("format", vsym.Choose("digits", 2, 3))
	vsym.Assume(v >= 35 && v <= 127)
	codec := vhToken("codec", vsym.Choose("codeclen", 1, 4+2*vsym.Tier()))
	m := "a=rtpmap:" + pt + " " + codec
	clock, chans := -1, -1
	if n := vsym.Choose("clockdigits", 0, 6); n > 0 {
		var t string
		t, clock = c19Number("clock", n)
		m += "/" + t
		if n := vsym.Choose("chandigits", 0, 2); n > 0 {
			t, chans = c19Number("channels", n)
			m += "/" + t
		}
	}
	sdp := c19Head + "m=video 0 RTP/AVP " + pt
	switch vsym.Choose("others", 0, 2) {
	case 0:
		sdp += "\r\n" + m
	case 1:
		sdp += " 0 8\r\na=rtpmap:0 PCMU/8000\r\n" + m + "\r\na=rtpmap:8 PCMA/8000"
	case 2:
		sdp += " 34\r\na=rtpmap:34 H263/90000\r\na=recvonly\r\n" + m
	}
	r := c19Medias(sdp+"\r\na=control:t0\r\n", 1)[0]
	vsym.Assert(r.PayloadFormat == v, "wrong payload format")
	vsym.Assert(r.CodecName == codec, "wrong codec name")
	vsym.Assert(r.RtpTimestampFrequency == clock, "wrong clock rate")
	vsym.Assert(r.Channels == chans, "wrong channel count")
	vsym.Assert(r.MediumName == "video" && r.TrackURL == "t0", "wrong media type or control")
	vsym.Reach("ok")
}

// c19Static is the table of RFC 3551.
var c19Static = map[int]struct {
	name        string
	clock, chan_ int
}{
	0: {"PCMU", 8000, 1}, 3: {"GSM", 8000, 1}, 4: {"G723", 8000, 1}, 5: {"DVI4", 8000, 1}, 6: {"DVI4", 16000, 1}, 7: {"LPC", 8000, 1},
	8: {"PCMA", 8000, 1}, 9: {"G722", 8000, 1}, 10: {"L16", 44100, 2}, 11: {"L16", 44100, 1}, 12: {"QCELP", 8000, 1}, 13: {"CN", 8000, 1},
	14: {"MPA", 90000, -1}, 15: {"G728", 8000, 1}, 16: {"DVI4", 11025, 1}, 17: {"DVI4", 22050, 1}, 18: {"G729", 8000, 1},
	25: {"CelB", 90000, -1}, 26: {"JPEG", 90000, -1}, 28: {"nv", 90000, -1}, 31: {"H261", 90000, -1}, 32: {"MPV", 90000, -1}, 33: {"MP2T", 90000, -1}, 34: {"H263", 90000, -1},
}

// Static payload formats without a map.
//
// vh:bound every payload format of RFC 3551's table, alone or followed by a dynamic one that is mapped, audio or video
// vh:reach ok
func VH_C19_Static() {
	var pts []int
	for i := 0; i < 35; i++ {
		if _, ok := c19Static[i]; ok {
			pts = append(pts, i)
		}
	}
	pt := pts[vsym.Choose("format", 0, len(pts)-1)]
	typ := []string{"audio", "video"}[vsym.Choose("type", 0, 1)]
	sdp := c19Head + "m=" + typ + " 0 RTP/AVP " + vhItoa(pt)
	if vsym.Choose("more", 0, 1) == 1 {
		sdp += " 96\r\na=rtpmap:96 X/1/2"
	}
	r := c19Medias(sdp+"\r\na=control:t0\r\n", 1)[0]
	w := c19Static[pt]
	vsym.Assert(r.PayloadFormat == pt, "wrong payload format")
	vsym.Assert(r.CodecName == w.name, "wrong codec name")
	vsym.Assert(r.RtpTimestampFrequency == w.clock, "wrong clock rate")
	vsym.Assert(r.Channels == w.chan_, "wrong channel count")
	vsym.Assert(r.MediumName == typ, "wrong media type")
	vsym.Reach("ok")
}

// Several medias, each with attributes of its own.
//
// vh:bound 1..3 medias of arbitrary types of 1..3 token characters, payload formats, codecs and controls of their own, the attributes of each present or absent
// vh:reach ok
func VH_C19_Medias() {
	n := vsym.Choose("medias", 1, 3)
	sdp := c19Head
	var want []MediaSubsession
	for i := 0; i < n; i++ {
		w := MediaSubsession{RtpTimestampFrequency: -1, Channels: -1}
		w.MediumName = vhToken("type", 2)
		w.PayloadFormat = 96 + i%2
		w.CodecName = vhToken("codec", 2)
		nl := "\r\n"
		if i == 0 {
			nl = c19CRLF()
		}
		sdp += "m=" + w.MediumName + " 0 RTP/AVP " + vhItoa(w.PayloadFormat) + nl + "a=rtpmap:" + vhItoa(w.PayloadFormat) + " " + w.CodecName + nl
		has := vsym.Choose("attributes", 0, 3)
		if has == 1 || has == 3 {
			w.TrackURL = "t" + vhToken("control", 2)
			sdp += "a=control:" + w.TrackURL + nl
		}
		if has == 2 || has == 3 {
			w.VideoFramerate = 10 + i
			w.VideoWidth, w.VideoHeight = 100+i, 200+i
			sdp += "a=framerate:" + vhItoa(10+i) + nl + "a=x-dimensions:" + vhItoa(100+i) + "," + vhItoa(200+i) + nl
			v := vhToken("value", 2)
			w.Fmtp = map[string]string{"k": v}
			sdp += "a=fmtp:" + vhItoa(w.PayloadFormat) + " k=" + v + nl
		}
		want = append(want, w)
	}
	for i, r := range c19Medias(sdp, n) {
		w := want[i]
		vsym.Assert(r.MediumName == w.MediumName && r.PayloadFormat == w.PayloadFormat && r.CodecName == w.CodecName, "wrong media")
		vsym.Assert(r.RtpTimestampFrequency == -1 && r.Channels == -1, "clock rate or channels invented")
		vsym.Assert(r.TrackURL == w.TrackURL, "wrong control")
		vsym.Assert(r.VideoFramerate == w.VideoFramerate && r.VideoWidth == w.VideoWidth && r.VideoHeight == w.VideoHeight, "wrong frame rate or dimensions")
		v, ok := r.Fmtp["k"]
		vsym.Assert(ok == (w.Fmtp != nil) && v == w.Fmtp["k"], "wrong format parameter")
	}
	vsym.Reach("ok")
}

// Frame rates and dimensions.
//
// vh:bound frame rates of 1..3 digits with a fraction of 0..2 digits, or without, in either attribute; widths and heights of 1..4 digits, with or without a space behind the comma
// vh:reach ok
func VH_C19_Video() {
	sdp := c19Head + "m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\n"
	t, rate := c19Number("rate", vsym.Choose("ratedigits", 1, 3))
	if n := vsym.Choose("fraction", -1, 2); n >= 0 {
		f := vsym.Str("part", n)
		for i := 0; i < n; i++ {
			vsym.Assume(f[i] >= '0' && f[i] <= '9')
		}
		t += "." + f
	}
	sdp += []string{"a=framerate:", "a=x-framerate:"}[vsym.Choose("attribute", 0, 1)] + t + "\r\n"
	wt, w := c19Number("width", vsym.Choose("wdigits", 1, 4))
	ht, h := c19Number("height", vsym.Choose("hdigits", 1, 4))
	sdp += "a=x-dimensions:" + wt + []string{",", ", "}[vsym.Choose("space", 0, 1)] + ht + "\r\n"
	r := c19Medias(sdp, 1)[0]
	vsym.Assert(r.VideoFramerate == rate, "wrong frame rate")
	vsym.Assert(r.VideoWidth == w && r.VideoHeight == h, "wrong dimensions")
	vsym.Reach("ok")
}

// Format parameters.
//
// vh:bound 1..3 parameters with names of 2 (no digit first) and values of 0..4 characters of which '=' is one, separated by a semicolon with and without spaces before or after it, with and without one at the end; those of another format before or after
// vh:reach ok
func VH_C19_Fmtp() {
	n := vsym.Choose("parameters", 1, 3)
	sep := []string{";", "; ", " ; ", " ;"}[vsym.Choose("separator", 0, 3)]
	var names, values []string
	l := "a=fmtp:96 "
	for i := 0; i < n; i++ {
		k := vhToken("name", 2)
		vsym.Assume(k[0] < '0' || k[0] > '9')
		for _, o := range names {
			vsym.Assume(o != k)
		}
		m := 2
		if i == 0 {
			m = vsym.Choose("valuelen", 0, 4)
		}
		v := vsym.Str("value", m)
		for j := 0; j < m; j++ {
			vsym.Assume(v[j] > ' ' && v[j] < 0x7f && v[j] != ';')
		}
		names, values = append(names, k), append(values, v)
		if i > 0 {
			l += sep
		}
		l += k + "=" + v
	}
	l += []string{"", ";"}[vsym.Choose("end", 0, 1)] + "\r\n"
	other := "a=fmtp:97 " + names[0] + "=other\r\n"
	switch vsym.Choose("other", 0, 2) {
	case 1:
		l += other
	case 2:
		l = other + l
	}
	r := c19Medias(c19Head+"m=video 0 RTP/AVP 96 97\r\na=rtpmap:96 H264/90000\r\n"+l+"a=control:t\r\n", 1)[0]
	for i, k := range names {
		v, ok := r.Fmtp[k]
		vsym.Assert(ok, "format parameter lost")
		vsym.Assert(v == values[i], "format parameter changed")
	}
	vsym.Assert(r.TrackURL == "t" && r.CodecName == "H264", "wrong media")
	vsym.Reach("ok")
}

// Many medias, parameters and formats, and long texts.
//
// vh:bound 9..128 medias (8 numbers) each different, with attributes in different orders; 4..200 (8 numbers) format parameters, payload formats or other attributes of one media; codec name, control, parameter name or value of 16..4096 characters (8 lengths), one character of each arbitrary
// vh:reach ok
// vh:opt steps=40000000
func VH_C19_Many() {
	k := vsym.Choose("n", 0, 7)
	sdp := c19Head
	switch vsym.Choose("what", 0, 7) {
	case 0:
		n := []int{9, 16, 17, 32, 33, 64, 100, 128}[k]
		for i := 0; i < n; i++ {
			pt := vhItoa(35 + i*7%93)
			sdp += "m=" + []string{"audio", "video", "application"}[i%3] + " " + vhItoa(1000+i) + " RTP/AVP " + pt + " 0\r\n"
			l := []string{"a=rtpmap:" + pt + " C" + vhItoa(i) + "/" + vhItoa(1000*i+1) + "/" + vhItoa(i+1), "a=control:t" + vhItoa(i), "a=fmtp:" + pt + " a=" + vhItoa(i) + ";b=" + vhItoa(i+1), "a=framerate:" + vhItoa(i) + ".5", "a=x-dimensions:" + vhItoa(i) + "," + vhItoa(2*i), "a=rtpmap:0 PCMU/8000"}
			for j := range l {
				sdp += l[(j+i)%len(l)] + "\r\n"
			}
		}
		for i, r := range c19Medias(sdp, n) {
			vsym.Assert(r.MediumName == []string{"audio", "video", "application"}[i%3] && r.PayloadFormat == 35+i*7%93, "wrong media")
			vsym.Assert(r.CodecName == "C"+vhItoa(i) && r.RtpTimestampFrequency == 1000*i+1 && r.Channels == i+1, "wrong codec")
			vsym.Assert(r.TrackURL == "t"+vhItoa(i), "wrong control")
			vsym.Assert(r.VideoFramerate == i && r.VideoWidth == i && r.VideoHeight == 2*i, "wrong frame rate or dimensions")
			vsym.Assert(r.Fmtp["a"] == vhItoa(i) && r.Fmtp["b"] == vhItoa(i+1), "wrong format parameter")
		}
	case 1, 2:
		n := []int{4, 8, 9, 16, 17, 33, 100, 200}[k]
		v := vhToken("value", 1)
		sep := []string{";", "; "}[vsym.Choose("sep", 0, 1)]
		l := "a=fmtp:96 "
		for i := 0; i < n; i++ {
			l += "n" + vhItoa(i) + "=" + v + vhItoa(i*i) + sep
		}
		r := c19Medias(sdp+"m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\n"+l+"last="+v+"\r\na=control:t\r\n", 1)[0]
		for i := 0; i < n; i++ {
			vsym.Assert(r.Fmtp["n"+vhItoa(i)] == v+vhItoa(i*i), "format parameter lost")
		}
		vsym.Assert(r.Fmtp["last"] == v, "format parameter lost")
		vsym.Assert(r.TrackURL == "t" && r.CodecName == "H264", "wrong media")
	case 3:
		n := []int{4, 8, 9, 16, 17, 33, 64, 90}[k]
		c := vhToken("codec", 1)
		l := "m=audio 0 RTP/AVP 127"
		for i := 0; i < n; i++ {
			l += " " + vhItoa(35+i)
		}
		l += "\r\n"
		for i := 0; i < n; i++ {
			l += "a=rtpmap:" + vhItoa(35+i) + " x/1\r\na=fmtp:" + vhItoa(35+i) + " k=x\r\na=ptime:20\r\n"
		}
		r := c19Medias(sdp+l+"a=fmtp:127 k=y\r\na=rtpmap:127 "+c+"/8000/2\r\na=control:t\r\n", 1)[0]
		vsym.Assert(r.PayloadFormat == 127 && r.CodecName == c && r.RtpTimestampFrequency == 8000 && r.Channels == 2, "wrong codec")
		vsym.Assert(r.TrackURL == "t" && r.Fmtp["k"] == "y", "wrong control or format parameter")
	default:
		w := vsym.Choose("which", 0, 4)
		x := strings.Repeat("x", []int{16, 17, 64, 127, 256, 257, 1024, 4096}[k]-1) + vhToken("some", 1)
		t := [5]string{"video", "C", "t", "k", "v"}
		t[w] = x
		r := c19Medias(sdp+"m="+t[0]+" 0 RTP/AVP 96\r\na=rtpmap:96 "+t[1]+"/90000\r\na=fmtp:96 "+t[3]+"="+t[4]+"; z="+t[4]+"\r\na=control:"+t[2]+"\r\n", 1)[0]
		vsym.Assert(r.MediumName == t[0] && r.CodecName == t[1] && r.TrackURL == t[2], "wrong media")
		vsym.Assert(r.Fmtp[t[3]] == t[4] && r.Fmtp["z"] == t[4], "format parameter changed")
	}
	vsym.Reach("ok")
}
