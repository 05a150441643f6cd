HEAD_R='''
package rtspclient

import (
%s)
'''
def R(imports, body): return HEAD_R % ''.join('\t"%s"\n'%i for i in imports.split()) + body

bug(id='c01-int16-length', prop='C01',
 needs='an interleaved packet whose declared length is above 32767 bytes',
 breaks='The length of the packet is read as a signed number; a large packet is taken for something unknown and what follows is cut at the wrong places.',
 edits=[('rtpstreamprotocol.go','var len uint16','var len int16')],
 demo=R('testing bytes time','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("PLAIN")))
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	big := bytes.Repeat([]byte("0123456789abcdef"), 2200)
	srv.send(demoFrame(0, false, big...))
	srv.send(demoFrame(0, false, 1, 2, 3))
	u := c.next(5 * time.Second)
	if u == nil || !bytes.Equal(u.Data, big) {
		t.Fatal("the large packet was not delivered")
	}
	u = c.next(5 * time.Second)
	if u == nil || !bytes.Equal(u.Data, []byte{1, 2, 3}) {
		t.Fatal("the packet behind the large packet was not delivered")
	}
}
'''))

bug(id='c01-shared-buffer', prop='C01',
 needs='a message longer than 1 KiB that the receiver still holds while the next one is read',
 breaks='Longer messages are handed over in the read buffer, which the next message overwrites.',
 edits=[('tcpnetwork/tcpnetwork.go','''	bufStartPos += contextLength

	msg = make([]byte, bufStartPos)
	copy(msg, buf[:bufStartPos])
''','''	bufStartPos += contextLength

	if bufStartPos > 1024 {
		// hand over large messages without copying them
		msg = buf[:bufStartPos]
	} else {
		msg = make([]byte, bufStartPos)
		copy(msg, buf[:bufStartPos])
	}
''')],
 demo=R('testing bytes time net github.com/NodeBoy2/rtspclient/tcpnetwork','''
func TestSeeded(t *testing.T) {
	a, b := net.Pipe()
	got := make(chan []byte, 10)
	conn := tcpnetwork.NewConnection(a, 10, func(e *tcpnetwork.ConnEvent) {
		if e.EventType == tcpnetwork.ConnEventData {
			got <- e.Data
		}
	})
	conn.SetStreamProtocol(&RTPStreamProtocol{})
	conn.Run()
	one := demoFrame(0, false, bytes.Repeat([]byte{1}, 2000)...)
	two := demoFrame(0, false, bytes.Repeat([]byte{2}, 2000)...)
	go func() { b.Write(one); b.Write(two); b.Close() }()
	time.Sleep(200 * time.Millisecond)
	m1, m2 := <-got, <-got
	if !bytes.Equal(m1, one) || !bytes.Equal(m2, two) {
		t.Fatal("messages were changed after they were delivered")
	}
}
'''))

bug(id='c02-clamp-off', prop='C02',
 needs='an aggregation packet that ends within a unit of at most two bytes',
 breaks='A unit that ends behind the end of its packet is cut off at the wrong place, and the connection ends in a panic.',
 edits=[('rtpparser.go','''		naluSize = len(payload)
	}
	nalu''','''		naluSize = len(payload) - naluHeaderSize
	}
	nalu''')],
 demo=R('testing bytes time','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("H264")))
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	within(t, 5*time.Second, "processing", func() {
		defer func() {
			if e := recover(); e != nil {
				t.Error("panic:", e)
			}
		}()
		p := newRtpParser("H264")
		f := demoFrame(0, false, 24, 0, 4, 0x61)
		h, pl := p.splitRtpPacket(f[4:])
		for i := 0; i < 10 && len(pl) > 0; i++ {
			_, n := p.pushData(h, pl)
			pl = pl[n:]
		}
	})
	if t.Failed() {
		return
	}
	srv.send(demoFrame(0, false, 24, 0, 4, 0x61))
	srv.send(demoFrame(0, false, 0x61, 9))
	for {
		u := c.next(5 * time.Second)
		if u == nil {
			t.Fatal("the packet behind was not delivered")
		}
		if bytes.Equal(u.Data, []byte{0x61, 9}) {
			break
		}
	}
}
'''))

bug(id='c04-forbidden-bit', prop='C04',
 needs='a fragmented unit whose first bit (forbidden_zero_bit) is set',
 breaks='The original header of a fragmented unit loses its first bit.',
 edits=[('h264rtpparser.go','(rtpData[0] & 0xe0)','(rtpData[0] & 0x60)')],
 demo=R('testing bytes time','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("H264")))
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	srv.send(demoFrame(0, false, 0xe0|28, 0x85, 1, 2))
	srv.send(demoFrame(0, false, 0xe0|28, 0x45, 3, 4))
	u := c.next(5 * time.Second)
	if u == nil || !bytes.Equal(u.Data, []byte{0xe5, 1, 2, 3, 4}) {
		t.Fatalf("%v", u)
	}
}
'''))

bug(id='c04-pad-zero', prop='C04',
 needs='a unit sent as a single packet (or the last of an aggregation) that ends with zero bytes',
 breaks='Trailing zero bytes of single units are removed.',
 edits=[('h264rtpparser.go','''	if len(rtpData) < skipHeaderLen {
		return false, src, nil
	}
	return isCompletesFrame, src[:skipHeaderLen+RtpHeaderLen], src[skipHeaderLen+RtpHeaderLen:]
''','''	if len(rtpData) < skipHeaderLen {
		return false, src, nil
	}
	end := len(src)
	if packetNALUnitType == 1 {
		// trailing_zero_8bits
		for end > RtpHeaderLen+2 && src[end-1] == 0 && src[end-2] == 0 {
			end--
		}
	}
	return isCompletesFrame, src[:skipHeaderLen+RtpHeaderLen], src[skipHeaderLen+RtpHeaderLen : end]
''')],
 demo=R('testing bytes time','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("H264")))
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	srv.send(demoFrame(0, false, 0x65, 1, 0, 0))
	u := c.next(5 * time.Second)
	if u == nil || !bytes.Equal(u.Data, []byte{0x65, 1, 0, 0}) {
		t.Fatalf("%v", u)
	}
}
'''))

bug(id='c05-fu-type-mask', prop='C05',
 needs='a fragmented unit of type 32 or above (parameter sets, SEI)',
 breaks='The type of a fragmented unit loses its highest bit.',
 edits=[('hevcrtpparser.go','nalUnitType := rtpData[2] & 0x3F','nalUnitType := rtpData[2] & 0x1F')],
 demo=R('testing bytes time','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("H265")))
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	srv.send(demoFrame(0, false, 49<<1, 1, 0x80|33, 1, 2))
	srv.send(demoFrame(0, false, 49<<1, 1, 0x40|33, 3))
	u := c.next(5 * time.Second)
	if u == nil || !bytes.Equal(u.Data, []byte{33 << 1, 1, 1, 2, 3}) {
		t.Fatalf("%v", u)
	}
}
'''))

bug(id='c05-start-resets', prop='C05',
 needs='a fragmented unit whose start fragment has no payload bytes behind the fragment header',
 breaks='A start fragment with nothing behind the fragment header is ignored, and the unit is delivered without its header.',
 edits=[('hevcrtpparser.go','if 0 != startBit {','if 0 != startBit && len(rtpData) > 3 {')],
 demo=R('testing bytes time','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("H265")))
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	srv.send(demoFrame(0, false, 49<<1, 1, 0x80|19))
	srv.send(demoFrame(0, false, 49<<1, 1, 0x40|19, 3))
	u := c.next(5 * time.Second)
	if u == nil || !bytes.Equal(u.Data, []byte{19 << 1, 1, 3}) {
		t.Fatalf("%v", u)
	}
}
'''))

bug(id='c06-shared-assembly', prop='C06',
 needs='fragments of units of two channels received in turn',
 breaks='All channels assemble their units in one buffer.',
 edits=[('rtpparser.go','''		payloadBuf:       make([]byte, MaxPayloadLength),
''','''		payloadBuf:       assemblyBuffer,
'''),('rtpparser.go','''func newRtpParser(''','''var assemblyBuffer = make([]byte, MaxPayloadLength)

func newRtpParser(''')],
 demo=R('testing bytes time','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("H264", "H264")))
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	srv.send(demoFrame(0, false, 0x60|28, 0x85, 1, 2))
	srv.send(demoFrame(2, false, 0x60|28, 0x81, 7, 8))
	srv.send(demoFrame(0, false, 0x60|28, 0x45, 3, 4))
	u := c.next(5 * time.Second)
	if u == nil || u.ChannelNum != 0 || !bytes.Equal(u.Data, []byte{0x65, 1, 2, 3, 4}) {
		t.Fatalf("%v", u)
	}
}
'''))

bug(id='c06-channel-mask', prop='C06',
 needs='a frame on a channel above 127',
 breaks='Frames on high channels are delivered as if they came from the low ones.',
 edits=[('rtspclient.go','channelNum := int(header[1])','channelNum := int(header[1] & 0x7f)')],
 demo=R('testing bytes time','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("PLAIN")))
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	srv.send(demoFrame(128, false, 5, 5))
	srv.send(demoFrame(0, false, 6))
	u := c.next(5 * time.Second)
	if u == nil || !bytes.Equal(u.Data, []byte{6}) {
		t.Fatalf("%v", u)
	}
}
'''))

bug(id='c07-csrc', prop='C07',
 needs='a packet of an ordinary codec whose first byte counts contributing sources',
 breaks='The payload no longer starts behind the 12-byte header when the CSRC count is not zero.',
 edits=[('simplertpparser.go','''	return true, src[:RtpHeaderLen], src[RtpHeaderLen:]
}

func (rtpParser *SimpleRtpParser) ParsingRtp''','''	headerLen := RtpHeaderLen + 4*int(src[0]&0x0f)
	if headerLen > len(src) {
		headerLen = len(src)
	}
	return true, src[:headerLen], src[headerLen:]
}

func (rtpParser *SimpleRtpParser) ParsingRtp''')],
 demo=R('testing bytes time','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("PLAIN")))
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	f := demoFrame(0, false, 1, 2, 3, 4, 5, 6)
	f[4] = 0x81
	srv.send(f)
	u := c.next(5 * time.Second)
	if u == nil || !bytes.Equal(u.Data, []byte{1, 2, 3, 4, 5, 6}) {
		t.Fatalf("%v", u)
	}
}
'''))

bug(id='c07-codec-case', prop='C07',
 needs='a codec whose name contains the name of another codec',
 breaks='Codecs such as H264-SVC are taken for H264.',
 edits=[('rtpparser.go','''	switch codecName {
	case "H264":''','''	family := codecName
	if len(family) > 4 && family[0] == 'H' {
		family = family[:4]
	}
	switch family {
	case "H264":''')],
 demo=R('testing bytes time','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("H263-1998", "H264X")))
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	srv.send(demoFrame(2, false, 28, 5, 6))
	srv.send(demoFrame(2, false, 7))
	u := c.next(5 * time.Second)
	if u == nil || !bytes.Equal(u.Data, []byte{28, 5, 6}) {
		t.Fatalf("%v", u)
	}
}
'''))

bug(id='c08-exact-limit', prop='C08',
 needs='a fragmented unit within 12 bytes of 8 MiB',
 breaks='The assembly buffer is 12 bytes smaller than the limit that is checked.',
 edits=[('rtpparser.go','make([]byte, MaxPayloadLength)','make([]byte, MaxPayloadLength-RtpHeaderLen)')],
 demo=R('testing','''
func TestSeeded(t *testing.T) {
	p := newRtpParser("H264")
	left := MaxPayloadLength - 1
	first := true
	for left > 0 {
		n := 60000
		if n > left {
			n = left
		}
		fu := byte(5)
		if first {
			fu |= 0x80
		}
		left -= n
		if left == 0 {
			fu |= 0x40
		}
		first = false
		f := demoFrame(0, false, append([]byte{0x60 | 28, fu}, make([]byte, n)...)...)
		f2 := f[4:]
		h, pl := p.splitRtpPacket(f2)
		for {
			u, k := p.pushData(h, pl)
			if u != nil && left > 0 || u != nil && len(u) != MaxPayloadLength {
				t.Fatal("delivered early:", len(u))
			}
			if u == nil && left == 0 {
				t.Fatal("not delivered")
			}
			pl = pl[k:]
			if len(pl) == 0 {
				break
			}
		}
	}
}
'''))
