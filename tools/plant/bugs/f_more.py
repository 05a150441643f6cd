bug(id='c01-eof-state', prop='C01',
 needs='a header line that ends in a carriage return of its own before the line end',
 breaks='The end of the headers is looked for with a counter that starts from nothing after a mismatch, so two carriage returns in front of the last line ends hide it.',
 edits=[('tcpnetwork/tcpnetwork.go','''			curBodyPos++
			if curBodyPos < len(strEOF) {
				continue
			}
			if bytes.Compare(strEOF, buf[bufStartPos+curBodyPos-len(strEOF):bufStartPos+curBodyPos]) == 0 {
				break
			}
''','''			if buf[bufStartPos+curBodyPos] == strEOF[matched] {
				matched++
			} else {
				matched = 0
			}
			curBodyPos++
			if matched == len(strEOF) {
				break
			}
'''),('tcpnetwork/tcpnetwork.go','''		curBodyPos := 0
''','''		curBodyPos := 0
		matched := 0 // bytes of the end flag seen
'''),('tcpnetwork/tcpnetwork.go','''	"bytes"
''','')],
 demo=R('testing strings','''
func TestSeeded(t *testing.T) {
	std := demoStandard(demoSDP("PLAIN"))
	srv := demoServe(t, func(method, uri, cseq, request string) string {
		return strings.Replace(std(method, uri, cseq, request), "\\r\\n\\r\\n", "\\r\\nX-Note: a\\r\\r\\n\\r\\n", 1)
	})
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
}
'''))

bug(id='c01-full-frame', prop='C01',
 needs='an interleaved frame with the greatest length, 65535',
 breaks='A frame of the greatest length counts as too long and ends the connection.',
 edits=[('tcpnetwork/tcpnetwork.go','		if packetLength > connection.maxReadBufferLength {','		if packetLength >= connection.maxReadBufferLength {')],
 demo=R('testing time','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("PLAIN")))
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	srv.send(demoFrame(0, true, make([]byte, 65535-12)...))
	if u := c.next(2 * time.Second); u == nil || len(u.Data) != 65535-12 {
		t.Fatal("frame lost")
	}
}
'''))

bug(id='c01-eof-body', prop='C01',
 needs='a connection that ends within the body of a response',
 breaks='The end of the connection within a body is not taken for an error, and the unfinished response is delivered.',
 edits=[('tcpnetwork/tcpnetwork.go','''		err = connection.read(buf[bufStartPos : bufStartPos+contextLength])
		if err != nil {
''','''		err = connection.read(buf[bufStartPos : bufStartPos+contextLength])
		if err != nil && err != io.EOF {
'''),('tcpnetwork/tcpnetwork.go','''	"errors"
''','''	"errors"
	"io"
''')],
 demo='''package rtspclient

import (
	"net"
	"testing"
	"time"

	"github.com/NodeBoy2/rtspclient/tcpnetwork"
)

func TestSeeded(t *testing.T) {
	a, b := net.Pipe()
	events := make(chan *tcpnetwork.ConnEvent, 100)
	c := tcpnetwork.NewConnection(a, 10, func(e *tcpnetwork.ConnEvent) { events <- e })
	c.SetStreamProtocol(&RTPStreamProtocol{})
	c.Run()
	b.Write([]byte("RTSP/1.0 200 OK\\r\\nContent-Length: 10\\r\\n\\r\\nabc"))
	b.Close()
	for {
		select {
		case e := <-events:
			if e.EventType == tcpnetwork.ConnEventData {
				t.Fatalf("%q delivered", e.Data)
			}
			if e.EventType == tcpnetwork.ConnEventDisconnected {
				return
			}
		case <-time.After(5 * time.Second):
			t.Fatal("no end")
		}
	}
}
''')

bug(id='c02-paci', prop='C02',
 needs='a short packet with the payload header of H.265 type 50',
 breaks='Packets of type 50 carry a header of their own whose length is taken from the packet without looking whether the packet is that long.',
 edits=[('hevcrtpparser.go','''	case 48: // Aggregation Packet (AP)
		{
			// We skip over the 2-byte Payload Header, and the DONL header (if any).
			skipHeaderLen = 2
''','''	case 48, 50: // Aggregation Packet (AP), PACI
		{
			// We skip over the 2-byte Payload Header, and the DONL header (if any).
			skipHeaderLen = 2
			if packetNALUnitType == 50 {
				// and the payload header extension
				skipHeaderLen += 2 + int(rtpData[2]&0x0f)<<1
			}
''')],
 demo=R('testing time','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("H265")))
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	srv.send(demoFrame(0, true, 50<<1, 1, 0x0f))
	srv.send(demoFrame(0, true, 1<<1, 1, 9))
	for i := 0; i < 2; i++ {
		if u := c.next(2 * time.Second); u != nil && len(u.Data) == 3 && u.Data[2] == 9 {
			return
		}
	}
	t.Fatal("unit lost")
}
'''))

bug(id='c03-uint-length', prop='C03',
 needs='a Content-Length near 2 to the power of 64',
 breaks='The length is read as an unsigned number and becomes negative when it is stored.',
 edits=[('rtspparser.go','''			contentLength, err := strconv.Atoi(theValue)
			if nil != err || contentLength < 0 {
				return errors.New("content length error: " + theValue)
			}
			context.contentLength = contentLength
			if len(response)-rtspEndPos >= context.contentLength {
''','''			contentLength, err := strconv.ParseUint(theValue, 10, 64)
			if nil != err {
				return errors.New("content length error: " + theValue)
			}
			context.contentLength = int(contentLength)
			if len(response) >= rtspEndPos+context.contentLength {
''')],
 demo=R('testing','''
func TestSeeded(t *testing.T) {
	c := &RtspResponseContext{}
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	ParserRtspResponse([]byte("RTSP/1.0 200 OK\\r\\nContent-Length: 18446744073709551615\\r\\n\\r\\nabc"), c)
}
'''))

bug(id='c04-one-byte', prop='C04',
 needs='a unit of one byte (end of sequence) sent as a packet of its own',
 breaks='A unit of one byte is not delivered by itself but put in front of the next one.',
 edits=[('h264rtpparser.go','''			skipHeaderLen = 0
			isCompletesFrame = true
		}
		break
	case 24: // STAP-A
''','''			skipHeaderLen = 0
			isCompletesFrame = len(rtpData) > 1
		}
		break
	case 24: // STAP-A
''')],
 demo=R('testing time','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("H264")))
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	srv.send(demoFrame(0, true, 10))
	srv.send(demoFrame(0, true, 0x65, 1, 2))
	if u := c.next(2 * time.Second); u == nil || len(u.Data) != 1 {
		t.Fatal("end of sequence lost")
	}
	if u := c.next(2 * time.Second); u == nil || len(u.Data) != 3 {
		t.Fatal("unit lost")
	}
}
'''))

bug(id='c04-empty-last', prop='C04',
 needs='a last fragment without bytes',
 breaks='A last fragment without bytes does not end the unit.',
 edits=[('h264rtpparser.go','isCompletesFrame = (endBit != 0)','isCompletesFrame = (endBit != 0) && len(rtpData) > 2')],
 demo=R('testing time','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("H264")))
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	srv.send(demoFrame(0, false, 0x7c, 0x85, 1, 2))
	srv.send(demoFrame(0, true, 0x7c, 0x45))
	if u := c.next(2 * time.Second); u == nil || string(u.Data) != "\\x65\\x01\\x02" {
		t.Fatal("unit lost")
	}
}
'''))

bug(id='c05-layer', prop='C05',
 needs='a fragmented unit of a layer from 32 on',
 breaks='The highest bit of the layer number is lost when the header of a fragmented unit is rebuilt.',
 edits=[('hevcrtpparser.go','(rtpData[0] & 0x81)','(rtpData[0] & 0x80)')],
 demo=R('testing time','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("H265")))
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	srv.send(demoFrame(0, false, 49<<1|1, 1, 0x80|19, 7))
	srv.send(demoFrame(0, true, 49<<1|1, 1, 0x40|19, 8))
	if u := c.next(2 * time.Second); u == nil || string(u.Data) != string([]byte{19<<1 | 1, 1, 7, 8}) {
		t.Fatal("unit wrong")
	}
}
'''))

bug(id='c06-odd-channel', prop='C06',
 needs='a frame on a control channel',
 breaks='Frames on the odd channel of a media are taken for packets of the even one.',
 edits=[('rtspclient.go','channelNum := int(header[1])','channelNum := int(header[1] &^ 1)')],
 demo=R('testing time','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("PLAIN")))
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	srv.send(demoFrame(1, true, 1))
	srv.send(demoFrame(0, true, 2))
	if u := c.next(2 * time.Second); u == nil || u.Data[0] != 2 {
		t.Fatal("control packet delivered")
	}
}
'''))

bug(id='c07-empty-marker', prop='C07',
 needs='a packet of the marker-framed codec with the marker and no bytes',
 breaks='A packet without bytes does not end the frame.',
 edits=[('markrtpparser.go','isCompletesFrame = (mark == 1)','isCompletesFrame = (mark == 1) && len(src) > RtpHeaderLen')],
 demo=R('testing time','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("bbw")))
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	srv.send(demoFrame(0, false, 1))
	srv.send(demoFrame(0, true))
	if u := c.next(2 * time.Second); u == nil || string(u.Data) != "\\x01" {
		t.Fatal("unit lost")
	}
}
'''))

bug(id='c08-alias', prop='C08',
 needs='a unit above the limit whose first part the application keeps',
 breaks='The part handed over at the limit is the assembly buffer itself, which the next fragments overwrite.',
 edits=[('rtpparser.go','''		data := make([]byte, rtpParser.payloadLen)
		copy(data, rtpParser.payloadBuf[:rtpParser.payloadLen])

''','''		data := rtpParser.payloadBuf[:rtpParser.payloadLen]

''')],
 demo=R('testing','''
func TestSeeded(t *testing.T) {
	var got []*RtspData
	s := NewRtspClientSession(func(d *RtspData) { got = append(got, d) }, func(e *RtspEvent) {})
	s.rtpChannelMap[0] = newRtpParser("bbw")
	frame := func(marker bool, v byte) {
		p := make([]byte, 60000)
		for i := range p {
			p[i] = v
		}
		s.parsingRtp(demoFrame(0, marker, p...), s.rtpChannelMap)
	}
	for i := 0; i < 139; i++ {
		frame(false, 1)
	}
	frame(false, 2)
	frame(true, 2)
	if len(got) != 2 || got[0].Data[0] != 1 || got[1].Data[0] != 2 {
		t.Fatal("wrong bytes")
	}
}
'''))

bug(id='c09-session-prefix', prop='C09',
 needs='a response with another header whose name begins with Session',
 breaks='Every header whose name begins with Session is taken for the session identifier.',
 edits=[('rtspparser.go','theKey == strings.ToUpper(sSessionHeader)','strings.HasPrefix(theKey, strings.ToUpper(sSessionHeader))')],
 demo=R('testing','''
func TestSeeded(t *testing.T) {
	c := &RtspResponseContext{}
	ParserRtspResponse([]byte("RTSP/1.0 200 OK\\r\\nSession: 12\\r\\nSession-Expires: 90\\r\\n\\r\\n"), c)
	if c.sessionID != "12" {
		t.Fatal(c.sessionID)
	}
}
'''))

bug(id='c10-uri-query', prop='C10',
 needs='a digest challenge for a URL with a query',
 breaks='The query is left out of the hashed URI, but not of the one that is sent.',
 edits=[('authenticator.go','MD5StringToString(cmd+":"+url))','MD5StringToString(cmd+":"+strings.SplitN(url, "?", 2)[0]))'),
 ('authenticator.go','''	"fmt"
''','''	"fmt"
	"strings"
''')],
 demo=R('testing strings','''
func TestSeeded(t *testing.T) {
	a := NewAuthenticator()
	a.username, a.password, a.realm, a.nonce, a.authenicatorType = "u", "p", "r", "n", AuthenticatorTypeDigest
	want := MD5StringToString(MD5StringToString("u:r:p") + ":n:" + MD5StringToString("PLAY:rtsp://h/?a=1"))
	if s := a.createAuthenticatorString("PLAY", "rtsp://h/?a=1"); !strings.Contains(s, want) {
		t.Fatal(s)
	}
}
'''))

bug(id='c11-cached-answer', prop='C11',
 needs='a digest challenge and a second method for the same URL',
 breaks='The answer computed for a URL is used again for it, whatever the method.',
 edits=[('authenticator.go','''	authenicatorType int
}
''','''	authenicatorType int
	lastURL          string
	lastAnswer       string
}
'''),('authenticator.go','''	} else if authenticator.authenicatorType == AuthenticatorTypeDigest {
''','''	} else if authenticator.authenicatorType == AuthenticatorTypeDigest && authenticator.lastURL != url {
'''),('authenticator.go','''		authenticatorString = fmt.Sprintf(authenticatorString, authenticator.username, authenticator.realm, authenticator.nonce, url, strResponse)
''','''		authenticatorString = fmt.Sprintf(authenticatorString, authenticator.username, authenticator.realm, authenticator.nonce, url, strResponse)
		authenticator.lastURL, authenticator.lastAnswer = url, authenticatorString
	} else if authenticator.authenicatorType == AuthenticatorTypeDigest {
		authenticatorString = authenticator.lastAnswer
''')],
 demo=R('testing strings','''
func TestSeeded(t *testing.T) {
	a := NewAuthenticator()
	a.username, a.password, a.realm, a.nonce, a.authenicatorType = "u", "p", "r", "n", AuthenticatorTypeDigest
	a.createAuthenticatorString("DESCRIBE", "rtsp://h/")
	want := MD5StringToString(MD5StringToString("u:r:p") + ":n:" + MD5StringToString("PLAY:rtsp://h/"))
	if s := a.createAuthenticatorString("PLAY", "rtsp://h/"); !strings.Contains(s, want) {
		t.Fatal(s)
	}
}
'''))

bug(id='c12-escaped-user', prop='C12',
 needs='a user name or password with escaped characters',
 breaks='Escapes in the credentials of the URL are not resolved.',
 edits=[('rtspclient.go','''		session.username = urlInfo.User.Username()
		session.password, _ = urlInfo.User.Password()
''','''		credentials := strings.SplitN(urlInfo.User.String(), ":", 2)
		session.username = credentials[0]
		if len(credentials) > 1 {
			session.password = credentials[1]
		}
''')],
 demo=R('testing','''
func TestSeeded(t *testing.T) {
	s := newDemoClient().s
	if err := s.ParsingURL("rtsp://a%40b:p%2Fq@h/x"); err != nil || s.username != "a@b" || s.password != "p/q" {
		t.Fatal(err, s.username, s.password)
	}
}
'''))

bug(id='c13-range-day', prop='C13',
 needs='a start time of a day or more',
 breaks='The start time counts within a day.',
 edits=[('rtsprequest.go','''	if inStartTimeSec != 0 {
''','''	if inStartTimeSec %= 24 * 60 * 60; inStartTimeSec != 0 {
''')],
 demo=R('testing time strings','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("PLAIN")))
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	c.s.SendPlay(100000, 1)
	c.s.WaitRtspResponse()
	time.Sleep(50 * time.Millisecond)
	r := srv.requests()
	if last := r[len(r)-1]; !strings.Contains(last, "npt=100000") {
		t.Fatal(last)
	}
}
'''))

bug(id='c14-early-release', prop='C14',
 needs='a request sent when the reply to the previous one has arrived but has not been taken yet',
 breaks='A request counts as answered as soon as its reply is read from the connection; a request sent then throws the reply away.',
 edits=[('rtspclient.go','''	rtspResponseContext := &RtspResponseContext{}
	err := ParserRtspResponse(data, rtspResponseContext)
''','''	rtspResponseContext := &RtspResponseContext{}
	session.rtspRequestInitial = true
	err := ParserRtspResponse(data, rtspResponseContext)
'''),('rtspclient.go','''	log.Print(string(data))
''','''	log.Print("response: ", string(data))
''')],
 demo=R('testing time','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("PLAIN")))
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	if err := c.s.SendPause(); err != nil {
		t.Fatal(err)
	}
	time.Sleep(300 * time.Millisecond)
	if err := c.s.SendPlay(0, 1); err == nil {
		t.Fatal("accepted")
	}
}
'''))

bug(id='c15-setup-last', prop='C15',
 needs='two medias, the first of which the server refuses',
 breaks='Only the answer to the last SETUP is looked at.',
 edits=[('rtspclient.go','''		if 200 != response.Status {
			return errors.New("response error: " + strconv.Itoa(response.Status))
		}
		if "" != response.sessionID {
''','''		if 200 != response.Status && index == len(session.sdpInfo.Medias)-1 {
			return errors.New("response error: " + strconv.Itoa(response.Status))
		}
		if "" != response.sessionID {
''')],
 demo=R('testing strings','''
func TestSeeded(t *testing.T) {
	std := demoStandard(demoSDP("PLAIN", "PLAIN"))
	srv := demoServe(t, func(method, uri, cseq, request string) string {
		if method == "SETUP" && strings.HasSuffix(uri, "track0") {
			return demoAnswer(cseq, "461 Unsupported transport", "", "")
		}
		return std(method, uri, cseq, request)
	})
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err == nil {
		t.Fatal("success")
	}
}
'''))

bug(id='c15-early-success', prop='C15',
 needs='a server that refuses PLAY',
 breaks='Success is reported although PLAY was refused.',
 edits=[('rtspclient.go','''	session.SendPlay(0, 1)
	response, errorInfo = session.WaitRtspResponse()
	if nil != errorInfo {
		return errorInfo
	}
''','''	session.SendPlay(0, 1)
	response, errorInfo = session.WaitRtspResponse()
	if nil != errorInfo {
		return errorInfo
	}
	sendRequestSuccess = true
'''),('rtspclient.go','''	sendRequestSuccess = true
	return nil
''','''	return nil
''')],
 demo=R('testing time','''
func TestSeeded(t *testing.T) {
	std := demoStandard(demoSDP("PLAIN"))
	srv := demoServe(t, func(method, uri, cseq, request string) string {
		if method == "PLAY" {
			return demoAnswer(cseq, "454 Session Not Found", "", "")
		}
		return std(method, uri, cseq, request)
	})
	c := newDemoClient()
	c.s.Play(srv.url("/x"))
	select {
	case e := <-c.events:
		if e.EventType != RtspEventRequestError {
			t.Fatal(e.EventType)
		}
	case <-time.After(time.Second):
		t.Fatal("no event")
	}
}
'''))

bug(id='c16-quiet-disconnect', prop='C16',
 needs='a disconnection while a request is waiting for its reply',
 breaks='A disconnection is not reported when a request is outstanding.',
 edits=[('rtspclient.go','''				log.Printf("conntion disconnected.")
				session.sendEvent(RtspEventDisconnected, nil)
''','''				log.Printf("conntion disconnected.")
				if session.rtspRequestInitial {
					// a waiting request reports the error
					session.sendEvent(RtspEventDisconnected, nil)
				}
''')],
 demo=R('testing time','''
func TestSeeded(t *testing.T) {
	var srv *demoServer
	std := demoStandard(demoSDP("PLAIN"))
	srv = demoServe(t, func(method, uri, cseq, request string) string {
		if method == "SETUP" {
			srv.conn.Close()
			return ""
		}
		return std(method, uri, cseq, request)
	})
	c := newDemoClient()
	c.s.Play(srv.url("/x"))
	end := time.After(2 * time.Second)
	for {
		select {
		case e := <-c.events:
			if e.EventType == RtspEventDisconnected {
				return
			}
		case <-end:
			t.Fatal("no event")
		}
	}
}
'''))

bug(id='c17-async-connected', prop='C17', pkg='tcpnetwork',
 needs='a peer that sends at once and a slow handler of events',
 breaks='The connected event is raised by a goroutine of its own and may come behind data.',
 edits=[('tcpnetwork/tcpnetwork.go','''	connection.pushEvent(ConnEventConnected, nil)
''','''	go connection.pushEvent(ConnEventConnected, nil)
''')],
 demo=T('testing time net','''
func TestSeeded(t *testing.T) {
	for i := 0; i < 300; i++ {
		a, b := net.Pipe()
		events := make(chan *ConnEvent, 100)
		c := NewConnection(a, 10, func(e *ConnEvent) { events <- e })
		c.SetStreamProtocol(&demoProtocol{})
		go b.Write([]byte{1, 7})
		c.Run()
		select {
		case e := <-events:
			if e.EventType != ConnEventConnected {
				t.Fatal(e.EventType)
			}
		case <-time.After(5 * time.Second):
			t.Fatal("no event")
		}
		b.Close()
	}
}
'''))

bug(id='c18-copy-large', prop='C18', pkg='tcpnetwork',
 needs='a large message sent with copy requested, whose buffer is changed afterwards',
 breaks='Only messages up to 1500 bytes are copied.',
 edits=[('tcpnetwork/tcpnetwork.go','	if needCopy {','	if needCopy && len(msg) <= 1500 {')],
 demo=T('testing io','''
func TestSeeded(t *testing.T) {
	p := &demoProtocol{gate: make(chan int)}
	c, peer, events := demoConnection(p)
	c.Run()
	<-events
	msg := make([]byte, 2000)
	c.Send(msg, true)
	msg[1999] = 1
	go func() { p.gate <- 1 }()
	b := make([]byte, 2000)
	if _, err := io.ReadFull(peer, b); err != nil || b[1999] != 0 {
		t.Fatal(err, b[1999])
	}
}
'''))

bug(id='c19-default-clock', prop='C19',
 needs='an rtpmap line without a clock rate',
 breaks='A clock rate that is not specified is reported as 90000.',
 edits=[('sdpparser.go','timestampFrequency := -1','timestampFrequency := 90000')],
 demo=R('testing','''
func TestSeeded(t *testing.T) {
	s := parsingSDP("v=0\\r\\no=- 1 1 IN IP4 1.1.1.1\\r\\ns=x\\r\\nt=0 0\\r\\nm=audio 0 RTP/AVP 96\\r\\na=rtpmap:96 X-REAL\\r\\n")
	if s == nil || s.Medias[0].CodecName != "X-REAL" || s.Medias[0].RtpTimestampFrequency != -1 {
		t.Fatal(s)
	}
}
'''))

bug(id='c20-many-medias', prop='C20',
 needs='a description of more than sixteen medias',
 breaks='There is room for sixteen medias; a description of more ends the process.',
 edits=[('sdpparser.go','''	sdpInfo := &SDPInfo{Medias: make([]MediaSubsession, len(sdpMessage.Medias))}
''','''	medias := make([]MediaSubsession, 16)
	sdpInfo := &SDPInfo{Medias: medias[:len(sdpMessage.Medias)]}
''')],
 demo=R('testing strings','''
func TestSeeded(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	parsingSDP("v=0\\r\\no=- 1 1 IN IP4 1.1.1.1\\r\\ns=x\\r\\nt=0 0\\r\\n" + strings.Repeat("m=audio 0 RTP/AVP 0\\r\\n", 40))
}
'''))

bug(id='c21-no-type', prop='C21', pkg='sdp',
 needs='a line that begins with the equals sign',
 breaks='The type is taken from in front of the equals sign, and there may be nothing.',
 edits=[('sdp/sdp.go','''	r, _ := utf8.DecodeRune(b[:delimiter])
	l.Type = Type(r)
''','''	r, _ := utf8.DecodeRune(b)
	if utf8.RuneLen(r) != delimiter && b[delimiter-1] < utf8.RuneSelf {
		// the character next to the delimiter counts
		r = rune(b[delimiter-1])
	}
	l.Type = Type(r)
''')],
 demo=D('testing','''
func TestSeeded(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	DecodeSession([]byte("v=0\\n=x\\n"), nil)
}
'''))

bug(id='c23-first-repeat', prop='C23', pkg='sdp',
 needs='several timings of which a later one has repeats',
 breaks='Repeats are added to the first timing.',
 edits=[('sdp/decoder.go','''	t := m.Timing[len(m.Timing)-1]
''','''	t := m.Timing[0]
'''),('sdp/decoder.go','''	m.Timing[len(m.Timing)-1] = t
''','''	m.Timing[0] = t
''')],
 demo=D('testing time','''
func TestSeeded(t *testing.T) {
	m := &Message{Name: "x", Origin: Origin{Username: "-", Address: "1.1.1.1"}, Timing: []Timing{{}, {Start: NTPToTime(2873397496), End: NTPToTime(2873404696), Repeat: time.Hour, Active: time.Minute, Offsets: []time.Duration{time.Second}}}}
	d := NewDecoder(m.Append(nil))
	var b Message
	if err := d.Decode(&b); err != nil || len(b.Timing) != 2 || b.Timing[1].Repeat != time.Hour || b.Timing[0].Repeat != 0 {
		t.Fatal(err, b.Timing)
	}
}
'''))

bug(id='c24-bandwidth-clamp', prop='C24', pkg='sdp',
 needs='a bandwidth of 2 to the power of 31 or more',
 breaks='A bandwidth above 32 bits is silently replaced by the greatest one.',
 edits=[('sdp/decoder.go','''	if n, err = strconv.Atoi(v); err != nil {
''','''	n32, err := strconv.ParseInt(v, 10, 32)
	n = int(n32)
	if numError, ok := err.(*strconv.NumError); ok && numError.Err != strconv.ErrRange {
''')],
 demo=D('testing','''
func TestSeeded(t *testing.T) {
	s, _ := DecodeSession([]byte("v=0\\no=- 1 1 IN IP4 1.1.1.1\\ns=x\\nb=AS:3000000000\\nt=0 0\\n"), nil)
	d := NewDecoder(s)
	var m Message
	if err := d.Decode(&m); err == nil && m.Bandwidths["AS"] != 3000000000 {
		t.Fatal(m.Bandwidths)
	}
}
'''))

bug(id='c24-version-prefix', prop='C24', pkg='sdp',
 needs='a version with something behind its digits',
 breaks='What stands behind the digits of the version is ignored.',
 edits=[('sdp/decoder.go','''	n, err := strconv.Atoi(string(d.v))
''','''	var n int
	_, err := fmt.Sscanf(string(d.v), "%d", &n)
''')],
 demo=D('testing','''
func TestSeeded(t *testing.T) {
	s, _ := DecodeSession([]byte("v=1x\\no=- 1 1 IN IP4 1.1.1.1\\ns=x\\nt=0 0\\n"), nil)
	d := NewDecoder(s)
	var m Message
	if err := d.Decode(&m); err == nil {
		t.Fatal("accepted")
	}
}
'''))

bug(id='c26-epoch', prop='C26', pkg='sdp',
 needs='the first second of 1970',
 breaks='The start of the Unix era counts as no time.',
 edits=[('sdp/fields.go','''	if t.IsZero() {
		return 0
''','''	if t.IsZero() || t.Unix() == 0 {
		return 0
''')],
 demo=D('testing time','''
func TestSeeded(t *testing.T) {
	if v := TimeToNTP(time.Unix(0, 0)); v != 2208988800 {
		t.Fatal(v)
	}
}
'''))

bug(id='c27-ten-digits', prop='C27', pkg='sdp',
 needs='a number of more than ten digits',
 breaks='There is room for ten digits, and a longer number ends in a panic.',
 edits=[('sdp/fields.go','	var b [20]byte','	var b [10]byte // 32 bits')],
 demo=D('testing','''
func TestSeeded(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	if s := (Session{}).AddOrigin(Origin{Username: "-", SessionID: 12345678901}); string(s[0].Value[:14]) != "- 12345678901 " {
		t.Fatal(string(s[0].Value))
	}
}
'''))

bug(id='c28-text-skipped', prop='C28',
 needs='a text message',
 breaks='Text messages are skipped.',
 edits=[('websocketconn.go','''func (conn *WebsocketConn) Read(b []byte) (int, error) {
	for len(conn.rest) == 0 {
		_, message, err := conn.conn.ReadMessage()
		if nil != err {
			return 0, err
		}
		conn.rest = message
''','''func (conn *WebsocketConn) Read(b []byte) (n int, err error) {
	for len(conn.rest) == 0 {
		messageType, message, err := conn.conn.ReadMessage()
		if nil != err {
			return 0, err
		}
		if websocket.BinaryMessage == messageType {
			conn.rest = message
		}
'''),('websocketconn.go','''	n := copy(b, conn.rest)
''','''	n = copy(b, conn.rest)
''')],
 demo='''package rtspclient

import (
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/gorilla/websocket"
)

func TestSeeded(t *testing.T) {
	up := websocket.Upgrader{CheckOrigin: func(r *http.Request) bool { return true }}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		c, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		c.WriteMessage(websocket.TextMessage, []byte("RTSP"))
		c.WriteMessage(websocket.BinaryMessage, []byte{1})
		time.Sleep(time.Second)
	}))
	c, _, err := websocket.DefaultDialer.Dial("ws"+strings.TrimPrefix(srv.URL, "http"), nil)
	if err != nil {
		t.Fatal(err)
	}
	conn := &WebsocketConn{conn: c}
	b := make([]byte, 10)
	n, err := conn.Read(b)
	if err != nil || string(b[:n]) != "RTSP" {
		t.Fatal(n, err)
	}
}
''')

bug(id='c30-fresh-queue', prop='C30', pkg='tcpnetwork',
 needs='a message sent before the routine of the connection runs',
 breaks='The queue is made anew when the routine of the connection starts; what was queued before that is lost.',
 edits=[('tcpnetwork/tcpnetwork.go','''	connection.streamProtocol.Init()

	// connected
''','''	connection.streamProtocol.Init()
	if 0 == connection.sendBufferSize {
		connection.sendBufferSize = 1
	}
	connection.sendMsgQueue = make(chan []byte, connection.sendBufferSize)

	// connected
'''),('tcpnetwork/tcpnetwork.go','''		sendMsgQueue:        make(chan []byte, sendBufferSize),
''','''		sendMsgQueue:        make(chan []byte, sendBufferSize), // until it runs
''')],
 demo=T('testing io time net runtime','''
func TestSeeded(t *testing.T) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	a, b := net.Pipe()
	c := NewConnection(a, 10, func(e *ConnEvent) {})
	c.SetStreamProtocol(&demoProtocol{})
	c.Run()
	c.Send([]byte("x"), true)
	b.SetReadDeadline(time.Now().Add(2 * time.Second))
	x := make([]byte, 1)
	if _, err := io.ReadFull(b, x); err != nil {
		t.Fatal(err)
	}
}
'''))
