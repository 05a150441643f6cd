
bug(id='c34-parser-kept', prop='C34',
 needs='a session that ends within a unit, and another one of the same codec on the same object',
 breaks='The assembly state of a channel is kept from one session to the next.',
 edits=[('rtspclient.go','''	rtpProtocol        *RTPStreamProtocol
''','''	rtpParsers         map[string]*RtpParser
	rtpProtocol        *RTPStreamProtocol
'''),('rtspclient.go','''		session.rtpChannelMap[rtpIndex] = newRtpParser(media.CodecName)
''','''		parserKey := strconv.Itoa(rtpIndex) + media.CodecName
		if nil == session.rtpParsers[parserKey] {
			if nil == session.rtpParsers {
				session.rtpParsers = make(map[string]*RtpParser)
			}
			session.rtpParsers[parserKey] = newRtpParser(media.CodecName)
		}
		session.rtpChannelMap[rtpIndex] = session.rtpParsers[parserKey]
''')],
 demo=R('testing bytes time','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("H264")))
	go func() {
		for range srv.gone {
		}
	}()
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	srv.send(demoFrame(0, false, 0x7c, 0x85, 1, 2, 3))
	time.Sleep(300 * time.Millisecond)
	c.s.Close()
	time.Sleep(500 * time.Millisecond)
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	srv.send(demoFrame(0, true, 0x65, 9))
	if u := c.next(5 * time.Second); u == nil || !bytes.Equal(u.Data, []byte{0x65, 9}) {
		t.Fatal("wrong unit")
	}
}
'''))
bug(id='c34-base-url', prop='C34',
 needs='a session object used for a second URL',
 breaks='Tracks are set up under the URL of the first session.',
 edits=[('rtspclient.go','''	rtpProtocol        *RTPStreamProtocol
''','''	baseURL            string
	rtpProtocol        *RTPStreamProtocol
'''),('rtspclient.go','''			strTrackURL = session.rtspContext.rtspURL + "/" + strTrackURL
''','''			if "" == session.baseURL {
				session.baseURL = strings.TrimSuffix(session.rtspContext.rtspURL+"/", "//")
				session.baseURL = session.rtspContext.rtspURL + "/"
			}
			strTrackURL = session.baseURL + strTrackURL
''')],
 demo=R('testing strings time','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("H264")))
	go func() {
		for range srv.gone {
		}
	}()
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	c.s.Close()
	time.Sleep(500 * time.Millisecond)
	n := len(srv.requests())
	if err := c.s.Play(srv.url("/y")); err != nil {
		t.Fatal(err)
	}
	for _, r := range srv.requests()[n:] {
		if strings.HasPrefix(r, "SETUP") && !strings.Contains(r, "/y/") {
			t.Fatal(r)
		}
	}
}
'''))
bug(id='c35-hash-by-realm', prop='C35',
 needs='two sessions with different users in the same realm',
 breaks='The hash of user and password is kept per realm for the whole process.',
 edits=[('authenticator.go','''func (authenticator *Authenticator) createAuthenticatorString(cmd, url string) string {
''','''var userHashes sync.Map // of realms

func (authenticator *Authenticator) userHash() string {
	hash, ok := userHashes.Load(authenticator.realm)
	if !ok {
		hash = MD5StringToString(authenticator.username + ":" + authenticator.realm + ":" + authenticator.password)
		userHashes.Store(authenticator.realm, hash)
	}
	return hash.(string)
}

func (authenticator *Authenticator) createAuthenticatorString(cmd, url string) string {
'''),('authenticator.go','''MD5StringToString(MD5StringToString(authenticator.username+":"+authenticator.realm+":"+authenticator.password) + ":"''','''MD5StringToString(authenticator.userHash() + ":"'''),('authenticator.go','''	"fmt"
''','''	"fmt"
	"sync"
''')],
 demo=R('testing','''
func TestSeeded(t *testing.T) {
	make := func(user, pass string) *Authenticator {
		a := NewAuthenticator()
		a.authenicatorType, a.realm, a.nonce, a.username, a.password = AuthenticatorTypeDigest, "r", "n", user, pass
		return a
	}
	make("a", "b").createAuthenticatorString("PLAY", "rtsp://h/p")
	want := "Authorization: Digest username=\\"c\\", realm=\\"r\\", nonce=\\"n\\", uri=\\"rtsp://h/p\\", response=\\"" + MD5StringToString(MD5StringToString("c:r:d")+":n:"+MD5StringToString("PLAY:rtsp://h/p")) + "\\"\\r\\n"
	if got := make("c", "d").createAuthenticatorString("PLAY", "rtsp://h/p"); got != want {
		t.Fatal(got)
	}
}
'''))
bug(id='c35-shared-read-buffer', prop='C35', pkg='',
 needs='two connections that both receive messages in several pieces at the same time',
 breaks='Connections share one read buffer.',
 edits=[('tcpnetwork/tcpnetwork.go','''	// default buffer
	buf := make([]byte, connection.streamProtocol.GetHeaderLength()+connection.maxReadBufferLength)
''','''	// buffer for one message
	buf := sharedReadBuffer[:connection.streamProtocol.GetHeaderLength()+connection.maxReadBufferLength]
'''),('tcpnetwork/tcpnetwork.go','''// NewConnection create a Connection
''','''// messages are copied out of it
var sharedReadBuffer = make([]byte, connConfMaxReadBufferLength+16)

// NewConnection create a Connection
''')],
 demo=R('testing bytes time','''
func TestSeeded(t *testing.T) {
	var srv [2]*demoServer
	var c [2]*demoClient
	for i := range srv {
		srv[i] = demoServe(t, demoStandard(demoSDP("PLAIN")))
		c[i] = newDemoClient()
		if err := c[i].s.Play(srv[i].url("/x")); err != nil {
			t.Fatal(err)
		}
	}
	a, b := demoFrame(0, true, bytes.Repeat([]byte{1}, 500)...), demoFrame(0, true, bytes.Repeat([]byte{2}, 500)...)
	srv[0].send(a[:300])
	time.Sleep(300 * time.Millisecond)
	srv[1].send(b[:300])
	time.Sleep(300 * time.Millisecond)
	srv[0].send(a[300:])
	srv[1].send(b[300:])
	for i := range c {
		if u := c[i].next(5 * time.Second); u == nil || !bytes.Equal(u.Data, bytes.Repeat([]byte{byte(i + 1)}, 500)) {
			t.Fatal("wrong unit")
		}
	}
}
'''))
bug(id='c35-parser-by-track', prop='C35',
 needs='two sessions of the same track at the same time',
 breaks='Sessions that play the same track share its assembly state.',
 edits=[('rtspclient.go','''		session.rtpChannelMap[rtpIndex] = newRtpParser(media.CodecName)
''','''		session.rtpChannelMap[rtpIndex] = trackParser(strTrackURL, media.CodecName)
'''),('rtspclient.go','''func newRtspEvent(''','''var trackParsers sync.Map

// trackParser saves the buffer of a track that is played again
func trackParser(url, codec string) *RtpParser {
	parser, ok := trackParsers.Load(url + " " + codec)
	if !ok || parser.(*RtpParser).payloadLen == 0 && codec == "bbw" {
		parser = newRtpParser(codec)
		trackParsers.Store(url+" "+codec, parser)
	}
	return parser.(*RtpParser)
}

func newRtspEvent(''')],
 demo=R('testing bytes time','''
func TestSeeded(t *testing.T) {
	var srv [2]*demoServer
	var c [2]*demoClient
	for i := range c {
		srv[i] = demoServe(t, demoStandard("v=0\\r\\no=- 1 1 IN IP4 1.2.3.4\\r\\ns=x\\r\\nt=0 0\\r\\nm=video 0 RTP/AVP 96\\r\\na=rtpmap:96 H264/90000\\r\\na=control:rtsp://camera/1\\r\\n"))
		c[i] = newDemoClient()
		if err := c[i].s.Play(srv[i].url("/x")); err != nil {
			t.Fatal(err)
		}
		if i == 0 {
			srv[0].send(demoFrame(0, false, 0x7c, 0x85, 1, 2, 3))
			time.Sleep(300 * time.Millisecond)
		}
	}
	srv[1].send(demoFrame(0, true, 0x65, 9))
	if u := c[1].next(5 * time.Second); u == nil || !bytes.Equal(u.Data, []byte{0x65, 9}) {
		t.Fatal("wrong unit")
	}
}
'''))
