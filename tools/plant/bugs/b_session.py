bug(id='c03-status-width', prop='C03',
 needs='a response whose first line has no space',
 breaks='The status is looked for behind the first space, and there may be none.',
 edits=[('rtspparser.go','''	strStatus := string(response[len("RTSP/1.0 ") : len("RTSP/1.0 ")+3]) // skip past RTSP/1.0
''','''	strStatus := strings.Split(string(rtspResponse), " ")[1] // skip past RTSP/1.0
''')],
 demo=R('testing','''
func TestSeeded(t *testing.T) {
	for _, s := range []string{"RTSP/1.0 200 OK\\r\\n\\r\\n", "RTSP/1.0\\tOK\\r\\nA:b\\r\\n\\r\\n"} {
		c := &RtspResponseContext{}
		func() {
			defer func() {
				if e := recover(); e != nil {
					t.Errorf("%q: %v", s, e)
				}
			}()
			ParserRtspResponse([]byte(s), c)
		}()
	}
}
'''))

bug(id='c09-blank-line-in-body', prop='C09',
 needs='a body that contains an empty line',
 breaks='The last empty line of the message is taken for the end of the headers, so the body is lost.',
 edits=[('rtspparser.go','rtspEndPos := strings.Index(string(response), "\\r\\n\\r\\n")','rtspEndPos := strings.LastIndex(string(response), "\\r\\n\\r\\n")')],
 demo=R('testing','''
func TestSeeded(t *testing.T) {
	c := &RtspResponseContext{}
	body := "v=0\\r\\n\\r\\ns=x"
	err := ParserRtspResponse([]byte("RTSP/1.0 200 OK\\r\\nContent-Length: 10\\r\\n\\r\\n"+body), c)
	if err != nil || c.content != body {
		t.Fatalf("%v %q", err, c.content)
	}
}
'''))

bug(id='c09-length-first', prop='C09',
 needs='a response whose Content-Length header comes before its Session header',
 breaks='The session of a response with a body is ignored when it comes behind the length.',
 edits=[('rtspparser.go','} else if theKey == strings.ToUpper(sSessionHeader) {','} else if theKey == strings.ToUpper(sSessionHeader) && "" == context.content {')],
 demo=R('testing','''
func TestSeeded(t *testing.T) {
	c := &RtspResponseContext{}
	err := ParserRtspResponse([]byte("RTSP/1.0 200 OK\\r\\nContent-Length: 3\\r\\nSession: 12\\r\\n\\r\\nabc"), c)
	if err != nil || c.content != "abc" || c.sessionID != "12" {
		t.Fatalf("%v %v", err, c)
	}
}
'''))

bug(id='c10-url-base64', prop='C10',
 needs='credentials whose base64 form contains + or /',
 breaks='Basic credentials use the wrong alphabet.',
 edits=[('authenticator.go','base64.StdEncoding','base64.URLEncoding')],
 demo=R('testing','''
func TestSeeded(t *testing.T) {
	a := NewAuthenticator()
	a.username, a.password, a.authenicatorType = "a", "??>", AuthenticatorTypeBasic
	if s := a.createAuthenticatorString("DESCRIBE", "rtsp://h/"); s != "Authorization: Basic YTo/Pz4=\\r\\n" {
		t.Fatalf("%q", s)
	}
}
'''))

bug(id='c10-realm-percent', prop='C10',
 needs='a realm or nonce that contains a percent sign',
 breaks='Texts of the server are used as format strings.',
 edits=[('authenticator.go','''		authenticatorString = fmt.Sprintf(authenticatorString, authenticator.username, authenticator.realm, authenticator.nonce, url, strResponse)
''','''		challenge := fmt.Sprintf("realm=\\"%s\\", nonce=\\"%s\\"", authenticator.realm, authenticator.nonce)
		authenticatorString = fmt.Sprintf("Authorization: Digest username=\\"%s\\", "+challenge+", uri=\\"%s\\", response=\\"%s\\"\\r\\n", authenticator.username, url, strResponse)
''')],
 demo=R('testing strings','''
func TestSeeded(t *testing.T) {
	a := NewAuthenticator()
	a.username, a.password, a.realm, a.nonce, a.authenicatorType = "u", "p", "100%d", "n", AuthenticatorTypeDigest
	if s := a.createAuthenticatorString("DESCRIBE", "rtsp://h/"); !strings.Contains(s, "realm=\\"100%d\\"") || !strings.Contains(s, "uri=\\"rtsp://h/\\"") {
		t.Fatalf("%q", s)
	}
}
'''))

bug(id='c11-retry-loop', prop='C11',
 needs='a server that answers 401 to the authorized DESCRIBE too',
 breaks='DESCRIBE is retried a second time after a second 401.',
 edits=[('rtspclient.go','''	if 401 == response.Status && session.username != "" && session.password != "" {
''','''	for retry := 0; retry < 2 && 401 == response.Status && session.username != "" && session.password != ""; retry++ {
''')],
 demo=R('testing strings fmt','''
func TestSeeded(t *testing.T) {
	n := 0
	srv := demoServe(t, func(method, uri, cseq, request string) string {
		n++
		return demoAnswer(cseq, "401 Unauthorized", "WWW-Authenticate: Digest realm=\\"r\\", nonce=\\""+strings.Repeat("x", n)+"\\"\\r\\n", "")
	})
	c := newDemoClient()
	if err := c.s.Play(fmt.Sprintf("rtsp://u:p@127.0.0.1:%d/x", srv.port())); err == nil {
		t.Fatal("no error")
	}
	d := 0
	for _, r := range srv.requests() {
		if strings.HasPrefix(r, "DESCRIBE") {
			d++
		}
	}
	if d != 2 {
		t.Fatal(d, "times")
	}
}
'''))

bug(id='c11-stale-authenticator', prop='C11',
 needs='a session played twice, the first time with authorization',
 breaks='The authorization of an earlier play is sent to the next server without a challenge.',
 edits=[('rtspclient.go','''	session.sdpInfo = nil
	session.rtspContext.authenicator = nil
''','''	if nil != session.sdpInfo {
		session.sdpInfo = nil
	} else {
		session.rtspContext.authenicator = nil
	}
''')],
 demo=R('testing strings fmt time','''
func TestSeeded(t *testing.T) {
	std := demoStandard(demoSDP("PLAIN"))
	srv := demoServe(t, func(method, uri, cseq, request string) string {
		if strings.Contains(request, "Authorization") {
			return std(method, uri, cseq, request)
		}
		return demoAnswer(cseq, "401 Unauthorized", "WWW-Authenticate: Basic realm=\\"r\\"\\r\\n", "")
	})
	other := demoServe(t, std)
	c := newDemoClient()
	if err := c.s.Play(fmt.Sprintf("rtsp://u:p@127.0.0.1:%d/x", srv.port())); err != nil {
		t.Fatal(err)
	}
	c.s.Close()
	<-srv.gone
	time.Sleep(100 * time.Millisecond)
	if err := c.s.Play(other.url("/x")); err != nil {
		t.Fatal(err)
	}
	for _, r := range other.requests() {
		if strings.Contains(r, "Authorization") {
			t.Fatal("authorization sent without a challenge:", r)
		}
	}
}
'''))

bug(id='c12-path-unescaped', prop='C12',
 needs='a URL whose path contains escaped characters',
 breaks='The request URI carries the decoded path.',
 edits=[('rtspclient.go','''	session.rtspContext.rtspURL = urlInfo.String()
''','''	session.rtspContext.rtspURL = urlInfo.Scheme + "://" + urlInfo.Host + urlInfo.Path
	if "" != urlInfo.RawQuery {
		session.rtspContext.rtspURL += "?" + urlInfo.RawQuery
	}
''')],
 demo=R('testing','''
func TestSeeded(t *testing.T) {
	s := NewRtspClientSession(nil, nil)
	if err := s.ParsingURL("rtsp://u:p@h/a%20b?c=%20"); err != nil || s.rtspContext.rtspURL != "rtsp://h/a%20b?c=%20" {
		t.Fatal(err, s.rtspContext.rtspURL)
	}
}
'''))

bug(id='c12-password-only', prop='C12',
 needs='a URL whose password contains escaped characters',
 breaks='The password is taken in its escaped form.',
 edits=[('rtspclient.go','''		session.password, _ = urlInfo.User.Password()
''','''		userInfo := urlInfo.User.String()
		if index := strings.Index(userInfo, ":"); index != -1 {
			session.password = userInfo[index+1:]
		}
''')],
 demo=R('testing','''
func TestSeeded(t *testing.T) {
	s := NewRtspClientSession(nil, nil)
	if err := s.ParsingURL("rtsp://u:p%40q@h/"); err != nil || s.username != "u" || s.password != "p@q" {
		t.Fatal(err, s.username, s.password)
	}
}
'''))

bug(id='c13-slow-speed', prop='C13',
 needs='a play with a speed below 1',
 breaks='The Speed header is left out for backward or paused play.',
 edits=[('rtsprequest.go','if inSpeed != 1 {','if inSpeed > 1 {')],
 demo=R('testing strings','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("PLAIN")))
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	if err := c.s.SendPlay(0, -2); err != nil {
		t.Fatal(err)
	}
	if _, err := c.s.WaitRtspResponse(); err != nil {
		t.Fatal(err)
	}
	r := srv.requests()
	if !strings.Contains(r[len(r)-1], "Speed: -2") {
		t.Fatal(r[len(r)-1])
	}
}
'''))

bug(id='c13-cseq-byte', prop='C13',
 needs='more than 255 requests in one session',
 breaks='CSeq starts again after 255 requests.',
 edits=[('rtsprequest.go','''	session.rtspContext.cseq++
''','''	session.rtspContext.cseq = int(uint8(session.rtspContext.cseq + 1))
''')],
 demo=R('testing strings','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("PLAIN")))
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 260; i++ {
		if err := c.s.SendPause(); err != nil {
			t.Fatal(err)
		}
		if _, err := c.s.WaitRtspResponse(); err != nil {
			t.Fatal(err)
		}
	}
	r := srv.requests()
	if !strings.Contains(r[len(r)-1], "CSeq: 262\\r\\n") {
		t.Fatal(r[len(r)-1])
	}
}
'''))

bug(id='c14-wait-failed', prop='C14',
 needs='a reply that cannot be understood',
 breaks='After a reply that could not be parsed every further request is refused.',
 edits=[('rtspclient.go','''	defer func() {
		session.rtspRequestInitial = true
	}()

	select {''','''	var received *RtspResponseContext
	defer func() {
		if nil != received || tcpnetwork.ConnStatusConnected != session.tcpConn.GetStatus() {
			session.rtspRequestInitial = true
		}
	}()

	select {'''),('rtspclient.go','''				return nil, errors.New("parsing rtsp response error")
			}
''','''				return nil, errors.New("parsing rtsp response error")
			}
			received = response
''')],
 demo=R('testing','''
func TestSeeded(t *testing.T) {
	std := demoStandard(demoSDP("PLAIN"))
	srv := demoServe(t, func(method, uri, cseq, request string) string {
		if method == "PAUSE" {
			return "RTSP/1.0 200 OK\\r\\nContent-Length: -1\\r\\n\\r\\n"
		}
		return std(method, uri, cseq, request)
	})
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	if err := c.s.SendPause(); err != nil {
		t.Fatal(err)
	}
	if _, err := c.s.WaitRtspResponse(); err == nil {
		t.Fatal("no error")
	}
	if err := c.s.SendPlay(0, 1); err != nil {
		t.Fatal(err)
	}
}
'''))

bug(id='c14-pause-allowed', prop='C14',
 needs='a PAUSE while the reply to another request is awaited',
 breaks='PAUSE is sent although a reply is awaited.',
 edits=[('rtsprequest.go','''func (session *RtspClientSession) SendPause() error {
	if !session.rtspRequestInitial {
''','''func (session *RtspClientSession) SendPause() error {
	if !session.rtspRequestInitial && "" == session.rtspContext.sessionID {
''')],
 demo=R('testing','''
func TestSeeded(t *testing.T) {
	std := demoStandard(demoSDP("PLAIN"))
	srv := demoServe(t, std)
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	if err := c.s.SendPlay(0, 1); err != nil {
		t.Fatal(err)
	}
	if err := c.s.SendPause(); err == nil {
		t.Fatal("accepted")
	}
}
'''))

bug(id='c15-any-2xx', prop='C15',
 needs='a SETUP answered with 201 or another status between 200 and 299',
 breaks='A set-up that was not answered 200 is taken for a success.',
 edits=[('rtspclient.go','''		if 200 != response.Status {
			return errors.New("response error: " + strconv.Itoa(response.Status))
		}
		if "" != response''','''		if 200 > response.Status || 300 <= response.Status {
			return errors.New("response error: " + strconv.Itoa(response.Status))
		}
		if "" != response''')],
 demo=R('testing','''
func TestSeeded(t *testing.T) {
	std := demoStandard(demoSDP("PLAIN"))
	srv := demoServe(t, func(method, uri, cseq, request string) string {
		if method == "SETUP" {
			return demoAnswer(cseq, "250 Low", "Session: 1\\r\\n", "")
		}
		return std(method, uri, cseq, request)
	})
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err == nil {
		t.Fatal("no error")
	}
}
'''))

bug(id='c15-query-url', prop='C15',
 needs='a request URL with a query and a media with a relative control attribute',
 breaks='The control attribute is put before the query.',
 edits=[('rtspclient.go','''			strTrackURL = session.rtspContext.rtspURL + "/" + strTrackURL
		}
		rtpIndex''','''			baseURL, query := session.rtspContext.rtspURL, ""
			if paramStartIndex := strings.Index(baseURL, "?"); paramStartIndex != -1 {
				baseURL, query = baseURL[:paramStartIndex], baseURL[paramStartIndex:]
			}
			strTrackURL = baseURL + "/" + strTrackURL + query
		}
		rtpIndex''')],
 demo=R('testing strings','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("PLAIN")))
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x?a=b")); err != nil {
		t.Fatal(err)
	}
	if r := srv.requests()[1]; !strings.HasPrefix(r, "SETUP "+srv.url("/x?a=b")+"/track0 ") {
		t.Fatal(r)
	}
}
'''))

bug(id='c16-wait-forever', prop='C16',
 needs='a server that stays silent after the DESCRIBE was answered',
 breaks='Once the description is known the reply time-out is no longer applied.',
 edits=[('rtspclient.go','''	case <-time.After(time.Duration(session.timeoutSec) * time.Second):
		{
			// the server''','''	case <-session.replyTimer():
		{
			// the server'''),('rtspclient.go','''func (session *RtspClientSession) WaitRtspResponse() ''','''func (session *RtspClientSession) replyTimer() <-chan time.Time {
	if nil != session.sdpInfo && session.rtspContext.cseq > 2 {
		return nil
	}
	return time.After(time.Duration(session.timeoutSec) * time.Second)
}

func (session *RtspClientSession) WaitRtspResponse() ''')],
 demo=R('testing time','''
func TestSeeded(t *testing.T) {
	std := demoStandard(demoSDP("PLAIN"))
	srv := demoServe(t, func(method, uri, cseq, request string) string {
		if method == "PLAY" {
			return ""
		}
		return std(method, uri, cseq, request)
	})
	c := newDemoClient()
	within(t, 20*time.Second, "Play", func() {
		if err := c.s.Play(srv.url("/x")); err == nil {
			t.Error("no error")
		}
	})
}
'''))

bug(id='c16-no-event', prop='C16',
 needs='a server that disconnects while the answer to a request is awaited',
 breaks='The disconnection is not announced when a request was outstanding.',
 edits=[('rtspclient.go','''				log.Printf("conntion disconnected.")
				session.sendEvent(RtspEventDisconnected, nil)
''','''				log.Printf("conntion disconnected.")
				if session.rtspRequestInitial {
					session.sendEvent(RtspEventDisconnected, nil)
				}
''')],
 demo=R('testing time','''
func TestSeeded(t *testing.T) {
	var srv *demoServer
	std := demoStandard(demoSDP("PLAIN"))
	srv = demoServe(t, func(method, uri, cseq, request string) string {
		if method == "SETUP" {
			srv.mu.Lock()
			srv.conn.Close()
			srv.mu.Unlock()
			return ""
		}
		return std(method, uri, cseq, request)
	})
	c := newDemoClient()
	within(t, 20*time.Second, "Play", func() {
		if err := c.s.Play(srv.url("/x")); err == nil {
			t.Error("no error")
		}
	})
	for {
		select {
		case e := <-c.events:
			if e.EventType == RtspEventDisconnected {
				return
			}
		case <-time.After(5 * time.Second):
			t.Fatal("no disconnected event")
		}
	}
}
'''))

bug(id='c28-write-return', prop='C28',
 needs='an empty message between two messages on the WebSocket',
 breaks='An empty message is taken for the end of the stream.',
 edits=[('websocketconn.go','''	for len(conn.rest) == 0 {
		_, message, err := conn.conn.ReadMessage()
		if nil != err {
			return 0, err
		}
''','''	for len(conn.rest) == 0 {
		_, message, err := conn.conn.ReadMessage()
		if nil != err {
			return 0, err
		}
		if len(message) == 0 {
			return 0, net.ErrClosed
		}
'''),('websocketconn.go','''	err := conn.conn.WriteMessage(websocket.BinaryMessage, b)
	if nil != err {
		return 0, err
	}
	return len(b), nil''','''	if err := conn.conn.WriteMessage(websocket.BinaryMessage, b); nil != err {
		return 0, err
	}
	return len(b), nil''')],
 demo=R('testing net/http net/http/httptest strings github.com/gorilla/websocket','''
func TestSeeded(t *testing.T) {
	up := websocket.Upgrader{}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		c, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		c.WriteMessage(websocket.BinaryMessage, []byte("ab"))
		c.WriteMessage(websocket.BinaryMessage, nil)
		c.WriteMessage(websocket.BinaryMessage, []byte("cd"))
		c.ReadMessage()
	}))
	defer srv.Close()
	ws, _, err := websocket.DefaultDialer.Dial("ws"+strings.TrimPrefix(srv.URL, "http"), nil)
	if err != nil {
		t.Fatal(err)
	}
	c := &WebsocketConn{conn: ws}
	got := ""
	b := make([]byte, 10)
	for len(got) < 4 {
		n, err := c.Read(b)
		if err != nil {
			t.Fatal(err)
		}
		got += string(b[:n])
	}
	if got != "abcd" {
		t.Fatal(got)
	}
}
'''))


bug(id='c29-no-session-no-teardown', prop='C29',
 needs='a session that is closed after its set-up failed before SETUP was answered',
 breaks='Closing says nothing to the server while no session identifier is known.',
 edits=[('rtsprequest.go','''func (session *RtspClientSession) SendTeardown() error {
	if !session.rtspRequestInitial {
''','''func (session *RtspClientSession) SendTeardown() error {
	if !session.rtspRequestInitial || "" == session.rtspContext.sessionID {
''')],
 demo=R('testing time strings','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, func(method, uri, cseq, request string) string {
		if method == "DESCRIBE" {
			return demoAnswer(cseq, "404 Not Found", "", "")
		}
		return demoAnswer(cseq, "200 OK", "", "")
	})
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err == nil {
		t.Fatal("no error")
	}
	within(t, 20*time.Second, "Close", c.s.Close)
	<-srv.gone
	r := srv.requests()
	if !strings.HasPrefix(r[len(r)-1], "TEARDOWN ") {
		t.Fatal(r)
	}
}
'''))
