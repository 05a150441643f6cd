bug(id='c36-no-copy', prop='C36',
 needs='an aggregation packet and an application that appends to (or changes behind) the first of its units',
 breaks='Units that are complete in one packet are handed over as part of the packet, so appending to one overwrites the next.',
 edits=[('rtpparser.go','''	if rtpParser.isMarkFrame && rtpParser.payloadLen > 0 {
		data := make([]byte, rtpParser.payloadLen)
		copy(data, rtpParser.payloadBuf[:rtpParser.payloadLen])
''','''	if rtpParser.isMarkFrame && rtpParser.payloadLen > 0 {
		data := nalu
		if rtpParser.payloadLen != len(nalu) {
			// made of several packets
			data = make([]byte, rtpParser.payloadLen)
			copy(data, rtpParser.payloadBuf[:rtpParser.payloadLen])
		}
''')],
 demo=R('testing bytes time','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("H264")))
	got := make(chan []byte, 10)
	s := NewRtspClientSession(func(d *RtspData) {
		got <- append([]byte{}, d.Data...)
		_ = append(d.Data, 0, 0, 0, 1)
	}, func(*RtspEvent) {})
	if err := s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	srv.send(demoFrame(0, true, 24, 0, 2, 0x67, 1, 0, 3, 0x68, 2, 3))
	for _, w := range [][]byte{{0x67, 1}, {0x68, 2, 3}} {
		select {
		case d := <-got:
			if !bytes.Equal(d, w) {
				t.Fatal("wrong unit", d)
			}
		case <-time.After(5 * time.Second):
			t.Fatal("no unit")
		}
	}
}
'''))
bug(id='c36-ring', prop='C36',
 needs='an application that keeps a unit while 16 more are delivered on its stream',
 breaks='Buffers of delivered units are used again for the sixteenth unit after them.',
 edits=[('rtpparser.go','''	isMarkFrame      bool
''','''	isMarkFrame      bool
	ring             [16][]byte
	ringPos          int
'''),('rtpparser.go','''	if rtpParser.isMarkFrame && rtpParser.payloadLen > 0 {
		data := make([]byte, rtpParser.payloadLen)
''','''	if rtpParser.isMarkFrame && rtpParser.payloadLen > 0 {
		data := rtpParser.ring[rtpParser.ringPos]
		if cap(data) < rtpParser.payloadLen {
			data = make([]byte, rtpParser.payloadLen)
			rtpParser.ring[rtpParser.ringPos] = data
		}
		data = data[:rtpParser.payloadLen]
		rtpParser.ringPos = (rtpParser.ringPos + 1) % len(rtpParser.ring)
''')],
 demo=R('testing time','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("H264")))
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	var us []*RtspData
	for i := 0; i < 40; i++ {
		srv.send(demoFrame(0, true, 0x65, byte(i)))
		u := c.next(5 * time.Second)
		if u == nil {
			t.Fatal("no unit")
		}
		us = append(us, u)
	}
	for i, u := range us {
		if len(u.Data) != 2 || u.Data[1] != byte(i) {
			t.Fatal("unit changed")
		}
	}
}
'''))
bug(id='c36-two-buffers', prop='C36', pkg='tcpnetwork',
 needs='a handler that keeps a message while two more arrive',
 breaks='Messages are read into two buffers by turns.',
 edits=[('tcpnetwork/tcpnetwork.go','''	buf := make([]byte, connection.streamProtocol.GetHeaderLength()+connection.maxReadBufferLength)
''','''	buf := make([]byte, connection.streamProtocol.GetHeaderLength()+connection.maxReadBufferLength)
	var copies [2][]byte
	turn := 0
'''),('tcpnetwork/tcpnetwork.go','''		connection.pushEvent(ConnEventData, data)
''','''		// the handler is done with the last but one
		copies[turn] = append(copies[turn][:0], data...)
		connection.pushEvent(ConnEventData, copies[turn])
		turn = 1 - turn
''')],
 demo=T('testing time','''
func TestSeeded(t *testing.T) {
	p := &demoProtocol{gate: make(chan int)}
	close(p.gate)
	c, b, events := demoConnection(p)
	c.Run()
	<-events
	var got [][]byte
	for i := 0; i < 3; i++ {
		go b.Write([]byte{1, byte('a' + i)})
		select {
		case e := <-events:
			got = append(got, e.Data)
		case <-time.After(5 * time.Second):
			t.Fatal("no message")
		}
	}
	for i, d := range got {
		if string(d) != string([]byte{byte(1), byte('a' + i)}) {
			t.Fatalf("message changed: %q", d)
		}
	}
}
'''))
bug(id='c37-parse-first', prop='C37',
 needs='Play with another URL on a connected session, and a request afterwards',
 breaks='The refused Play leaves its URL and credentials behind.',
 edits=[('rtspclient.go','''func (session *RtspClientSession) Play(rtspURL string) error {

	if nil != session.tcpConn && tcpnetwork.ConnStatusConnected == session.tcpConn.GetStatus() {
		return errors.New("session is connected")
	}

	urlError := session.ParsingURL(rtspURL)
	if nil != urlError {
		return errors.New("url parse error: " + rtspURL)
	}
''','''func (session *RtspClientSession) Play(rtspURL string) error {

	urlError := session.ParsingURL(rtspURL)
	if nil != urlError {
		return errors.New("url parse error: " + rtspURL)
	}

	if nil != session.tcpConn && tcpnetwork.ConnStatusConnected == session.tcpConn.GetStatus() {
		return errors.New("session is connected")
	}
''')],
 demo=R('testing strings','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("H264")))
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	if c.s.Play(srv.url("/other")) == nil {
		t.Fatal("started twice")
	}
	c.s.SendPause()
	c.s.WaitRtspResponse()
	r := srv.requests()
	if !strings.HasPrefix(r[len(r)-1], "PAUSE "+srv.url("/x")+" ") {
		t.Fatal(r[len(r)-1])
	}
}
'''))
bug(id='c37-set-up-only', prop='C37',
 needs='Play on a session whose set-up was refused by the server but which is connected still',
 breaks='Only a session that has been described counts as connected.',
 edits=[('rtspclient.go','''	if nil != session.tcpConn && tcpnetwork.ConnStatusConnected == session.tcpConn.GetStatus() {
		return errors.New("session is connected")
	}

	urlError := session.ParsingURL(rtspURL)
	if nil != urlError {
		return errors.New("url parse error: " + rtspURL)
	}

	// create''','''	if nil != session.tcpConn && nil != session.sdpInfo && tcpnetwork.ConnStatusConnected == session.tcpConn.GetStatus() {
		return errors.New("session is connected")
	}

	urlError := session.ParsingURL(rtspURL)
	if nil != urlError {
		return errors.New("url parse error: " + rtspURL)
	}

	// create''')],
 demo=R('testing time','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, func(method, uri, cseq, request string) string {
		return demoAnswer(cseq, "404 Not Found", "", "")
	})
	c := newDemoClient()
	if c.s.Play(srv.url("/x")) == nil {
		t.Fatal("accepted")
	}
	start := time.Now()
	if c.s.Play(srv.url("/y")) == nil || time.Since(start) > time.Second {
		t.Fatal("started although connected")
	}
}
'''))
bug(id='c38-wait-goroutine', prop='C38',
 needs='an answer that does not come, and a connection that ends',
 breaks='A goroutine waits for each answer; it never ends when the time-out came first.',
 edits=[('rtspclient.go','''	select {
	case response, ok := <-session.rtspResponseQueue:
		{
''','''	type answer struct {
		response *RtspResponseContext
		ok       bool
	}
	answers := make(chan answer)
	rtspResponseQueue := session.rtspResponseQueue
	go func() {
		response, ok := <-rtspResponseQueue
		answers <- answer{response, ok}
	}()

	select {
	case a := <-answers:
		{
			response, ok := a.response, a.ok
''')],
 demo=R('testing time runtime','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, func(method, uri, cseq, request string) string { return "" })
	go func() {
		for range srv.gone {
		}
	}()
	time.Sleep(100 * time.Millisecond)
	before := runtime.NumGoroutine()
	c := newDemoClient()
	if c.s.Play(srv.url("/x")) == nil {
		t.Fatal("accepted")
	}
	for i := 0; runtime.NumGoroutine() > before; i++ {
		if i == 100 {
			t.Fatal("goroutines left")
		}
		time.Sleep(50 * time.Millisecond)
	}
}
'''))
bug(id='c38-event-buffer', prop='C38',
 needs='a connection that ends (or Close) while the application is busy with a unit and many more are on their way',
 breaks='Events are handed over by a goroutine of their own, which goes on waiting for events after the disconnect event.',
 edits=[('tcpnetwork/tcpnetwork.go','''	eventHandler        func(*ConnEvent)
''','''	eventHandler        func(*ConnEvent)
	events              chan *ConnEvent
'''),('tcpnetwork/tcpnetwork.go','''		eventHandler:        eventHandler,
''','''		eventHandler:        eventHandler,
		events:              make(chan *ConnEvent, 64),
'''),('tcpnetwork/tcpnetwork.go','''	connection.eventHandler(newConnEvent(eventType, connection, data))
}
''','''	connection.events <- newConnEvent(eventType, connection, data)
}

// routineEvents keeps a slow handler from holding up the connection
func (connection *Connection) routineEvents() {
	for event := range connection.events {
		connection.eventHandler(event)
	}
}
'''),('tcpnetwork/tcpnetwork.go','''	go connection.routineMain()
}
''','''	go connection.routineEvents()
	go connection.routineMain()
}
''')],
 demo=R('testing time runtime','''
func TestSeeded(t *testing.T) {
	srv := demoServe(t, demoStandard(demoSDP("H264")))
	go func() {
		for range srv.gone {
		}
	}()
	time.Sleep(100 * time.Millisecond)
	before := runtime.NumGoroutine()
	c := newDemoClient()
	if err := c.s.Play(srv.url("/x")); err != nil {
		t.Fatal(err)
	}
	c.s.Close()
	for i := 0; runtime.NumGoroutine() > before; i++ {
		if i == 100 {
			t.Fatal("goroutines left")
		}
		time.Sleep(50 * time.Millisecond)
	}
}
'''))
