def T(imports, body): return 'package tcpnetwork\n\nimport (\n'+''.join('\t"%s"\n'%i for i in imports.split())+')\n'+body

bug(id='c18-flush-when-idle', prop='C18', pkg='tcpnetwork',
 needs='a message queued immediately before a local close',
 breaks='Messages are only flushed when the queue is empty, and the close request behind them keeps them from being written.',
 edits=[('tcpnetwork/tcpnetwork.go','''				if err == nil {
					err = connection.connRW.Flush()
''','''				if err == nil && len(connection.sendMsgQueue) == 0 {
					err = connection.connRW.Flush()
'''),('tcpnetwork/tcpnetwork.go','''				_, err = connection.connRW.Write(sendMsg)
''','''				// several messages may go out with one write
				_, err = connection.connRW.Write(sendMsg)
'''),('tcpnetwork/tcpnetwork.go','''					log.Println("User disconnect")
''','''					log.Println("User disconnect.")
''')],
 demo=T('io/ioutil testing','''
func TestSeeded(t *testing.T) {
	p := &demoProtocol{gate: make(chan int)}
	c, b, events := demoConnection(p)
	c.Run()
	<-events
	c.Send([]byte("hello"), false)
	c.Send([]byte("world"), false)
	c.Close()
	close(p.gate)
	got, _ := ioutil.ReadAll(b)
	if string(got) != "helloworld" {
		t.Fatalf("%q", got)
	}
}
'''))

bug(id='c18-copy-short', prop='C18', pkg='tcpnetwork',
 needs='two short messages sent with a copy before the first of them is written',
 breaks='Messages of up to 64 bytes are copied into one small buffer that the next message overwrites.',
 edits=[('tcpnetwork/tcpnetwork.go','''		msgCopy := make([]byte, len(msg))
''','''		var msgCopy []byte
		if len(msg) <= len(connection.smallMsg) {
			// small messages need no allocation
			msgCopy = connection.smallMsg[:len(msg)]
		} else {
			msgCopy = make([]byte, len(msg))
		}
'''),('tcpnetwork/tcpnetwork.go','''	streamProtocol      IStreamProtocol
	maxRead''','''	streamProtocol      IStreamProtocol
	smallMsg            [64]byte
	maxRead''')],
 demo=T('io testing','''
func TestSeeded(t *testing.T) {
	p := &demoProtocol{gate: make(chan int)}
	c, b, events := demoConnection(p)
	c.Run()
	<-events
	c.Send([]byte("hello"), true)
	c.Send([]byte("world"), true)
	close(p.gate)
	got := make([]byte, 10)
	io.ReadFull(b, got)
	if string(got) != "helloworld" {
		t.Fatalf("%q", got)
	}
}
'''))

bug(id='c18-close-drops', prop='C18', pkg='tcpnetwork',
 needs='a local close while messages are still queued',
 breaks='A local close overtakes the messages that are queued.',
 edits=[('tcpnetwork/tcpnetwork.go','''func (connection *Connection) Close() {
	if connection.status != ConnStatusConnected {
		return
	}

	select {
	case connection.sendMsgQueue <- nil:''','''func (connection *Connection) Close() {
	if connection.status != ConnStatusConnected {
		return
	}
	if 0 == len(connection.sendMsgQueue) {
		// nothing is waiting
		connection.close()
		return
	}

	select {
	case connection.sendMsgQueue <- nil: // behind the messages'''),],
 demo=T('io/ioutil testing time','''
func TestSeeded(t *testing.T) {
	p := &demoProtocol{gate: make(chan int)}
	c, b, events := demoConnection(p)
	c.Run()
	<-events
	c.Send([]byte("hello"), false)
	time.Sleep(50 * time.Millisecond) // taken from the queue, not yet written
	c.Close()
	close(p.gate)
	got, _ := ioutil.ReadAll(b)
	if string(got) != "hello" {
		t.Fatalf("%q", got)
	}
}
'''))

bug(id='c17-double-disconnect', prop='C17', pkg='tcpnetwork',
 needs='a connection closed locally',
 breaks='A local close reports the disconnection itself, before the read routine does so again.',
 edits=[('tcpnetwork/tcpnetwork.go','''					log.Println("User disconnect")
					connection.close()
''','''					log.Println("User disconnect")
					if ConnStatusConnected == connection.GetStatus() {
						connection.pushEvent(ConnEventDisconnected, nil)
					}
					connection.close()
'''),('tcpnetwork/tcpnetwork.go','''				if nil == sendMsg {
''','''				if len(sendMsg) == 0 && nil == sendMsg {
''')],
 demo=T('testing time','''
func TestSeeded(t *testing.T) {
	c, _, events := demoConnection(&demoProtocol{})
	c.Run()
	<-events
	c.Close()
	n := 0
	for {
		select {
		case e := <-events:
			if e.EventType == ConnEventDisconnected {
				n++
			}
			continue
		case <-time.After(300 * time.Millisecond):
		}
		break
	}
	if n != 1 {
		t.Fatal(n, "disconnected events")
	}
}
'''))

bug(id='c17-eof-data', prop='C17', pkg='tcpnetwork',
 needs='a peer that closes in the middle of a message',
 breaks='What was received of an unfinished message is delivered after an unexpected end.',
 edits=[('tcpnetwork/tcpnetwork.go','''			log.Println("Conn read error: ", err)
			return err
		}
''','''			log.Println("Conn read error: ", err)
			defer connection.pushEvent(ConnEventClose, nil)
			return err
		}
'''),('tcpnetwork/tcpnetwork.go','''		// routine end
		log.Printf("Rotine of connection quit")
''','''		// routine end
		log.Printf("Routine of connection quit")
'''),('tcpnetwork/tcpnetwork.go','''		connection.pushEvent(ConnEventDisconnected, nil)
	}()
''','''		if ConnStatusDisconnected == connection.status {
			connection.pushEvent(ConnEventDisconnected, nil)
			connection.setStatus(ConnStatusNone)
		}
		connection.pushEvent(ConnEventNone, nil)
	}()
''')],
 demo=T('testing time','''
func TestSeeded(t *testing.T) {
	c, b, events := demoConnection(&demoProtocol{})
	c.Run()
	b.Write([]byte{5, 1})
	b.Close()
	last := -1
	for {
		select {
		case e := <-events:
			if last == ConnEventDisconnected {
				t.Fatal("event after the disconnection:", e.EventType)
			}
			last = e.EventType
			continue
		case <-time.After(300 * time.Millisecond):
		}
		break
	}
}
'''))

bug(id='c17-close-status-first', prop='C17', pkg='tcpnetwork',
 needs='a real TCP connection whose peer does not close its side after a local close',
 breaks='A failing Close of the transport leaves the connection connected.',
 edits=[('tcpnetwork/tcpnetwork.go','''	connection.conn.Close()
	connection.status = ConnStatusDisconnected
''','''	connection.status = ConnStatusDisconnected
	if tcpConn, ok := connection.conn.(*net.TCPConn); ok {
		// tell the peer, it closes its side
		tcpConn.CloseWrite()
		return
	}
	connection.conn.Close()
''')],
 demo=T('net testing time','''
func TestSeeded(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	peer := make(chan net.Conn, 1)
	go func() { c, _ := l.Accept(); peer <- c }()
	a, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	events := make(chan *ConnEvent, 10)
	c := NewConnection(a, 10, func(e *ConnEvent) { events <- e })
	c.SetStreamProtocol(&demoProtocol{})
	c.Run()
	<-events
	<-peer
	c.Close()
	select {
	case e := <-events:
		if e.EventType != ConnEventDisconnected {
			t.Fatal(e.EventType)
		}
	case <-time.After(3 * time.Second):
		t.Fatal("no disconnected event after a local close")
	}
}
'''))

bug(id='c30-late-status', prop='C30',
 needs='a request sent while the routine of the connection has not started yet',
 breaks='The first request is written by the caller itself without waiting for the connection; a request sent while the routine starts is lost.',
 edits=[('tcpnetwork/tcpnetwork.go','''	// connected
	connection.pushEvent(ConnEventConnected, nil)
''','''	// connected, nothing of an earlier use may be sent
	for len(connection.sendMsgQueue) > 0 {
		<-connection.sendMsgQueue
	}
	connection.pushEvent(ConnEventConnected, nil)
'''),('tcpnetwork/tcpnetwork.go','''	connection.streamProtocol.Init()
''','''	connection.streamProtocol.Init() // before anything is received
''')],
 demo=R('testing time','''
type slowProtocol struct {
	RTPStreamProtocol
}

func TestSeeded(t *testing.T) {
	for i := 0; i < 300; i++ {
		srv := demoServe(t, demoStandard(demoSDP("PLAIN")))
		c := newDemoClient()
		c.s.timeoutSec = 1
		start := time.Now()
		if err := c.s.Play(srv.url("/x")); err != nil {
			t.Fatal(err, time.Since(start))
		}
		c.s.Close()
		srv.l.Close()
	}
}
'''))
