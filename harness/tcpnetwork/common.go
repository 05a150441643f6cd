package tcpnetwork

import (
	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

// vhProto is a small protocol with all kinds of messages: "Ln" and n bytes,
// "E", a content length, anything up to a line feed and the content; other
// headers are unknown.
type vhProto struct {
	head []byte // put before every message sent
}

func (p *vhProto) Init()                          {}
func (p *vhProto) GetHeaderLength() int           { return 2 }
func (p *vhProto) SerializeHeader(b []byte) []byte { return p.head }
func (p *vhProto) UnserializeHeader(h []byte) (int, []byte) {
	switch h[0] {
	case 'L':
		return int(h[1]), nil
	case 'E':
		return 0, []byte("\r\n")
	}
	return -1, nil
}
func (p *vhProto) GetContentLength(b []byte) int {
	if b[0] != 'E' {
		return 0
	}
	switch b[1] {
	case 255:
		return -1
	case 254:
		return 1 << 20
	case 253:
		panic("malformed")
	}
	return int(b[1])
}

// vhMessage is any message of the given kind.
func vhMessage(kind, n int) []byte {
	b := vsym.Bytes("payload", n)
	if kind == 0 {
		return append([]byte{'L', byte(n)}, b...)
	}
	for i := 0; i < n; i++ {
		vsym.Assume(b[i] != '\n')
	}
	m := append([]byte{'E', byte(n)}, b...)
	m = append(m, '\r', '\n')
	return append(m, b...)
}

// vhRec records the events of a connection.
type vhRec struct {
	stub   *vsym.Conn
	conn   *Connection
	events []int
	data   [][]byte
	// on is called for every event
	on func(e *ConnEvent)
}

func vhConnect(queue int, proto IStreamProtocol) *vhRec {
	r := &vhRec{stub: vsym.NewConn()}
	r.conn = NewConnection(r.stub, queue, func(e *ConnEvent) {
		vsym.Assert(e.Conn == r.conn, "event of another connection")
		r.events = append(r.events, e.EventType)
		if e.EventType == ConnEventData {
			r.data = append(r.data, e.Data)
		}
		if r.on != nil {
			r.on(e)
		}
	})
	r.conn.SetStreamProtocol(proto)
	return r
}

// check looks at the events of a connection that has ended, or not.
func (r *vhRec) check(ended bool) {
	n := 0
	for i, e := range r.events {
		switch e {
		case ConnEventConnected:
			vsym.Assert(i == 0, "connected event not first")
		case ConnEventData:
			vsym.Assert(i > 0, "data before the connected event")
		case ConnEventDisconnected:
			n++
			vsym.Assert(i == len(r.events)-1, "event after the disconnected event")
		default:
			vsym.Fail("unknown event")
		}
	}
	if ended {
		vsym.Assert(len(r.events) > 0 && r.events[0] == ConnEventConnected, "no connected event")
		vsym.Assert(n == 1, "no disconnected event")
		vsym.Assert(r.stub.Closed(), "transport not closed after the disconnected event")
		vsym.Assert(r.conn.GetStatus() == ConnStatusDisconnected, "ended connection reported as connected")
	} else {
		vsym.Assert(n == 0, "disconnected event of a connection that is alive")
		vsym.Assert(!r.stub.Closed(), "transport of a connection that is alive closed")
		vsym.Assert(r.conn.GetStatus() == ConnStatusConnected, "connection that is alive reported as not connected")
	}
}

func vhSame(a, b []byte) bool { return string(a) == string(b) }
