package tcpnetwork

import (
	"errors"
	"time"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

// vhPrefix tells whether a is a beginning of b.
func vhPrefix(a, b []byte) bool {
	return len(a) <= len(b) && string(a) == string(b[:len(a)])
}

// c18Send sends any message of n bytes and returns what has to be written; with
// copy the caller overwrites its buffer afterwards.
func c18Send(r *vhRec, n int) []byte {
	m := vsym.Bytes("message", n)
	want := append([]byte(nil), m...)
	if vsym.Choose("copy", 0, 1) == 1 {
		r.conn.Send(m, true)
		for i := range m {
			m[i] ^= 0x55
		}
	} else {
		r.conn.Send(m, false)
	}
	return want
}

// Messages one after the other, then perhaps a close.
//
// vh:bound queue of 1..3 messages, 0..4 (thorough 0..5) messages of 1..3 arbitrary bytes, with and without header bytes of the protocol, with and without copy, sent as fast as the queue takes them or with pauses; then a close or not
// vh:reach closed open
func VH_C18_Order() {
	p := &vhProto{}
	if vsym.Choose("head", 0, 1) == 1 {
		p.head = vsym.Bytes("head", 2)
	}
	r := vhConnect(vsym.Choose("queue", 1, 3), p)
	pause := vsym.Choose("pause", 0, 1) == 1
	r.conn.Run()
	var want []byte
	for i := vsym.Choose("messages", 0, 4+vsym.Tier()); i > 0; i-- {
		want = append(want, p.head...)
		want = append(want, c18Send(r, vsym.Choose("len", 1, 3))...)
		if pause {
			vsym.Quiesce()
			vsym.Assert(vhSame(r.stub.Out, want), "message not written while the connection is idle")
		}
	}
	c18Finish(r, &want)
}

func c18Finish(r *vhRec, want *[]byte) {
	r.stub.OnClose = func() {
		vsym.Assert(vhSame(r.stub.Out, *want), "transport closed before the messages were written")
	}
	if vsym.Choose("close", 0, 1) == 1 {
		r.conn.Close()
		time.Sleep(40 * time.Second)
		vsym.Quiesce()
		r.check(true)
		vsym.Reach("closed")
	} else {
		time.Sleep(40 * time.Second)
		vsym.Quiesce()
		r.check(false)
		vsym.Reach("open")
	}
	vsym.Assert(vhSame(r.stub.Out, *want), "written bytes are not the messages sent")
}

// A transport that is slow to take the messages.
//
// vh:bound queue of 1..2 messages, 0..3 messages of 2 arbitrary bytes, with and without copy, each write accepted after any time up to 1 s; then a close or not
// vh:reach closed open
func VH_C18_Slow() {
	r := vhConnect(vsym.Choose("queue", 1, 2), &vhProto{})
	g := make(chan struct{})
	r.stub.Gate = g
	go func() {
		for {
			time.Sleep(vsym.Delay("slow", 0, time.Second))
			select {
			case g <- struct{}{}:
			case <-time.After(10 * time.Second):
				return
			}
		}
	}()
	r.conn.Run()
	var want []byte
	for i := vsym.Choose("messages", 0, 3); i > 0; i-- {
		want = append(want, c18Send(r, 2)...)
	}
	c18Finish(r, &want)
}

// Messages larger than the write buffer.
//
// vh:bound a message of 65533..65540 or 131070..131075 bytes, the first and last three arbitrary, between two short ones, with and without header bytes and copy
// vh:reach ok
func VH_C18_Large() {
	p := &vhProto{}
	if vsym.Choose("head", 0, 1) == 1 {
		p.head = vsym.Bytes("head", 2)
	}
	r := vhConnect(2, p)
	r.conn.Run()
	want := append([]byte(nil), p.head...)
	want = append(want, c18Send(r, 2)...)
	n := vsym.Choose("size", 65533, 65540)
	if vsym.Choose("twice", 0, 1) == 1 {
		n += 65535
	}
	m := make([]byte, n)
	copy(m, vsym.Bytes("first", 3))
	copy(m[n-3:], vsym.Bytes("last", 3))
	want = append(want, p.head...)
	want = append(want, m...)
	cp := vsym.Choose("copylarge", 0, 1) == 1
	r.conn.Send(m, cp)
	if cp {
		m[0] ^= 0x55
		m[n-1] ^= 0x55
	}
	want = append(want, p.head...)
	want = append(want, c18Send(r, 2)...)
	r.conn.Close()
	time.Sleep(20 * time.Second)
	vsym.Quiesce()
	vsym.Assert(vhSame(r.stub.Out, want), "written bytes are not the messages sent")
	r.check(true)
	vsym.Reach("ok")
}

// Two callers at once.
//
// vh:bound two goroutines send 2 messages of 1..2 arbitrary bytes each, queue of 1..2, one of them or another goroutine closes at the end; 2 (thorough 3) times a goroutine is held at any point for any time
// vh:reach ok
// vh:opt sched=1 paths=1000000 paths_t=5000000
func VH_C18_Concurrent() {
	r := vhConnect(vsym.Choose("queue", 1, 2), &vhProto{})
	vsym.Sched(2 + vsym.Tier())
	r.conn.Run()
	a := [][]byte{vsym.Bytes("a", 2), vsym.Bytes("aa", 1)}
	b := [][]byte{vsym.Bytes("b", 1), vsym.Bytes("bb", 2)}
	left := 2
	send := func(ms [][]byte) {
		for _, m := range ms {
			r.conn.Send(m, true)
		}
		left--
		if left == 0 {
			r.conn.Close()
		}
	}
	go send(b)
	send(a)
	time.Sleep(20 * time.Second)
	vsym.Quiesce()
	vsym.Assert(left == 0, "caller hangs")
	r.check(true)
	// any interleaving of the two
	out := r.stub.Out
	vsym.Assert(c18Merge(out, a, b), "written bytes are not the messages of the two callers, each in order")
	vsym.Reach("ok")
}

// c18Merge tells whether out consists of the messages a and b, each in order.
func c18Merge(out []byte, a, b [][]byte) bool {
	if len(a) == 0 && len(b) == 0 {
		return len(out) == 0
	}
	if len(a) > 0 && vhPrefix(a[0], out) && c18Merge(out[len(a[0]):], a[1:], b) {
		return true
	}
	return len(b) > 0 && vhPrefix(b[0], out) && c18Merge(out[len(b[0]):], a, b[1:])
}

// The transport fails.
//
// vh:bound 1..4 messages of 2 arbitrary bytes, with and without header bytes, queue of 1..4; the transport takes 0..10 bytes and then fails; more messages afterwards
// vh:reach ok
func VH_C18_WriteFails() {
	p := &vhProto{}
	if vsym.Choose("head", 0, 1) == 1 {
		p.head = vsym.Bytes("head", 1)
	}
	r := vhConnect(vsym.Choose("queue", 1, 4), p)
	c := vsym.Choose("takes", 0, 10)
	if c == 0 {
		r.stub.WErr = errors.New("broken pipe")
	} else {
		r.stub.WCap = c
	}
	r.conn.Run()
	var want []byte
	for i := vsym.Choose("messages", 1, 4); i > 0; i-- {
		want = append(want, p.head...)
		want = append(want, c18Send(r, 2)...)
	}
	vsym.Quiesce()
	if len(want) <= c {
		vsym.Assert(vhSame(r.stub.Out, want), "written bytes are not the messages sent")
		r.check(false)
		r.conn.Send([]byte("0123456789"), false)
		want = append(want, p.head...)
		want = append(want, "0123456789"...)
		vsym.Quiesce()
	}
	vsym.Assert(vhPrefix(r.stub.Out, want), "written bytes are not a beginning of the messages sent")
	vsym.Assert(len(r.stub.Out) == c, "writing stopped early")
	r.check(true)
	vsym.Reach("ok")
}

// Calls on a connection that is not connected.
//
// vh:bound before Run, or after the end by peer close or local close: 1..3 (more than the queue of 1 takes) calls of Send with any message or Close; before Run the connection then runs and writes what is sent afterwards
// vh:reach before after
func VH_C18_NotConnected() {
	r := vhConnect(1, &vhProto{})
	when := vsym.Choose("when", 0, 2)
	if when > 0 {
		r.conn.Run()
		vsym.Quiesce()
		if when == 1 {
			r.stub.Hangup()
		} else {
			r.conn.Close()
		}
		vsym.Quiesce()
		r.check(true)
	} else {
		vsym.Assert(r.conn.GetStatus() != ConnStatusConnected, "connected before Run")
	}
	t := time.Now()
	for i := vsym.Choose("calls", 1, 3); i > 0; i-- {
		if vsym.Choose("call", 0, 1) == 0 {
			r.conn.Send(vsym.Bytes("lost", vsym.Choose("len", 0, 2)), vsym.Choose("copy", 0, 1) == 1)
		} else {
			r.conn.Close()
		}
	}
	vsym.Assert(time.Since(t) == 0, "call on a connection that is not connected blocks")
	vsym.Assert(len(r.stub.Out) == 0, "written while not connected")
	if when == 0 {
		vsym.Assert(len(r.events) == 0, "event before Run")
		r.conn.Run()
		r.conn.Send([]byte("x"), false)
		vsym.Quiesce()
		vsym.Assert(string(r.stub.Out) == "x", "written bytes are not the messages sent")
		r.check(false)
		vsym.Reach("before")
	} else {
		r.check(true)
		vsym.Reach("after")
	}
}

// Sending in the event handler.
//
// vh:bound messages sent and a close issued by the handler of the connected event and of each of 2 received messages; queue of 2..3
// vh:reach ok
func VH_C18_FromHandler() {
	r := vhConnect(vsym.Choose("queue", 2, 3), &vhProto{})
	closeAt := vsym.Choose("close", 1, 4)
	n := 0
	var want []byte
	r.on = func(e *ConnEvent) {
		n++
		if e.EventType == ConnEventDisconnected {
			r.conn.Send([]byte("late"), true)
			r.conn.Close()
			return
		}
		if n <= closeAt {
			want = append(want, c18Send(r, vsym.Choose("len", 1, 2))...)
		}
		if n == closeAt {
			r.conn.Close()
		}
	}
	r.conn.Run()
	vsym.Quiesce()
	if closeAt > 1 {
		vsym.Assert(vhSame(r.stub.Out, want), "written bytes are not the messages sent")
	}
	r.stub.Feed([]byte("L\x01a"))
	vsym.Quiesce()
	r.stub.Feed([]byte("E\x00\r\n"))
	vsym.Quiesce()
	vsym.Assert(vhSame(r.stub.Out, want), "written bytes are not the messages sent")
	r.check(closeAt <= 3)
	vsym.Reach("ok")
}

// Many messages.
//
// vh:bound queue of 1, 2, 16, 64, 100 or 1000; 20, 100, 300 or 1000 messages of 1..300 bytes (one in 16 with two arbitrary bytes), with and without header bytes, every other one with copy, on a transport that takes them at once, or that takes one every 10 ms, or nothing until as many messages as the queue takes wait; then a close or not
// vh:reach closed open
// vh:opt steps=40000000
func VH_C18_Many() {
	p := &vhProto{}
	if vsym.Choose("head", 0, 1) == 1 {
		p.head = []byte("HD")
	}
	q := []int{1, 2, 16, 64, 100, 1000}[vsym.Choose("queue", 0, 5)]
	r := vhConnect(q, p)
	n := []int{20, 100, 300, 1000}[vsym.Choose("messages", 0, 3)]
	how := vsym.Choose("transport", 0, 2)
	var g chan struct{}
	if how > 0 {
		g = make(chan struct{})
		r.stub.Gate = g
	}
	if how == 1 {
		go func() {
			for {
				time.Sleep(10 * time.Millisecond)
				select {
				case g <- struct{}{}:
				case <-time.After(20 * time.Second):
					return
				}
			}
		}()
	}
	r.conn.Run()
	vsym.Quiesce()
	var want []byte
	for i := 0; i < n; i++ {
		if how == 2 && i == q || how == 2 && i == n-1 {
			// everything but the message being written is in the queue
			vsym.Quiesce()
			vsym.Assert(len(r.stub.Out) == 0, "written to a transport that takes nothing")
			r.stub.Gate = nil
			close(g)
			how = 0
		}
		m := make([]byte, 1+i*13%300)
		for j := range m {
			m[j] = byte(i + j)
		}
		if i%16 == 3 {
			m[0], m[len(m)-1] = vsym.Byte("first"), vsym.Byte("last")
		}
		want = append(append(want, p.head...), m...)
		r.conn.Send(m, i%2 == 0)
		if i%2 == 0 {
			for j := range m {
				m[j] ^= 0x55
			}
		}
	}
	c18Finish(r, &want)
}
