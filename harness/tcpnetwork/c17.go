package tcpnetwork

import (
	"errors"
	"time"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

const (
	c17EOF = iota
	c17ReadError
	c17Partial   // EOF within a message
	c17Negative  // impossible content length
	c17Huge      // too long a content
	c17Panic     // the protocol panics
	c17LocalClose
	c17WriteError
	c17ShortWrite
	c17NoWrite // the peer does not read
	c17Kinds
)

// c17End makes the connection end.
func c17End(r *vhRec, kind int) {
	switch kind {
	case c17EOF:
		r.stub.Hangup()
	case c17ReadError:
		r.stub.FeedErr(errors.New("reset"))
	case c17Partial:
		m := vhMessage(vsym.Choose("lastkind", 0, 1), 2)
		r.stub.Feed(m[:vsym.Choose("cut", 1, len(m)-1)])
		r.stub.Hangup()
	case c17Negative:
		r.stub.Feed([]byte{'E', 255, '\r', '\n'})
	case c17Huge:
		r.stub.Feed([]byte{'E', 254, '\r', '\n'})
	case c17Panic:
		r.stub.Feed([]byte{'E', 253, '\r', '\n'})
	case c17LocalClose:
		r.conn.Close()
	case c17WriteError:
		r.stub.WErr = errors.New("broken pipe")
		r.conn.Send([]byte("x"), false)
	case c17ShortWrite:
		r.stub.WCap = len(r.stub.Out) + 1
		r.conn.Send([]byte("xy"), false)
	case c17NoWrite:
		r.stub.Gate = make(chan struct{})
		r.conn.Send([]byte("x"), false)
	}
}

// What ends the connection.
//
// vh:bound 0..2 messages of 0..2 (thorough 0..4) arbitrary bytes of both kinds in one segment each or all in one, then the connection ends by one of ten causes, and later calls of Send and Close
// vh:reach ok
func VH_C17_Ends() {
	r := vhConnect(4, &vhProto{})
	r.conn.Run()
	var sent [][]byte
	var all []byte
	for i := vsym.Choose("messages", 0, 2); i > 0; i-- {
		m := vhMessage(vsym.Choose("kind", 0, 1), vsym.Choose("len", 0, 2+2*vsym.Tier()))
		sent = append(sent, m)
		all = append(all, m...)
	}
	if vsym.Choose("segments", 0, 1) == 0 {
		r.stub.Feed(all)
	} else {
		for _, m := range sent {
			r.stub.Feed(m)
		}
	}
	vsym.Quiesce()
	r.check(false)
	vsym.Assert(len(r.data) == len(sent), "message lost")
	c17End(r, vsym.Choose("end", 0, c17Kinds-1))
	time.Sleep(20 * time.Second)
	vsym.Quiesce()
	r.check(true)
	vsym.Assert(len(r.data) == len(sent), "message that never completed delivered")
	for i := range sent {
		vsym.Assert(vhSame(r.data[i], sent[i]), "message changed")
	}
	n := len(r.stub.Out)
	t := time.Now()
	r.conn.Send([]byte("late"), true)
	r.conn.Close()
	r.conn.Send([]byte("later"), false)
	r.conn.Close()
	vsym.Assert(time.Since(t) <= 20*time.Second, "call on an ended connection blocks")
	vsym.Quiesce()
	r.check(true)
	vsym.Assert(len(r.stub.Out) == n, "written after the end")
	vsym.Reach("ok")
}

// Two causes at about the same time.
//
// vh:bound every pair of ten causes, the second from another goroutine; a goroutine is held at any one point for any time (thorough: two goroutines or twice, or once and the second cause any time up to 10 s later); the other endpoint sends a message before and after
// vh:reach ok
// vh:opt sched=1 paths=1000000 paths_t=5000000
func VH_C17_Race() {
	r := vhConnect(4, &vhProto{})
	later := vsym.Choose("later", 0, vsym.Tier()) == 1
	if later || vsym.Tier() == 0 {
		vsym.Sched(1)
	} else {
		vsym.Sched(2)
	}
	r.conn.Run()
	r.stub.Feed([]byte("L\x01a"))
	a, b := vsym.Choose("a", 0, c17Kinds-1), vsym.Choose("b", 0, c17Kinds-1)
	done := false
	go func() {
		if later {
			time.Sleep(vsym.Delay("delay", 1, 10*time.Second))
		}
		c17End(r, b)
		done = true
	}()
	c17End(r, a)
	if a != c17Partial && b != c17Partial {
		r.stub.Feed([]byte("L\x01b"))
	}
	time.Sleep(40 * time.Second)
	vsym.Quiesce()
	vsym.Assert(done, "caller hangs")
	r.check(true)
	for i, d := range r.data {
		if a == c17Partial || b == c17Partial {
			break // the other end may complete it
		}
		vsym.Assert(i < 2 && vhSame(d, []byte{'L', 1, "ab"[i]}), "wrong data")
	}
	vsym.Reach("ok")
}

// The end comes while an event is being handled, or the handler itself ends it.
//
// vh:bound ten causes, raised by the handler in the connected event or the first data event, or by another goroutine while the handler of that event takes any time up to 10 s
// vh:reach ok
func VH_C17_Handler() {
	r := vhConnect(4, &vhProto{})
	at := vsym.Choose("event", 1, 2)
	kind := vsym.Choose("end", 0, c17Kinds-1)
	own := vsym.Choose("own", 0, 1) == 1
	in := false
	n := 0
	r.on = func(e *ConnEvent) {
		vsym.Assert(!in, "two events at the same time")
		in = true
		n++
		if n == at {
			if own {
				c17End(r, kind)
			} else {
				go c17End(r, kind)
				time.Sleep(vsym.Delay("busy", 0, 10*time.Second))
			}
		}
		in = false
	}
	r.conn.Run()
	r.stub.Feed([]byte("L\x01a"))
	time.Sleep(40 * time.Second)
	vsym.Quiesce()
	r.check(true)
	vsym.Reach("ok")
}

// A handler that panics does not take the process with it.
//
// vh:bound panic in the connected event or the first or second data event
// vh:reach ok
func VH_C17_HandlerPanics() {
	r := vhConnect(4, &vhProto{})
	at := vsym.Choose("event", 1, 3)
	n := 0
	r.on = func(e *ConnEvent) {
		n++
		if n == at {
			panic("handler")
		}
	}
	r.conn.Run()
	r.stub.Feed([]byte("L\x01aL\x01b"))
	time.Sleep(20 * time.Second)
	vsym.Quiesce()
	r.check(true)
	vsym.Reach("ok")
}

// Silence with and without a read time-out.
//
// vh:bound read time-out of none, 1..3 s; a message complete at once, after any time up to 5 s, or cut anywhere and completed after any time up to 5 s
// vh:reach end alive
func VH_C17_ReadTimeout() {
	r := vhConnect(4, &vhProto{})
	sec := vsym.Choose("timeout", 0, 3)
	if sec > 0 {
		r.conn.SetReadTimeoutSec(sec)
		vsym.Assert(r.conn.GetReadTimeoutSec() == sec, "read time-out not kept")
	}
	r.conn.Run()
	m := vhMessage(vsym.Choose("kind", 0, 1), 2)
	cut := vsym.Choose("cut", 0, len(m)-1)
	r.stub.Feed(m[:cut])
	d := vsym.Delay("delay", 0, 5*time.Second)
	time.Sleep(d)
	r.stub.Feed(m[cut:])
	vsym.Quiesce()
	limit := time.Duration(sec) * time.Second
	if sec == 0 || d < limit {
		r.check(false)
		vsym.Assert(len(r.data) == 1 && vhSame(r.data[0], m), "message lost")
		vsym.Reach("alive")
	}
	time.Sleep(20 * time.Second)
	vsym.Quiesce()
	if sec == 0 {
		r.check(false)
	} else {
		r.check(true)
		vsym.Reach("end")
	}
}

// Many messages.
//
// vh:bound queue of 1, 16 or 100; 100, 300 or 1000 messages of 0..250 bytes of both kinds (one in 16 with two arbitrary bytes) in segments of 1, 100 or 4096 messages' bytes, a handler that takes no time or 30 ms each; then ten causes for the end
// vh:reach ok
// vh:opt steps=40000000
func VH_C17_Many() {
	r := vhConnect([]int{1, 16, 100}[vsym.Choose("queue", 0, 2)], &vhProto{})
	r.conn.Run()
	n := []int{100, 300, 1000}[vsym.Choose("n", 0, 2)]
	slow := vsym.Choose("slow", 0, 1) == 1
	if slow {
		r.on = func(e *ConnEvent) { time.Sleep(30 * time.Millisecond) }
	}
	seg := []int{1, 100, 4096}[vsym.Choose("segment", 0, 2)]
	var sent [][]byte
	var all []byte
	for i := 0; i < n; i++ {
		k := i * 7 % 251
		p := make([]byte, k)
		for j := range p {
			p[j] = "LE\r\x00ab"[(i+j)%6]
		}
		if k > 0 && i%16 == 5 {
			p[0], p[k-1] = vsym.Byte("first"), vsym.Byte("last")
			vsym.Assume(p[0] != '\n' && p[k-1] != '\n')
		}
		m := append([]byte{'L', byte(k)}, p...)
		if i%3 == 0 {
			m = append(append(append([]byte{'E', byte(k)}, p...), '\r', '\n'), p...)
		}
		sent = append(sent, m)
		if seg == 1 {
			r.stub.Feed(m)
		}
		all = append(all, m...)
	}
	for i := 0; seg > 1 && i < len(all); i += seg {
		e := i + seg
		if e > len(all) {
			e = len(all)
		}
		r.stub.Feed(all[i:e])
	}
	time.Sleep(40 * time.Second)
	vsym.Quiesce()
	r.check(false)
	vsym.Assert(len(r.data) == n, "message lost or invented")
	for i := range sent {
		vsym.Assert(vhSame(r.data[i], sent[i]), "message changed")
	}
	r.on = nil
	c17End(r, vsym.Choose("end", 0, c17Kinds-1))
	time.Sleep(40 * time.Second)
	vsym.Quiesce()
	r.check(true)
	vsym.Assert(len(r.data) == n, "message that never completed delivered")
	vsym.Reach("ok")
}
