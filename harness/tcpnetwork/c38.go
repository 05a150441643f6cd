package tcpnetwork

import (
	"errors"
	"time"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

// Nothing of a connection runs after its end.
//
// vh:bound queue of 1 or 4; 0..3 messages queued by 1..2 goroutines on a peer that reads or does not, a handler that takes 0, 1 or 30 s, then the connection ends by the other endpoint, a read error, a malformed message, a write error or Close; 1 (thorough 2) times a goroutine is held at any point for any time
// vh:reach ok
// vh:opt sched=1 paths=1000000 paths_t=5000000
func VH_C38_Connection() {
	before := vsym.Goroutines()
	end := vsym.Choose("end", 0, 4)
	busy := []time.Duration{0, time.Second, 30 * time.Second}[vsym.Choose("busy", 0, 2)]
	r := vhConnect(1+3*vsym.Choose("queue", 0, 1), &vhProto{})
	r.on = func(e *ConnEvent) {
		if e.EventType == ConnEventData {
			time.Sleep(busy)
		}
	}
	noread := vsym.Choose("noread", 0, 1) == 1
	n := vsym.Choose("messages", 0, 3)
	vsym.Sched(1 + vsym.Tier())
	r.conn.Run()
	if noread {
		r.stub.Gate = make(chan struct{})
	}
	r.stub.Feed([]byte{'L', 0, 'L', 1, 7})
	for i := 0; i < n; i++ {
		if i == 1 {
			go r.conn.Send([]byte("ab"), true)
		} else {
			r.conn.Send([]byte("c"), false)
		}
	}
	switch end {
	case 0:
		r.stub.Hangup()
	case 1:
		r.stub.FeedErr(errors.New("reset"))
	case 2:
		r.stub.Feed([]byte{'E', 253, '\r', '\n'})
	case 3:
		r.stub.WErr = errors.New("broken pipe")
		r.conn.Send([]byte("x"), false)
		r.stub.Hangup()
	case 4:
		r.conn.Close()
	}
	time.Sleep(120 * time.Second)
	vsym.Quiesce()
	r.check(true)
	vsym.Assert(vsym.Goroutines() == before, "something of the connection is still running after its end")
	vsym.Reach("ok")
}
