package tcpnetwork

import (
	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

// Data of events are the handler's.
//
// vh:bound 4 messages of 0..3 arbitrary bytes of both kinds in one segment or one each; the handler keeps them, or changes, extends or fills (up to the capacity) each when it gets it
// vh:reach ok
func VH_C36_Events() {
	how := vsym.Choose("how", 0, 3)
	x := vsym.Byte("fill")
	r := vhConnect(4, &vhProto{})
	var got []string
	r.on = func(e *ConnEvent) {
		if e.EventType != ConnEventData {
			return
		}
		d := e.Data
		got = append(got, string(d))
		switch how {
		case 1:
			for i := range d {
				d[i] ^= x
			}
		case 2:
			d = append(d, x, x, x, x, x, x, x, x)
		case 3:
			d = d[:cap(d)]
			for i := 0; i < len(d) && i < 64; i++ {
				d[i] = x
			}
		}
	}
	r.conn.Run()
	one := vsym.Choose("one", 0, 1) == 1
	var sent [][]byte
	var all []byte
	for i := 0; i < 4; i++ {
		m := vhMessage(vsym.Choose("kind", 0, 1), vsym.Choose("len", 0, 1)*3)
		sent = append(sent, m)
		all = append(all, m...)
		if !one {
			r.stub.Feed(append([]byte{}, m...))
			if i%2 == 0 {
				vsym.Quiesce()
			}
		}
	}
	if one {
		r.stub.Feed(all)
	}
	vsym.Quiesce()
	r.stub.Hangup()
	vsym.Quiesce()
	vsym.Assert(len(got) == len(sent), "number of messages")
	for i := range sent {
		vsym.Assert(got[i] == string(sent[i]), "what the handler does with a message changes a later one")
		vsym.Assert(how != 0 || string(r.data[i]) == string(sent[i]), "message changes after it was delivered")
	}
	vsym.Reach("ok")
}
