package rtspclient

import (
	"crypto/sha1"
	"encoding/base64"
	"errors"
	"net"
	"strings"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
	"github.com/gorilla/websocket"
)

// vhWS is the other end of a WebSocket whose messages carry a byte stream.
type vhWS struct {
	raw     *vsym.Conn
	hs      bool   // handshake done
	in      string // received, not looked at
	stream  string // contents of the messages received
	control []byte // opcodes of the control frames received
	onData  func(p string)
	bad     bool
}

// vhNewWS makes WebSocket connections to any address end up here.
func vhNewWS() *vhWS {
	w := &vhWS{raw: vsym.NewConn(), hs: !vsym.Native()}
	w.raw.OnWrite = w.written
	websocket.DefaultDialer.Proxy = nil
	websocket.DefaultDialer.NetDial = func(network, addr string) (net.Conn, error) {
		vsym.Assert(network == "tcp" && addr == "w:80", "wrong address")
		return w.raw, nil
	}
	return w
}

func vhNoWS() {
	websocket.DefaultDialer.Proxy = nil
	websocket.DefaultDialer.NetDial = func(network, addr string) (net.Conn, error) { return nil, errors.New("refused") }
}

func (w *vhWS) written(p []byte) {
	w.in += string(p)
	if !w.hs {
		// the symbolic run starts after the handshake
		e := strings.Index(w.in, "\r\n\r\n")
		if e < 0 {
			return
		}
		k := vhHeader(w.in[:e+4], "Sec-WebSocket-Key")[0]
		h := sha1.Sum([]byte(k + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
		w.in = w.in[e+4:]
		w.hs = true
		w.raw.Feed([]byte("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + base64.StdEncoding.EncodeToString(h[:]) + "\r\n\r\n"))
	}
	// frames of a client: masked
	for len(w.in) >= 6 {
		n, h := int(w.in[1]&0x7f), 2
		if n == 126 {
			if len(w.in) < 8 {
				return
			}
			n, h = int(w.in[2])<<8|int(w.in[3]), 4
		} else if n == 127 {
			if len(w.in) < 14 {
				return
			}
			n, h = int(w.in[6])<<24|int(w.in[7])<<16|int(w.in[8])<<8|int(w.in[9]), 10
		}
		if len(w.in) < h+4+n {
			return
		}
		op := w.in[0] & 15
		if w.in[1]&0x80 == 0 || w.in[0]&0x70 != 0 {
			w.bad = true
		}
		d := make([]byte, n)
		for i := range d {
			d[i] = w.in[h+4+i] ^ w.in[h+i&3]
		}
		w.in = w.in[h+4+n:]
		if op >= 8 {
			w.control = append(w.control, op)
			continue
		}
		w.stream += string(d)
		if w.onData != nil {
			w.onData(string(d))
		}
	}
}

// vhWSFrame is a frame of a server.
func vhWSFrame(op byte, final bool, d []byte) []byte {
	if final {
		op |= 0x80
	}
	h := []byte{op, byte(len(d))}
	if len(d) >= 126 {
		h = []byte{op, 126, byte(len(d) >> 8), byte(len(d))}
	}
	if len(d) > 65535 {
		h = []byte{op, 127, 0, 0, 0, 0, byte(len(d) >> 24), byte(len(d) >> 16), byte(len(d) >> 8), byte(len(d))}
	}
	return append(h, d...)
}
