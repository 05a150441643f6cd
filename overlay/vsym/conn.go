package vsym

import (
	"errors"
	"io"
	"net"
	"sync"
	"time"
)

// Addr is a stub address.
type Addr string

func (a Addr) Network() string { return "tcp" }
func (a Addr) String() string  { return string(a) }

// ErrClosed is returned by operations on a closed stub connection.
var ErrClosed = errors.New("use of closed network connection")

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// Conn is an in-memory net.Conn whose peer is the harness.
type Conn struct {
	mu      sync.Mutex
	in      [][]byte
	inErr   error
	notify  chan struct{}
	done    chan struct{}
	closed  bool
	NClose  int
	rdl     time.Time
	wdl     time.Time
	Out     []byte   // everything written
	Writes  [][]byte // one entry per Write call
	OnWrite func(p []byte)
	Gate    chan struct{} // when non-nil every Write waits for a token
	WErr    error         // when non-nil Write fails with it
	WCap    int           // when positive, Write fails after that many bytes
	OnClose func()
	NRead   int
}

// NewConn returns an open stub connection.
func NewConn() *Conn {
	return &Conn{notify: make(chan struct{}, 1), done: make(chan struct{})}
}

func (c *Conn) poke() {
	select {
	case c.notify <- struct{}{}:
	default:
	}
}

// Feed makes b available to Read as one segment.
func (c *Conn) Feed(b []byte) {
	if len(b) == 0 {
		return
	}
	c.mu.Lock()
	c.in = append(c.in, b)
	c.mu.Unlock()
	c.poke()
}

// FeedErr makes Read fail with err after the segments fed so far.
func (c *Conn) FeedErr(err error) {
	c.mu.Lock()
	c.inErr = err
	c.mu.Unlock()
	c.poke()
}

// Hangup is an orderly close by the peer.
func (c *Conn) Hangup() { c.FeedErr(io.EOF) }

// Closed reports whether the code under test closed the connection.
func (c *Conn) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

func (c *Conn) Read(p []byte) (int, error) {
	for {
		c.mu.Lock()
		if c.closed {
			c.mu.Unlock()
			return 0, ErrClosed
		}
		if len(p) == 0 {
			c.mu.Unlock()
			return 0, nil
		}
		if len(c.in) > 0 {
			n := copy(p, c.in[0])
			if n == len(c.in[0]) {
				c.in = c.in[1:]
			} else {
				c.in[0] = c.in[0][n:]
			}
			c.NRead += n
			c.mu.Unlock()
			return n, nil
		}
		if c.inErr != nil {
			err := c.inErr
			c.mu.Unlock()
			return 0, err
		}
		dl := c.rdl
		c.mu.Unlock()
		if dl.IsZero() {
			select {
			case <-c.notify:
			case <-c.done:
			}
			continue
		}
		d := time.Until(dl)
		if d <= 0 {
			return 0, timeoutErr{}
		}
		tm := time.NewTimer(d)
		select {
		case <-c.notify:
		case <-c.done:
		case <-tm.C:
		}
		tm.Stop()
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	if c.Gate != nil {
		c.mu.Lock()
		dl := c.wdl
		c.mu.Unlock()
		var late <-chan time.Time
		if !dl.IsZero() {
			tm := time.NewTimer(time.Until(dl))
			defer tm.Stop()
			late = tm.C
		}
		select {
		case <-c.Gate:
		case <-c.done:
		case <-late:
			return 0, timeoutErr{}
		}
	}
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return 0, ErrClosed
	}
	if c.WErr != nil {
		err := c.WErr
		c.mu.Unlock()
		return 0, err
	}
	var werr error
	if c.WCap > 0 && len(c.Out)+len(p) > c.WCap {
		p = p[:c.WCap-len(c.Out)]
		werr = ErrClosed
	}
	b := make([]byte, len(p))
	copy(b, p)
	c.Out = append(c.Out, b...)
	c.Writes = append(c.Writes, b)
	f := c.OnWrite
	c.mu.Unlock()
	if f != nil {
		f(b)
	}
	return len(p), werr
}

// Close is the local close.
func (c *Conn) Close() error {
	c.mu.Lock()
	c.NClose++
	if c.closed {
		c.mu.Unlock()
		return ErrClosed
	}
	c.closed = true
	close(c.done)
	f := c.OnClose
	c.mu.Unlock()
	if f != nil {
		f()
	}
	return nil
}

func (c *Conn) LocalAddr() net.Addr  { return Addr("127.0.0.1:1") }
func (c *Conn) RemoteAddr() net.Addr { return Addr("127.0.0.1:2") }
func (c *Conn) SetDeadline(t time.Time) error {
	c.SetWriteDeadline(t)
	return c.SetReadDeadline(t)
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	c.rdl = t
	c.mu.Unlock()
	c.poke()
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	c.wdl = t
	c.mu.Unlock()
	return nil
}

// SetDial makes every dial of the code under test call f.
func SetDial(f func(network, address string, timeout time.Duration) (net.Conn, error)) {
	net.ZZDialHook = f
}
