package zzvf

import (
	"errors"
	"io"
	"net"
	"time"
)

// Fake network: a listener and connections driven by the harness.

type Listener struct {
	queue  []*Conn
	closed bool
	addr   string
}

type Conn struct {
	In      [][]byte // data for the code under test, one element per read
	EOF     bool     // reading after In gives io.EOF
	ReadErr error
	Out     [][]byte // what was written, one element per write
	OnWrite func(b []byte) (int, error)
	OnClose func()
	Closed  bool
	Closes  int
	Reads   int
}

var (
	TheListener  *Listener // the newest
	Listeners    []*Listener
	ListenFails  bool
	errNetClosed = errors.New("use of closed network connection")
	ErrNet       = errors.New("connection reset by peer")
)

func resetNet() { TheListener, Listeners, ListenFails = nil, nil, false }

func Listen(network, address string) (net.Listener, error) {
	if ListenFails {
		return nil, ErrNet
	}
	TheListener = &Listener{addr: address}
	Listeners = append(Listeners, TheListener)
	return TheListener, nil
}

// Dial gives the code under test a new connection to accept
func (l *Listener) Dial(c *Conn) { l.queue = append(l.queue, c) }

func (l *Listener) Accept() (net.Conn, error) {
	SchedPoint()
	WaitUntil(func() bool { return l.closed || len(l.queue) > 0 })
	if l.closed {
		return nil, errNetClosed
	}
	c := l.queue[0]
	l.queue = l.queue[1:]
	return c, nil
}
func (l *Listener) Close() error {
	if l.closed {
		return errNetClosed
	}
	l.closed = true
	return nil
}
func (l *Listener) Addr() net.Addr { return addr{} }

type addr struct{}

func (addr) Network() string { return "tcp" }
func (addr) String() string  { return "127.0.0.1:0" }

func (c *Conn) Read(b []byte) (int, error) {
	SchedPoint()
	if len(b) == 0 {
		return 0, nil
	}
	WaitUntil(func() bool { return c.Closed || len(c.In) > 0 || c.EOF || c.ReadErr != nil })
	if c.Closed {
		return 0, errNetClosed
	}
	if len(c.In) == 0 {
		if c.ReadErr != nil {
			return 0, c.ReadErr
		}
		return 0, io.EOF
	}
	c.Reads++
	n := copy(b, c.In[0])
	if n == len(c.In[0]) {
		c.In = c.In[1:]
	} else {
		c.In[0] = c.In[0][n:]
	}
	return n, nil
}

func (c *Conn) Write(b []byte) (int, error) {
	SchedPoint()
	if c.Closed {
		return 0, errNetClosed
	}
	if c.OnWrite != nil {
		return c.OnWrite(b)
	}
	c.Out = append(c.Out, append([]byte(nil), b...))
	return len(b), nil
}

func (c *Conn) Close() error {
	SchedPoint()
	c.Closes++
	if c.Closed {
		return errNetClosed
	}
	c.Closed = true
	if c.OnClose != nil {
		c.OnClose()
	}
	return nil
}
func (c *Conn) LocalAddr() net.Addr                { return addr{} }
func (c *Conn) RemoteAddr() net.Addr               { return addr{} }
func (c *Conn) SetDeadline(t time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }

// Open tells whether the listener accepts connections
func (l *Listener) Open() bool { return l != nil && !l.closed }

// Address is what Listen was called with
func (l *Listener) Address() string { return l.addr }

// Pending is the number of connections not accepted yet
func (l *Listener) Pending() int { return len(l.queue) }
