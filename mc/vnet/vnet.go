// Package vnet is the in-memory network under the driver: virtual sockets with the deadline,
// shutdown and reset behaviour of TCP sockets in Go, and servers that react inline (in the
// controller) to every byte the client sends.
package vnet

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"
	"time"

	"verif/rt"
)

// Outcome of a connection attempt.
type Outcome int

const (
	// Accept the connection.
	Accept Outcome = iota
	// Refuse it.
	Refuse
	// Blackhole: no answer at all.
	Blackhole
	// NoHost: name resolution fails.
	NoHost
)

// Handler is the server side of one connection; its methods run in the controller.
type Handler interface {
	// Data is called with every non-empty write of the client.
	Data(p []byte)
	// Closed is called once when the client closes its socket.
	Closed()
}

// Server accepts connections.
type Server interface {
	// Connect is asked for every dial to the address (in the controller).
	Connect(c *Conn) (Outcome, Handler)
}

// ServerFunc adapts a function.
type ServerFunc func(c *Conn) (Outcome, Handler)

// Connect implements Server.
func (f ServerFunc) Connect(c *Conn) (Outcome, Handler) { return f(c) }

// Net is one network; it belongs to one execution.
type Net struct {
	servers map[string]Server
	Conns   []*Conn
	Dials   []string
	// MaxRead, if positive, bounds the bytes returned by one Read.
	MaxRead int
	// ReadSize, if set, chooses the size of a read of which avail bytes could be returned.
	ReadSize func(c *Conn, avail int) int
	// OnDial is called for every dial attempt.
	OnDial func(addr string)
	// OnClose is called when a client socket is closed.
	OnClose func(c *Conn)
	// OnWrite is called with everything a client writes, before the server sees it.
	OnWrite func(c *Conn, p []byte)
	// OnTry is called with everything a client tries to write.
	OnTry func(c *Conn, p []byte)

	last, gap int64
}

// Mark begins to measure for how long nothing happens.
func (n *Net) Mark() { n.last, n.gap = rt.NowNS(), 0 }

// Gap is the longest time since Mark without a connection attempt, a byte or a closing.
func (n *Net) Gap() time.Duration {
	n.event()
	return time.Duration(n.gap)
}

func (n *Net) event() {
	t := rt.NowNS()
	if t-n.last > n.gap {
		n.gap = t - n.last
	}
	n.last = t
}

var cur *Net

// New installs a fresh network for the execution that is about to run.
func New() *Net {
	cur = &Net{servers: map[string]Server{}}
	return cur
}

// Cur is the network of the current execution.
func Cur() *Net { return cur }

// Listen registers the server of addr.
func (n *Net) Listen(addr string, s Server) { n.servers[addr] = s }

// Open lists the client sockets that have been opened and not closed by the client.
func (n *Net) Open() []*Conn {
	var out []*Conn
	for _, c := range n.Conns {
		if c.CloseCount == 0 {
			out = append(out, c)
		}
	}
	return out
}

// OpenCount is the number of sockets not closed by the client.
func (n *Net) OpenCount() int {
	k := 0
	for _, c := range n.Conns {
		if c.CloseCount == 0 {
			k++
		}
	}
	return k
}

// Conn is a client socket.
type Conn struct {
	net  *Net
	ID   int
	Addr string
	H    Handler

	rbuf  []byte
	eof   bool // server sent FIN
	gone  bool // server socket fully closed: writing provokes a reset
	reset bool // connection reset
	epipe bool

	// Window: number of further bytes the server's socket accepts; <0: unlimited.
	Window int

	rdl, wdl   int64 // virtual deadlines, <0: none
	closed     bool
	CloseCount int
	Closes     int // calls of Close
	OpenedAt   int64
	ClosedAt   int64
	Sent       int // bytes written by the client
	Got        int // bytes read by the client
	Pushed     int // bytes sent by the server
	Reads      int
	User       interface{} // for the check
}

type addr string

func (addr) Network() string  { return "tcp" }
func (a addr) String() string { return string(a) }

func opErr(op string, c *Conn, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: addr(fmt.Sprintf("10.0.0.1:%d", 40000+c.ID)), Addr: addr(c.Addr), Err: err}
}

// Dial opens a connection; timeout 0: none.
func Dial(network, address string, timeout time.Duration) (net.Conn, error) {
	if !rt.Active() {
		return nil, errors.New("vnet: no execution")
	}
	var (
		c       *Conn
		out     Outcome
		bad     bool
		expired int64 = -1
	)
	neg := timeout < 0
	if !rt.DoIO("dial "+address, nil, nil, func() {
		n := cur
		if n == nil {
			bad = true
			return
		}
		n.event()
		n.Dials = append(n.Dials, address)
		if n.OnDial != nil {
			n.OnDial(address)
		}
		switch network {
		case "tcp", "tcp4", "tcp6":
		default:
			bad = true
			return
		}
		s := n.servers[address]
		if s == nil {
			out = Refuse
			if _, _, err := net.SplitHostPort(address); err != nil {
				bad = true
			}
			return
		}
		c = &Conn{net: n, ID: len(n.Conns), Addr: address, Window: -1, rdl: -1, wdl: -1, OpenedAt: rt.NowNS(), ClosedAt: -1}
		var h Handler
		out, h = s.Connect(c)
		c.H = h
		if out == Accept && !neg {
			n.Conns = append(n.Conns, c)
		}
		if timeout > 0 {
			expired = rt.NowNS() + int64(timeout)
		}
	}) {
		return nil, errors.New("vnet: unwinding")
	}
	fail := func(err error) (net.Conn, error) {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: addr(address), Err: err}
	}
	if bad {
		return fail(&net.AddrError{Err: "invalid address or network", Addr: address})
	}
	if neg {
		return fail(os.ErrDeadlineExceeded)
	}
	switch out {
	case Refuse:
		return fail(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	case NoHost:
		return fail(&net.DNSError{Err: "no such host", Name: address, IsNotFound: true})
	case Blackhole:
		rt.DoIO("dial "+address+" (no answer)", func() bool { return expired >= 0 && rt.NowNS() >= expired },
			func() int64 { return expired }, func() { cur.event() })
		return fail(os.ErrDeadlineExceeded)
	}
	return c, nil
}

type readState struct {
	n   int
	err int
}

const (
	errNone = iota
	errEOF
	errTimeout
	errClosed
	errReset
	errPipe
)

func (c *Conn) mkErr(op string, e int) error {
	switch e {
	case errNone:
		return nil
	case errEOF:
		return io.EOF
	case errTimeout:
		return opErr(op, c, os.ErrDeadlineExceeded)
	case errClosed:
		return opErr(op, c, net.ErrClosed)
	case errReset:
		return opErr(op, c, os.NewSyscallError(op, syscall.ECONNRESET))
	default:
		return opErr(op, c, os.NewSyscallError(op, syscall.EPIPE))
	}
}

// Read implements net.Conn.
func (c *Conn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	var st readState
	ok := rt.DoIO("net.Read", func() bool {
		return c.closed || c.reset || len(c.rbuf) > 0 || c.eof || (c.rdl >= 0 && rt.NowNS() >= c.rdl)
	}, func() int64 { return c.rdl }, func() {
		c.Reads++
		switch {
		case c.closed:
			st.err = errClosed
		case c.rdl >= 0 && rt.NowNS() >= c.rdl:
			st.err = errTimeout
		case len(c.rbuf) > 0 && !c.reset:
			n := len(p)
			if n > len(c.rbuf) {
				n = len(c.rbuf)
			}
			if c.net.MaxRead > 0 && n > c.net.MaxRead {
				n = c.net.MaxRead
			}
			if c.net.ReadSize != nil && n > 1 {
				if m := c.net.ReadSize(c, n); m >= 1 && m < n {
					n = m
				}
			}
			copy(p, c.rbuf[:n])
			c.rbuf = c.rbuf[n:]
			c.Got += n
			c.net.event()
			st.n = n
		case c.reset:
			st.err = errReset
		default:
			st.err = errEOF
		}
	})
	if !ok {
		return 0, c.mkErr("read", errClosed)
	}
	rt.RaceWriteRange(p[:st.n])
	return st.n, c.mkErr("read", st.err)
}

// Write implements net.Conn.
func (c *Conn) Write(p []byte) (int, error) {
	rt.RaceReadRange(p)
	var st readState
	total := 0
	for {
		rest := p[total:]
		more := false
		ok := rt.DoIO("net.Write", func() bool {
			return c.closed || c.reset || c.epipe || c.gone || c.Window != 0 || len(rest) == 0 || (c.wdl >= 0 && rt.NowNS() >= c.wdl)
		}, func() int64 { return c.wdl }, func() {
			if c.net.OnTry != nil {
				c.net.OnTry(c, rest)
			}
			switch {
			case c.closed:
				st.err = errClosed
			case c.wdl >= 0 && rt.NowNS() >= c.wdl:
				st.err = errTimeout
			case c.reset:
				st.err = errReset
				c.epipe = true
			case c.epipe:
				st.err = errPipe
			case len(rest) == 0:
			case c.gone:
				// accepted by the local kernel; the peer answers with a reset
				st.n += len(rest)
				c.Sent += len(rest)
				c.reset = true
			default:
				n := len(rest)
				if c.Window >= 0 && n > c.Window {
					n = c.Window
					more = true
				}
				if c.Window >= 0 {
					c.Window -= n
				}
				c.net.event()
				b := append([]byte(nil), rest[:n]...)
				c.Sent += n
				st.n += n
				if c.net.OnWrite != nil {
					c.net.OnWrite(c, b)
				}
				if c.H != nil && n > 0 {
					c.H.Data(b)
				}
			}
		})
		if !ok {
			return 0, c.mkErr("write", errClosed)
		}
		total = st.n
		if !more || st.err != errNone {
			break
		}
	}
	return st.n, c.mkErr("write", st.err)
}

// Close implements net.Conn.
func (c *Conn) Close() error {
	e := errNone
	if !rt.DoIO("net.Close", nil, nil, func() {
		c.Closes++
		if c.closed {
			e = errClosed
			return
		}
		c.closed = true
		c.net.event()
		c.CloseCount++
		c.ClosedAt = rt.NowNS()
		if c.H != nil {
			c.H.Closed()
		}
		if c.net.OnClose != nil {
			c.net.OnClose(c)
		}
	}) {
		return nil
	}
	return c.mkErr("close", e)
}

// LocalAddr implements net.Conn.
func (c *Conn) LocalAddr() net.Addr { return addr(fmt.Sprintf("10.0.0.1:%d", 40000+c.ID)) }

// RemoteAddr implements net.Conn.
func (c *Conn) RemoteAddr() net.Addr { return addr(c.Addr) }

func (c *Conn) setDl(r, w bool, t time.Time) error {
	v := rt.ToVirtual(t)
	if v < 0 && !t.IsZero() {
		v = 0
	}
	e := errNone
	rt.DoIO("net.SetDeadline", nil, nil, func() {
		if c.closed {
			e = errClosed
			return
		}
		if r {
			c.rdl = v
		}
		if w {
			c.wdl = v
		}
	})
	return c.mkErr("set", e)
}

// SetDeadline implements net.Conn.
func (c *Conn) SetDeadline(t time.Time) error { return c.setDl(true, true, t) }

// SetReadDeadline implements net.Conn.
func (c *Conn) SetReadDeadline(t time.Time) error { return c.setDl(true, false, t) }

// SetWriteDeadline implements net.Conn.
func (c *Conn) SetWriteDeadline(t time.Time) error { return c.setDl(false, true, t) }

// --- server side, controller context ---

// Push sends bytes to the client.
func (c *Conn) Push(b []byte) {
	if c.eof || c.reset || c.gone || len(b) == 0 {
		return
	}
	c.Pushed += len(b)
	if c.closed {
		return
	}
	c.rbuf = append(c.rbuf, b...)
}

// FIN closes the server's socket in an orderly way: the client reads what was sent, then EOF;
// if it writes, the connection is reset.
func (c *Conn) FIN() { c.eof, c.gone = true, true }

// HalfClose shuts down the server's sending direction only.
func (c *Conn) HalfClose() { c.eof = true }

// RST resets the connection.
func (c *Conn) RST() { c.reset = true; c.rbuf = nil }

// Unread is the number of bytes sent by the server that the client has not read.
func (c *Conn) Unread() int { return len(c.rbuf) }

// UnreadBytes are those bytes.
func (c *Conn) UnreadBytes() []byte { return c.rbuf }

// IsClosed reports whether the client has closed its socket.
func (c *Conn) IsClosed() bool { return c.closed }

// Gone reports whether the server side is gone (closed or reset).
func (c *Conn) Gone() bool { return c.eof || c.reset || c.gone }

// Loose makes a connection that belongs to no network: what a handler pushes is fetched with Take.
func Loose(addr string) *Conn { return &Conn{net: &Net{}, Addr: addr, Window: -1} }

// Take returns and removes what the server sent and the client has not read.
func (c *Conn) Take() []byte {
	b := c.rbuf
	c.rbuf = nil
	return b
}

// --- blocking server end, for servers written as goroutines (TLS) ---

// Stream is a server end with a blocking net.Conn interface.
type Stream struct {
	C      *Conn
	in     []byte
	closed bool
	done   bool
}

// Serve makes a handler whose server end is served by f in a goroutine of the execution.
func Serve(c *Conn, f func(s *Stream)) Handler {
	s := &Stream{C: c}
	rt.GoName("server", func() { f(s) })
	return s
}

// Data implements Handler.
func (s *Stream) Data(p []byte) { s.in = append(s.in, p...) }

// Closed implements Handler.
func (s *Stream) Closed() { s.closed = true }

// Read implements net.Conn.
func (s *Stream) Read(p []byte) (int, error) {
	n := 0
	rt.Wait("server read", func() bool { return len(s.in) > 0 || s.closed || s.done })
	rt.Do(func() {
		n = copy(p, s.in)
		s.in = s.in[n:]
	})
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

// Write implements net.Conn.
func (s *Stream) Write(p []byte) (int, error) {
	rt.Do(func() { s.C.Push(p) })
	return len(p), nil
}

// Close implements net.Conn.
func (s *Stream) Close() error {
	rt.Do(func() {
		if !s.done {
			s.done = true
			s.C.FIN()
		}
	})
	return nil
}

// LocalAddr implements net.Conn.
func (s *Stream) LocalAddr() net.Addr { return addr(s.C.Addr) }

// RemoteAddr implements net.Conn.
func (s *Stream) RemoteAddr() net.Addr { return s.C.LocalAddr() }

// SetDeadline implements net.Conn.
func (s *Stream) SetDeadline(t time.Time) error { return nil }

// SetReadDeadline implements net.Conn.
func (s *Stream) SetReadDeadline(t time.Time) error { return nil }

// SetWriteDeadline implements net.Conn.
func (s *Stream) SetWriteDeadline(t time.Time) error { return nil }
