package world

import (
	"errors"
	"io"
	"net"
	"os"
	"syscall"
	"time"

	"github.com/Harvey-OS/ninep/sim/simrt"
	"github.com/Harvey-OS/ninep/sim/simtime"
)

// pipe is one direction of a simulated connection.
type pipe struct {
	buf     []byte
	cap     int
	wclosed bool // writer is done: end of stream after buf
	rclosed bool // reader is gone: writes fail
	rerr    error
	werr    error
	busy    bool // a Write is in progress
	sent    int64
	read    int64
	cutAt   int64 // after this many bytes the direction breaks; <0 never
	cutKind string
	onCut   func()
	frozen  bool  // nothing is delivered to the reader
	chunk   int   // how Read splits: 0 whole, 1 single bytes, 2 random, 3 mostly small
	onceAt  int64 // after this many bytes one Read fails; <0 never
	onceErr error
	onOnce  func()
	stutter int64 // after this many bytes one Write fails; <0 never
	total   []byte
	keep    bool
}

func (p *pipe) readable() bool {
	return !p.frozen && (len(p.buf) > 0 || p.onceAt >= 0 && p.read >= p.onceAt || p.wclosed || p.rerr != nil) || p.rclosed
}

// simConn is one end of a simulated connection. It is a net.Conn.
type simConn struct {
	id       int
	name     string
	rd, wr   *pipe
	closed   bool
	nclose   int
	rdl, wdl time.Duration
	onWrite  func([]byte)
	peer     net.Addr // the other end's address
}

type simAddr string

func (a simAddr) Network() string { return "sim" }
func (a simAddr) String() string  { return string(a) }

func tcpAddr(host, port int) net.Addr {
	return &net.TCPAddr{IP: net.IPv4(10, 0, byte(host>>8), byte(host)), Port: port}
}

type netError struct {
	msg       string
	temp, tmo bool
}

func (e *netError) Error() string   { return e.msg }
func (e *netError) Timeout() bool   { return e.tmo }
func (e *netError) Temporary() bool { return e.temp }

func newPipe(w *W) *pipe {
	p := &pipe{cutAt: -1, onceAt: -1, stutter: -1, cap: 1 << 20}
	return p
}

// newConn makes a connection; both ends are returned.
func (w *W) newConn(name string) (a, b *simConn) {
	x, y := newPipe(w), newPipe(w)
	w.nconn++
	a = &simConn{id: 2 * w.nconn, name: name + "/a", rd: x, wr: y}
	b = &simConn{id: 2*w.nconn + 1, name: name + "/b", rd: y, wr: x}
	// Connections of some networks have no addresses to tell them apart, or
	// use them again, or the addresses of many have a part in common.
	if !w.addrSet {
		w.addrSet = true
		w.addrKind = w.cfg(5)
	}
	switch w.addrKind {
	case 1:
		a.peer, b.peer = simAddr("@"), simAddr("@")
	case 2: // from one machine
		a.peer, b.peer = tcpAddr(1, 5640), tcpAddr(1, 40000+w.nconn)
	case 3: // from many
		a.peer, b.peer = tcpAddr(1, 5640), tcpAddr(w.nconn, 40000)
	default:
		a.peer, b.peer = simAddr("peer of "+a.name), simAddr("peer of "+b.name)
	}
	return
}

func (c *simConn) SimID() int { return c.id }

func (c *simConn) Read(b []byte) (int, error) {
	s := simrt.Cur()
	if s == nil || simrt.Exiting() {
		return 0, net.ErrClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	p := c.rd
	simrt.YieldPoint("net read?")
	if !p.readable() {
		simrt.ParkUntil("net read", c.rdl, p.readable)
	}
	if simrt.Exiting() {
		return 0, net.ErrClosed
	}
	switch {
	case c.closed || p.rclosed:
		return 0, net.ErrClosed
	case c.rdl > 0 && s.Now >= c.rdl && !(len(p.buf) > 0):
		return 0, os.ErrDeadlineExceeded
	case p.onceAt >= 0 && p.read >= p.onceAt:
		p.onceAt = -1
		s.Count("fault:read-interrupted")
		s.Logf("a read fails once after %d bytes", p.read)
		if p.onOnce != nil {
			p.onOnce()
		}
		return 0, p.onceErr
	case len(p.buf) > 0:
		n := len(p.buf)
		if p.onceAt >= 0 && int64(n) > p.onceAt-p.read {
			n = int(p.onceAt - p.read)
		}
		if n > len(b) {
			n = len(b)
		}
		if n > 1 {
			switch p.chunk {
			case 1:
				n = 1
			case 2:
				n = n - s.Draw(simrt.Net, n)
			case 3:
				m := n
				if m > 9 {
					m = 9
				}
				n = 1 + s.Draw(simrt.Net, m)
			}
			if p.chunk != 0 {
				s.Count("net:chunked-read")
			}
		}
		copy(b, p.buf[:n])
		p.buf = p.buf[n:]
		s.Progress += n
		p.read += int64(n)
		return n, nil
	case p.rerr != nil:
		s.Count("fault:read-error")
		return 0, p.rerr
	}
	return 0, io.EOF
}

func (c *simConn) Write(b []byte) (int, error) {
	s := simrt.Cur()
	if s == nil || simrt.Exiting() {
		return 0, net.ErrClosed
	}
	p := c.wr
	simrt.YieldPoint("net write?")
	if p.busy {
		simrt.Park("net write lock", func() bool { return !p.busy || c.closed })
	}
	if simrt.Exiting() || c.closed {
		return 0, net.ErrClosed
	}
	p.busy = true
	defer func() { p.busy = false }()
	if c.onWrite != nil {
		c.onWrite(b)
	}
	n := 0
	for {
		if simrt.Exiting() || c.closed {
			return n, net.ErrClosed
		}
		if p.werr != nil {
			s.Count("fault:write-error")
			return n, p.werr
		}
		if p.rclosed {
			return n, syscall.EPIPE
		}
		if n == len(b) {
			return n, nil
		}
		room := p.cap - len(p.buf)
		if room <= 0 {
			s.Count("net:backpressure")
			simrt.ParkUntil("net write", c.wdl, func() bool {
				return c.closed || p.rclosed || p.werr != nil || len(p.buf) < p.cap
			})
			if c.wdl > 0 && s.Now >= c.wdl && len(p.buf) >= p.cap {
				return n, os.ErrDeadlineExceeded
			}
			continue
		}
		k := len(b) - n
		if k > room {
			k = room
		}
		if p.stutter >= 0 && p.sent+int64(k) >= p.stutter {
			k = int(p.stutter - p.sent)
			p.put(b[n : n+k])
			p.stutter = -1
			s.Count("fault:write-interrupted")
			s.Logf("a write fails once after %d bytes", p.sent)
			if p.onOnce != nil {
				p.onOnce()
			}
			return n + k, p.onceErr
		}
		if p.cutAt >= 0 && p.sent+int64(k) >= p.cutAt {
			k = int(p.cutAt - p.sent)
			p.put(b[n : n+k])
			n += k
			p.cut()
			continue
		}
		p.put(b[n : n+k])
		n += k
	}
}

func (p *pipe) put(b []byte) {
	p.buf = append(p.buf, b...)
	p.sent += int64(len(b))
	simrt.Cur().Progress += len(b)
	if p.keep {
		p.total = append(p.total, b...)
	}
}

// cut breaks the direction where it stands.
func (p *pipe) cut() {
	s := simrt.Cur()
	p.cutAt = -1
	s.Count("fault:cut-" + p.cutKind)
	s.Logf("connection breaks after %d bytes (%s)", p.sent, p.cutKind)
	switch p.cutKind {
	case "eof": // the reader sees the end of the stream, the writer an error
		p.wclosed = true
		p.werr = syscall.EPIPE
	case "reset":
		p.rerr = syscall.ECONNRESET
		p.werr = syscall.ECONNRESET
	case "werr": // only the writer notices
		p.werr = syscall.EIO
	case "rerr":
		p.rerr = syscall.ECONNRESET
	case "lost": // the reader loses what is in flight as well
		p.buf = nil
		p.rerr = syscall.ECONNRESET
		p.werr = syscall.ECONNRESET
	}
	if p.onCut != nil {
		p.onCut()
	}
}

// CloseWrite ends the stream in this end's sending direction.
func (c *simConn) CloseWrite() { c.wr.wclosed = true }

func (c *simConn) Close() error {
	if simrt.Cur() == nil {
		return nil
	}
	c.nclose++
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	c.wr.wclosed = true
	c.rd.rclosed = true
	return nil
}

// halfR and halfW are the directions of a connection as two separate streams,
// like a pair of pipes: closing one leaves the other.
type halfR struct{ c *simConn }

func (h halfR) Read(b []byte) (int, error) { return h.c.Read(b) }
func (h halfR) SimID() int                 { return h.c.id }
func (h halfR) Close() error {
	if simrt.Cur() == nil {
		return nil
	}
	h.c.rd.rclosed = true
	return nil
}

type halfW struct{ c *simConn }

func (h halfW) Write(b []byte) (int, error) { return h.c.Write(b) }
func (h halfW) SimID() int                  { return h.c.id }
func (h halfW) Close() error {
	if simrt.Cur() == nil {
		return nil
	}
	h.c.wr.wclosed = true
	if h.c.wr.werr == nil {
		h.c.wr.werr = io.ErrClosedPipe
	}
	return nil
}

func (c *simConn) LocalAddr() net.Addr  { return simAddr(c.name) }
func (c *simConn) RemoteAddr() net.Addr { return c.peer }

func toSim(t time.Time) time.Duration {
	if t.IsZero() {
		return 0
	}
	d := t.Sub(simtime.Epoch)
	if d <= 0 {
		d = 1
	}
	return d
}

func (c *simConn) SetDeadline(t time.Time) error {
	c.rdl, c.wdl = toSim(t), toSim(t)
	return nil
}
func (c *simConn) SetReadDeadline(t time.Time) error  { c.rdl = toSim(t); return nil }
func (c *simConn) SetWriteDeadline(t time.Time) error { c.wdl = toSim(t); return nil }

// readFrame reads one message at the harness's end of a connection.
func readFrame(c *simConn) ([]byte, error) {
	h := make([]byte, 4)
	if n, err := io.ReadFull(c, h); err != nil {
		if n == 0 && err == io.EOF {
			return nil, io.EOF
		}
		return h[:n], err
	}
	sz := int(h[0]) | int(h[1])<<8 | int(h[2])<<16 | int(h[3])<<24
	if sz < 7 || sz > 64<<20 {
		return h, errors.New("impossible message size")
	}
	b := make([]byte, sz)
	copy(b, h)
	if n, err := io.ReadFull(c, b[4:]); err != nil {
		return b[:4+n], io.ErrUnexpectedEOF
	}
	return b, nil
}

// ---------------------------------------------------------------- listener

type acceptEvent struct {
	conn *simConn
	err  error
}

type simListener struct {
	id       int
	q        []acceptEvent
	closed   bool
	closeErr error
	accepts  []time.Duration // when Accept was called
	returned []string        // what each Accept returned
	waiting  bool
	nclose   int
}

func (l *simListener) SimID() int { return l.id }

func (l *simListener) Accept() (net.Conn, error) {
	s := simrt.Cur()
	if s == nil || simrt.Exiting() {
		return nil, net.ErrClosed
	}
	l.accepts = append(l.accepts, s.Now)
	l.waiting = true
	simrt.Park("accept", func() bool { return l.closed || len(l.q) > 0 })
	l.waiting = false
	if simrt.Exiting() {
		return nil, net.ErrClosed
	}
	if l.closed {
		l.returned = append(l.returned, "closed")
		return nil, &net.OpError{Op: "accept", Net: "sim", Err: net.ErrClosed}
	}
	e := l.q[0]
	l.q = l.q[1:]
	if e.err != nil {
		if ne, ok := e.err.(net.Error); ok && ne.Temporary() {
			s.Count("fault:accept-temporary")
			l.returned = append(l.returned, "temp")
		} else {
			s.Count("fault:accept-permanent")
			l.returned = append(l.returned, "perm")
		}
		return nil, e.err
	}
	l.returned = append(l.returned, "conn")
	return e.conn, nil
}

func (l *simListener) Close() error {
	l.nclose++
	if l.closed {
		return &net.OpError{Op: "close", Net: "sim", Err: net.ErrClosed}
	}
	l.closed = true
	return l.closeErr
}

func (l *simListener) Addr() net.Addr { return simAddr("listener") }
