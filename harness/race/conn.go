package race

import (
	"io"
	"net"
	"os"
	"sync/atomic"
	"time"
)

// conn is an in-memory connection that adds as little synchronisation as possible: what a goroutine
// writes is ordered before what the server does with it, and what the server sends before the read that
// returns it. Nothing else is ordered, so that the race detector judges the library's own
// synchronisation only.
type conn struct {
	out   chan []byte // to the server
	in    chan []byte // to the client
	rest  []byte      // only touched by Read, which one goroutine calls
	gone  chan struct{}
	eof   chan struct{}
	rdl   int64
	wdl   int64
	nw    int64
	wfail int64 // the write with this number fails
	wpart int64
	gate  chan struct{} // held during Close
}

func newConn() *conn {
	c := &conn{out: make(chan []byte, 4096), in: make(chan []byte, 4096), gone: make(chan struct{}), eof: make(chan struct{}), gate: make(chan struct{}, 1)}
	return c
}

// The deadlines and counters are plain words accessed without instrumentation.

//go:norace
//go:noinline
func get(p *int64) int64 { return *p }

//go:norace
//go:noinline
func put(p *int64, v int64) { *p = v }

//go:norace
//go:noinline
func (c *conn) write() (n, fail, part int64) {
	c.nw++
	return c.nw, c.wfail, c.wpart
}

//go:norace
//go:noinline
func (c *conn) left() []byte { return c.rest }

//go:norace
//go:noinline
func (c *conn) keep(b []byte) { c.rest = b }

func deadline(v int64) (time.Duration, bool) {
	if v == 0 {
		return 0, false
	}
	return time.Until(time.Unix(0, v)), true
}

func (c *conn) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	r := c.left()
	if len(r) == 0 {
		var t <-chan time.Time
		if d, ok := deadline(get(&c.rdl)); ok {
			if d <= 0 {
				return 0, os.ErrDeadlineExceeded
			}
			tm := time.NewTimer(d)
			defer tm.Stop()
			t = tm.C
		}
		select {
		case r = <-c.in:
		case <-t:
			return 0, os.ErrDeadlineExceeded
		case <-c.gone:
			return 0, net.ErrClosed
		case <-c.eof:
			return 0, io.EOF
		}
	}
	n := copy(b, r)
	c.keep(r[n:])
	return n, nil
}

func (c *conn) Write(b []byte) (int, error) {
	select {
	case <-c.gone:
		return 0, net.ErrClosed
	default:
	}
	if d, ok := deadline(get(&c.wdl)); ok && d <= 0 {
		return 0, os.ErrDeadlineExceeded
	}
	n, fail, part := c.write()
	if n == fail {
		if int(part) > len(b) {
			part = int64(len(b))
		}
		if part > 0 {
			c.out <- append([]byte(nil), b[:part]...)
		}
		return int(part), io.ErrClosedPipe
	}
	c.out <- append([]byte(nil), b...)
	return len(b), nil
}

func (c *conn) Close() error {
	c.gate <- struct{}{}
	defer func() { <-c.gate }()
	select {
	case <-c.gone:
		return net.ErrClosed
	default:
		close(c.gone)
		return nil
	}
}

func ns(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	return t.UnixNano()
}

func (c *conn) SetDeadline(t time.Time) error {
	select {
	case <-c.gone:
		return net.ErrClosed
	default:
	}
	put(&c.rdl, ns(t))
	put(&c.wdl, ns(t))
	return nil
}
func (c *conn) SetReadDeadline(t time.Time) error  { put(&c.rdl, ns(t)); return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { put(&c.wdl, ns(t)); return nil }

type addr struct{}

func (addr) Network() string { return "mem" }
func (addr) String() string  { return "mem" }

func (c *conn) LocalAddr() net.Addr  { return addr{} }
func (c *conn) RemoteAddr() net.Addr { return addr{} }

// link is what the client gets: the application replaces the connection behind it to connect again.
type link struct{ p atomic.Pointer[conn] }

func (l *link) Read(b []byte) (int, error)         { return l.p.Load().Read(b) }
func (l *link) Write(b []byte) (int, error)        { return l.p.Load().Write(b) }
func (l *link) Close() error                       { return l.p.Load().Close() }
func (l *link) SetDeadline(t time.Time) error      { return l.p.Load().SetDeadline(t) }
func (l *link) SetReadDeadline(t time.Time) error  { return l.p.Load().SetReadDeadline(t) }
func (l *link) SetWriteDeadline(t time.Time) error { return l.p.Load().SetWriteDeadline(t) }
func (l *link) LocalAddr() net.Addr                { return addr{} }
func (l *link) RemoteAddr() net.Addr               { return addr{} }
