// Package sim provides the surroundings of a client under test: a network connection in fake time, a
// recording storage and a server.
package sim

import (
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"time"

	"tinyverif/vsync/vy"
)

// ErrFault is what injected faults return.
var ErrFault = errors.New("injected fault")

// Seg is a piece of inbound data that becomes readable at At.
type Seg struct {
	At   time.Time
	Data []byte
}

// WriteRec is one Write call.
type WriteRec struct {
	Data []byte // bytes accepted
	Want int    // bytes offered
	Err  error
	Seq  int
	At   time.Time
}

// Conn is a net.Conn in fake time (testing/synctest). It behaves like a TCP connection: reads return
// what has arrived (at most Chunk bytes), block until the deadline otherwise; writes are atomic with
// respect to each other.
type Conn struct {
	mu       sync.Mutex
	segs     []Seg
	readN    int64 // bytes consumed by the client
	rdl, wdl time.Time
	closed   bool
	closes   int
	gen      int
	eof      bool
	eofAt    time.Time
	endErr   error
	changed  chan struct{}
	lastAt   time.Time

	Chunk []int // sizes of successive reads, cycled; empty: everything available
	ci    int

	Writes   []WriteRec
	Out      []byte
	SetErr   func(n int) error              // fault for the n-th SetDeadline call
	WriteErr func(n, size int) (int, error) // fault for the n-th Write: bytes accepted
	ReadErr  func(n int) error              // fault for the n-th Read
	CloseErr error                          // returned by the first Close, which closes all the same
	nset     int
	nread    int
	OnWrite  func(b []byte) // called with the accepted bytes while nothing else is written
	OnRead   func(total int64)
	Seq      func() int
	Yield    bool
	writing  bool
}

// ErrStall, returned by WriteErr, makes the write block until its deadline.
var ErrStall = errors.New("stall")

func NewConn() *Conn { return &Conn{changed: make(chan struct{})} }

func (c *Conn) bump() {
	close(c.changed)
	vy.Woke()
	c.changed = make(chan struct{})
}

// Push makes data readable after d, never before earlier data.
func (c *Conn) Push(d time.Duration, b []byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	at := time.Now().Add(d)
	if at.Before(c.lastAt) {
		at = c.lastAt
	}
	c.lastAt = at
	c.segs = append(c.segs, Seg{at, append([]byte(nil), b...)})
	c.bump()
}

// EOF ends the inbound stream after what was pushed.
func (c *Conn) EOF() { c.End(0, io.EOF) }

// End makes reads fail with err after d, once everything that was pushed is consumed.
func (c *Conn) End(d time.Duration, err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.eof, c.endErr, c.eofAt = true, err, time.Now().Add(d)
	c.bump()
}

// Pending is the number of inbound bytes not consumed yet; Readable those that have arrived.
func (c *Conn) Pending() (n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, s := range c.segs {
		n += len(s.Data)
	}
	return
}

// ReadTotal is the number of bytes the client consumed.
func (c *Conn) ReadTotal() int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.readN
}

func (c *Conn) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

func (c *Conn) Read(b []byte) (int, error) {
	vy.Y()
	c.mu.Lock()
	c.nread++
	if c.ReadErr != nil {
		if err := c.ReadErr(c.nread); err != nil {
			c.mu.Unlock()
			return 0, err
		}
	}
	gen := c.gen
	for {
		if c.closed || c.gen != gen {
			c.mu.Unlock()
			return 0, net.ErrClosed
		}
		now := time.Now()
		if !c.rdl.IsZero() && !now.Before(c.rdl) {
			c.mu.Unlock()
			return 0, os.ErrDeadlineExceeded
		}
		if len(b) == 0 {
			c.mu.Unlock()
			return 0, nil
		}
		var wait time.Time
		if len(c.segs) > 0 {
			s := &c.segs[0]
			if !s.At.After(now) {
				n := len(b)
				if len(c.Chunk) > 0 {
					if k := c.Chunk[c.ci%len(c.Chunk)]; k > 0 && k < n {
						n = k
					}
					c.ci++
				}
				n = copy(b[:n], s.Data)
				s.Data = s.Data[n:]
				if len(s.Data) == 0 {
					c.segs = c.segs[1:]
				}
				c.readN += int64(n)
				total := c.readN
				c.mu.Unlock()
				if c.OnRead != nil {
					c.OnRead(total)
				}
				return n, nil
			}
			wait = s.At
		} else if c.eof {
			if now.Before(c.eofAt) {
				wait = c.eofAt
			} else {
				err := c.endErr
				c.mu.Unlock()
				return 0, err
			}
		}
		if !c.rdl.IsZero() && (wait.IsZero() || c.rdl.Before(wait)) {
			wait = c.rdl
		}
		ch := c.changed
		c.mu.Unlock()
		if wait.IsZero() {
			<-ch
		} else {
			t := time.NewTimer(time.Until(wait))
			select {
			case <-ch:
			case <-t.C:
			}
			t.Stop()
		}
		vy.Y()
		c.mu.Lock()
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	vy.Y()
	c.mu.Lock()
	n, err := len(b), error(nil)
	idx := len(c.Writes)
	switch {
	case c.closed:
		n, err = 0, net.ErrClosed
	case !c.wdl.IsZero() && !time.Now().Before(c.wdl):
		n, err = 0, os.ErrDeadlineExceeded
	case c.WriteErr != nil:
		n, err = c.WriteErr(idx, len(b))
	}
	data := append([]byte(nil), b[:n]...)
	rec := WriteRec{Data: data, Want: len(b), Err: err, At: time.Now()}
	if c.Seq != nil {
		rec.Seq = c.Seq()
	}
	c.Writes = append(c.Writes, rec)
	c.Out = append(c.Out, data...)
	c.mu.Unlock()
	if c.OnWrite != nil && n > 0 {
		c.OnWrite(data)
	}
	if err == ErrStall {
		return n, c.stall()
	}
	return n, err
}

// stall blocks a write until its deadline.
func (c *Conn) stall() error {
	gen := -1
	for {
		c.mu.Lock()
		if gen < 0 {
			gen = c.gen
		}
		if c.closed || c.gen != gen {
			c.mu.Unlock()
			return net.ErrClosed
		}
		at, ch := c.wdl, c.changed
		c.mu.Unlock()
		var after <-chan time.Time
		if !at.IsZero() {
			d := time.Until(at)
			if d <= 0 {
				return os.ErrDeadlineExceeded
			}
			t := time.NewTimer(d)
			defer t.Stop()
			after = t.C
		}
		select {
		case <-ch:
		case <-after:
		}
		vy.Y()
	}
}

func (c *Conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closes++
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	c.bump()
	return c.CloseErr
}

// Reopen dials again: a fresh connection behind the same net.Conn.
func (c *Conn) Reopen() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closed, c.eof, c.segs = false, false, nil
	c.gen++ // calls of the old connection end
	c.rdl, c.wdl, c.lastAt = time.Time{}, time.Time{}, time.Time{}
	c.WriteErr, c.SetErr, c.ReadErr = nil, nil, nil
	c.bump()
}

func (c *Conn) set(r, w bool, t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return net.ErrClosed
	}
	c.nset++
	if c.SetErr != nil {
		if err := c.SetErr(c.nset); err != nil {
			return err
		}
	}
	if r {
		c.rdl = t
	}
	if w {
		c.wdl = t
	}
	c.bump()
	return nil
}

func (c *Conn) SetDeadline(t time.Time) error      { return c.set(true, true, t) }
func (c *Conn) SetReadDeadline(t time.Time) error  { return c.set(true, false, t) }
func (c *Conn) SetWriteDeadline(t time.Time) error { return c.set(false, true, t) }

type addr struct{}

func (addr) Network() string { return "sim" }
func (addr) String() string  { return "sim" }

func (c *Conn) LocalAddr() net.Addr  { return addr{} }
func (c *Conn) RemoteAddr() net.Addr { return addr{} }

var _ net.Conn = (*Conn)(nil)
