// Package vsync stands in for package sync in the instrumented library. Its locks block on channels, so
// that a goroutine waiting for a lock is durably blocked in the sense of testing/synctest (fake time can
// advance, deadlocks are visible), and they consult the scheduler after every wake-up. Their semantics
// are those of package sync: mutual exclusion, no ownership, barging allowed, a waiting writer holds off
// new readers.
package vsync

import (
	"sync"
	"sync/atomic"

	"tinyverif/vsync/vy"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Map       = sync.Map
	Cond      = sync.Cond
)

// epoch is advanced by Reset: what a Pool holds then belongs to an earlier case.
var epoch atomic.Int64

// Reset empties every Pool. Each case runs in a bubble of its own, and neither a channel nor a timer of one
// bubble can be used in another.
func Reset() { epoch.Add(1) }

// Pool replaces sync.Pool: what was put last is handed out first.
type Pool struct {
	New   func() any
	g     sync.Mutex
	epoch int64
	items []any
}

func (p *Pool) Get() any {
	p.g.Lock()
	if e := epoch.Load(); p.epoch != e {
		p.epoch, p.items = e, nil
	}
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.g.Unlock()
		return x
	}
	p.g.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.g.Lock()
	if e := epoch.Load(); p.epoch != e {
		p.epoch, p.items = e, nil
	}
	p.items = append(p.items, x)
	p.g.Unlock()
}

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[T, U any](f func() (T, U)) func() (T, U) { return sync.OnceValues(f) }

// waiter is a goroutine waiting for a lock. A goroutine that lost the race for the lock twice is handed
// the lock by the next unlock, so that nobody starves (package sync has a similar rule).
type waiter struct {
	c       chan struct{}
	lost    int
	granted bool
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	g      sync.Mutex
	locked bool
	ws     []*waiter
}

func (m *Mutex) Lock() {
	vy.Y()
	w := &waiter{}
	for {
		m.g.Lock()
		if w.granted {
			m.g.Unlock()
			return
		}
		if !m.locked {
			m.locked = true
			m.drop(w)
			m.g.Unlock()
			return
		}
		if w.c != nil {
			w.lost++
		} else {
			m.ws = append(m.ws, w)
		}
		w.c = make(chan struct{})
		c := w.c
		m.g.Unlock()
		<-c
		vy.Y()
	}
}

func (m *Mutex) drop(w *waiter) {
	for i, x := range m.ws {
		if x == w {
			m.ws = append(m.ws[:i:i], m.ws[i+1:]...)
			return
		}
	}
}

func (m *Mutex) TryLock() bool {
	vy.Y()
	m.g.Lock()
	defer m.g.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func closed(c chan struct{}) bool {
	select {
	case <-c:
		return true
	default:
		return false
	}
}

func (m *Mutex) Unlock() {
	m.unlock()
	vy.Y()
}

func (m *Mutex) unlock() {
	m.g.Lock()
	defer m.g.Unlock()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	for _, w := range m.ws {
		if w.lost >= 2 {
			w.granted = true
			m.drop(w)
			if !closed(w.c) {
				close(w.c)
				vy.Woke()
			}
			return
		}
	}
	m.locked = false
	for _, w := range m.ws {
		if !closed(w.c) {
			close(w.c)
			vy.Woke()
		}
	}
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	w       Mutex // held by the writer
	g       sync.Mutex
	pending bool // a writer holds or waits for the lock: new readers wait
	writer  bool // a writer holds the lock
	readers int
	rwait   []chan struct{}
	wwait   chan struct{}
}

func (m *RWMutex) Lock() {
	m.w.Lock()
	m.g.Lock()
	m.pending = true
	if m.readers > 0 {
		m.wwait = make(chan struct{})
		c := m.wwait
		m.g.Unlock()
		<-c
		vy.Y()
		m.g.Lock()
	}
	m.writer = true
	m.g.Unlock()
}

func (m *RWMutex) admit() {
	m.pending, m.writer = false, false
	m.readers += len(m.rwait)
	for _, c := range m.rwait {
		close(c)
		vy.Woke()
	}
	m.rwait = nil
}

func (m *RWMutex) Unlock() {
	m.g.Lock()
	if !m.writer {
		m.g.Unlock()
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.admit()
	m.g.Unlock()
	m.w.Unlock()
}

func (m *RWMutex) RLock() {
	vy.Y()
	m.g.Lock()
	if !m.pending {
		m.readers++
		m.g.Unlock()
		return
	}
	c := make(chan struct{})
	m.rwait = append(m.rwait, c)
	m.g.Unlock()
	<-c
	vy.Y()
}

func (m *RWMutex) RUnlock() {
	m.runlock()
	vy.Y()
}

func (m *RWMutex) runlock() {
	m.g.Lock()
	defer m.g.Unlock()
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 && m.wwait != nil {
		close(m.wwait)
		vy.Woke()
		m.wwait = nil
	}
}

func (m *RWMutex) TryLock() bool {
	if !m.w.TryLock() {
		return false
	}
	m.g.Lock()
	if m.readers > 0 {
		m.g.Unlock()
		m.w.Unlock()
		return false
	}
	m.pending, m.writer = true, true
	m.g.Unlock()
	return true
}

func (m *RWMutex) TryRLock() bool {
	vy.Y()
	m.g.Lock()
	defer m.g.Unlock()
	if m.pending {
		return false
	}
	m.readers++
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done {
		return
	}
	defer func() { o.done = true }()
	f()
}
