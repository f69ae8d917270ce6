// Package sched serialises the goroutines of a case and decides their interleaving. It runs inside a
// testing/synctest bubble: a goroutine runs until it yields at a point where the plan preempts it, or
// until it blocks; fake time advances when no goroutine can run.
package sched

import (
	"context"
	"fmt"
	"math/rand/v2"
	"runtime/pprof"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
	"unsafe"

	"tinyverif/vsync/vy"
)

//go:linkname getProfLabel runtime/pprof.runtime_getProfLabel
func getProfLabel() unsafe.Pointer

// Running counts the application's calls under way.
var Running atomic.Int64

// App runs f, which calls the library, on a goroutine of its own.
func App(f func()) {
	Running.Add(1)
	go func() {
		defer Running.Add(-1)
		f()
	}()
}

// gptr tells goroutines apart (the address of a live goroutine's descriptor).
func gptr() uintptr

// Pre preempts goroutine G at its K-th yield.
type Pre struct{ G, K int }

// Plan decides an interleaving.
type Plan struct {
	// Switch > 0: random walk, a running goroutine is preempted with probability Switch/1000 per yield.
	// Switch == 0: priorities with the change points in Pre (PCT).
	Switch int
	Seed   uint64
	Prio   []int
	Pre    []Pre
	// Wait is the percentage of the points right before a goroutine waits at which it loses its priority:
	// what it decided to wait for may happen first.
	Wait int
	// Hold > 0: a goroutine that has waited is, with the same percentage, stopped for that many milliseconds
	// before it goes on (a few times per run).
	Hold int `json:",omitempty"`
}

// holds bounds how often a goroutine is stopped.
const holds = 3

// S is a running scheduler.
type S struct {
	mu     sync.Mutex
	ids    map[uintptr]int
	labels map[unsafe.Pointer]bool
	parked []parked
	cur    int
	counts []int
	prio   []int
	drag   []bool // lost its priority: a little time passes before it runs again
	waited []bool // its last yield was right before a wait
	until  []time.Time
	held   []int
	low    int
	steps  int
	live   int
	wake   chan struct{}
	rng    *rand.Rand
	plan   Plan
	pre    map[Pre]bool
	free   bool // no more scheduling: everything runs
	names  []string
	Panics []string
}

type parked struct {
	id int
	ch chan struct{}
}

// Limit bounds the number of yields of a case.
const Limit = 400000

func New(p Plan) *S {
	s := &S{ids: map[uintptr]int{}, labels: map[unsafe.Pointer]bool{}, cur: -1, wake: make(chan struct{}, 1), plan: p, pre: map[Pre]bool{},
		rng: rand.New(rand.NewPCG(p.Seed, 99))}
	for _, x := range p.Pre {
		s.pre[x] = true
	}
	return s
}

func (s *S) poke() {
	select {
	case s.wake <- struct{}{}:
	default:
	}
}

// Go starts a goroutine under the scheduler. onPanic receives a recovered panic.
func (s *S) Go(name string, f func(), onPanic func(any)) {
	s.mu.Lock()
	id := s.add(name)
	s.live++
	s.mu.Unlock()
	Running.Add(1)
	started := make(chan struct{})
	go func() {
		defer Running.Add(-1)
		ctx := pprof.WithLabels(context.Background(), pprof.Labels("g", strconv.Itoa(id)))
		pprof.SetGoroutineLabels(ctx)
		s.mu.Lock()
		s.ids[gptr()] = id
		s.labels[getProfLabel()] = true
		s.mu.Unlock()
		close(started)
		defer func() {
			if r := recover(); r != nil && onPanic != nil {
				onPanic(r)
			}
			s.mu.Lock()
			s.live--
			delete(s.ids, gptr())
			if s.cur == id {
				s.cur = -1
			}
			s.mu.Unlock()
			s.poke()
		}()
		s.park(id)
		f()
	}()
	<-started
}

// add registers a goroutine. mu held.
func (s *S) add(name string) int {
	id := len(s.counts)
	s.counts = append(s.counts, 0)
	s.drag = append(s.drag, false)
	s.waited = append(s.waited, false)
	s.held = append(s.held, 0)
	s.until = append(s.until, time.Time{})
	pr := id
	if id < len(s.plan.Prio) {
		pr = s.plan.Prio[id]
	}
	s.prio = append(s.prio, 1000+pr)
	s.names = append(s.names, name)
	return id
}

func (s *S) park(id int) {
	s.mu.Lock()
	if s.free {
		s.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	s.parked = append(s.parked, parked{id, ch})
	s.mu.Unlock()
	s.poke()
	<-ch
}

func (s *S) yield(wait bool) {
	lab := getProfLabel()
	if lab == nil {
		return
	}
	s.mu.Lock()
	if !s.labels[lab] || s.free {
		s.mu.Unlock()
		return
	}
	id, ok := s.ids[gptr()]
	if !ok {
		// started by the library: it has the labels of the goroutine that started it
		id = s.add("")
		s.ids[gptr()] = id
	}
	s.counts[id]++
	s.steps++
	if s.steps > Limit {
		s.mu.Unlock()
		return
	}
	if s.plan.Hold > 0 {
		if s.waited[id] && id != s.cur && s.held[id] < holds && s.hash(id, s.counts[id])%100 < uint64(s.plan.Wait) {
			s.held[id]++
			s.until[id] = time.Now().Add(time.Duration(s.plan.Hold) * time.Millisecond)
		}
		s.waited[id] = wait
	}
	// A goroutine that was woken must have parked before the decision, or the run would depend on timing.
	if id == s.cur && vy.TakeWoke() {
		if s.drop(id, wait) {
			s.cur = -1
		}
		s.mu.Unlock()
		s.park(id)
		return
	}
	stay := id == s.cur
	if stay {
		if s.plan.Switch > 0 {
			stay = len(s.parked) == 0 || !s.drop(id, wait)
		} else {
			s.drop(id, wait)
			for _, p := range s.parked {
				if s.prio[p.id] > s.prio[id] && !s.isHeld(p.id) {
					stay = false
				}
			}
		}
	}
	s.mu.Unlock()
	if stay {
		return
	}
	s.park(id)
}

// drop decides whether the running goroutine is preempted (random walk) or loses its priority. mu held.
func (s *S) drop(id int, wait bool) bool {
	if s.plan.Switch > 0 {
		return s.rng.IntN(1000) < s.plan.Switch
	}
	if s.pre[Pre{id, s.counts[id]}] || wait && s.plan.Wait > 0 && s.rng.IntN(100) < s.plan.Wait {
		s.low--
		s.prio[id] = s.low
		s.drag[id] = true
	}
	return false
}

// Result of a run.
type Result struct {
	Steps   int
	Stuck   bool // some goroutine never finished
	Overrun bool
	Left    []string
}

// Run schedules until every goroutine started with Go has finished. horizon bounds the fake time.
func (s *S) Run(horizon time.Duration) (r Result) {
	f := s.yield
	vy.Set(f)
	defer vy.Set(nil)
	end := time.Now().Add(horizon)
	for {
		synctest.Wait()
		s.mu.Lock()
		r.Steps = s.steps
		if s.live == 0 {
			s.release()
			s.mu.Unlock()
			return r
		}
		if s.steps > Limit {
			r.Overrun = true
			s.release()
			s.mu.Unlock()
			return r
		}
		if len(s.parked) > 0 {
			k := s.pick()
			if k < 0 { // all are stopped
				d := time.Hour
				for _, p := range s.parked {
					d = min(d, time.Until(s.until[p.id]))
				}
				s.cur = -1
				s.mu.Unlock()
				t := time.NewTimer(d)
				select {
				case <-s.wake:
				case <-t.C:
				}
				t.Stop()
				continue
			}
			p := s.parked[k]
			if s.drag[p.id] {
				s.drag[p.id] = false
				s.mu.Unlock()
				time.Sleep(2 * time.Microsecond)
				continue
			}
			s.parked = append(s.parked[:k], s.parked[k+1:]...)
			s.cur = p.id
			s.mu.Unlock()
			close(p.ch)
			continue
		}
		s.cur = -1
		s.mu.Unlock()
		left := time.Until(end)
		if left <= 0 {
			s.mu.Lock()
			r.Stuck = true
			s.release()
			s.mu.Unlock()
			return r
		}
		t := time.NewTimer(left)
		select {
		case <-s.wake:
		case <-t.C:
		}
		t.Stop()
	}
}

// release lets every goroutine run freely.
func (s *S) release() {
	s.free = true
	for _, p := range s.parked {
		close(p.ch)
	}
	s.parked = nil
}

func (s *S) pick() int {
	sort.SliceStable(s.parked, func(i, j int) bool { return s.parked[i].id < s.parked[j].id })
	if s.plan.Switch > 0 {
		for i, p := range s.parked {
			if p.id == s.cur { // it only waited for the others
				return i
			}
		}
		return s.rng.IntN(len(s.parked))
	}
	best := -1
	for i, p := range s.parked {
		if !s.isHeld(p.id) && (best < 0 || s.prio[p.id] > s.prio[s.parked[best].id]) {
			best = i
		}
	}
	return best
}

// isHeld tells whether a goroutine is stopped for now. mu held.
func (s *S) isHeld(id int) bool {
	return s.plan.Hold > 0 && time.Now().Before(s.until[id])
}

// hash is a random number that depends on nothing but the plan and the arguments.
func (s *S) hash(a, b int) uint64 {
	h := s.plan.Seed*0x9E3779B97F4A7C15 + uint64(a)*0xBF58476D1CE4E5B9 + uint64(b)*0x94D049BB133111EB
	h ^= h >> 31
	h *= 0xD6E8FEB86659FD93
	return h ^ h>>29
}

// Stats describes how much interleaving happened.
func (s *S) Stats() string { return fmt.Sprint(s.steps, s.counts) }
