package client

import (
	"errors"
	"fmt"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/storage"
	"github.com/waj334/tinygo-mqtt/mqtt/storage/memory"

	"tinyverif/gen"
	"tinyverif/prop"
	"tinyverif/sched"
)

// mem.go decides C24: the memory storage against a map, in sequence and concurrently.

// MOp is a call of the storage: S(tore), G(et), D(rop).
type MOp struct {
	Op string
	ID int
	V  int `json:",omitempty"` // what is stored: a fresh packet of this kind, or (99) one stored before
}

type MemCase struct {
	Plan    sched.Plan
	Setup   []MOp `json:",omitempty"`
	Threads [][]MOp
}

// memVal makes a value; pointers are distinguishable from every other.
func memVal(kind int) any {
	switch kind {
	case 0:
		return &packets.Publish{Topic: "t"}
	case 1:
		return &packets.Pubrec{}
	case 2:
		return &packets.Pubrel{}
	case 4:
		return nil
	case 5:
		return (*packets.Publish)(nil)
	case 6:
		return "a packet"
	}
	return new(int)
}

// held is what an occupied identifier holds.
type held struct{ v any }

type mcall struct {
	MOp
	val        any
	start, end int
	got        any
	err        error
}

func (c *mcall) run(s *memory.Storage, tick func() int) {
	c.start = tick()
	switch c.Op {
	case "S":
		c.err = s.Store(uint16(c.ID), c.val)
	case "G":
		c.got, c.err = s.Get(uint16(c.ID))
	case "D":
		c.err = s.Drop(uint16(c.ID))
	}
	c.end = tick()
}

// apply tells whether the call may have had its result with cur (nil: no entry) stored, and what is
// stored afterwards.
func (c *mcall) apply(cur any) (any, bool) {
	switch c.Op {
	case "S":
		if cur != nil {
			return cur, errors.Is(c.err, storage.ErrDuplicateEntry)
		}
		return held{c.val}, c.err == nil
	case "G":
		if cur == nil {
			return nil, errors.Is(c.err, storage.ErrNoEntry)
		}
		return cur, c.err == nil && c.got == cur.(held).v
	}
	if cur == nil {
		return nil, errors.Is(c.err, storage.ErrNoEntry)
	}
	return nil, c.err == nil
}

func (c *mcall) String() string {
	r := "ok"
	if c.err != nil {
		r = c.err.Error()
	}
	return fmt.Sprintf("%s(%d) during %d..%d: %s", map[string]string{"S": "Store", "G": "Get", "D": "Drop"}[c.Op], c.ID, c.start, c.end, r)
}

// linearizable decides whether the calls on one identifier have a legal order.
func linearizable(cs []*mcall) bool {
	type st struct {
		done uint64
		cur  any
	}
	seen := map[st]bool{}
	var rec func(st) bool
	rec = func(s st) bool {
		if s.done == 1<<len(cs)-1 {
			return true
		}
		if seen[s] {
			return false
		}
		seen[s] = true
		first := 1 << 60 // the earliest end among the calls left
		for i, c := range cs {
			if s.done>>i&1 == 0 {
				first = min(first, c.end)
			}
		}
		for i, c := range cs {
			if s.done>>i&1 == 0 && c.start < first {
				if cur, ok := c.apply(s.cur); ok && rec(st{s.done | 1<<i, cur}) {
					return true
				}
			}
		}
		return false
	}
	return rec(st{})
}

func C24(t *testing.T) {
	prop.Check(t, prop.Spec[[]MOp]{Crashy: true, ID: "C24", Part: "sequential", Quick: 20000, Thorough: 300000,
		Rule: "an entry is dropped while others are stored, or a duplicate is refused",
		Gen: func(t *rapid.T) (ops []MOp) {
			ids := gen.Pick(t, "ids", []int{2, 5, 12, 40})
			for i := gen.Int(t, "n", 1, gen.Pick(t, "max", []int{10, 40, 120})); i > 0; i-- {
				o := MOp{Op: gen.Pick(t, "op", []string{"S", "S", "S", "G", "D"}), ID: gen.Int(t, "id", 1, ids)}
				if gen.Chance(t, "edge", 5) {
					o.ID = gen.Pick(t, "edgeid", []int{0, 255, 256, 257, 65535, 65280})
				}
				if o.Op == "S" {
					o.V = gen.Int(t, "v", 0, 3)
					if gen.Chance(t, "odd", 10) {
						o.V = gen.Int(t, "v", 4, 6)
					}
					if gen.Chance(t, "again", 10) {
						o.V = 99
					}
				}
				ops = append(ops, o)
			}
			return
		},
		Run: func(ops []MOp) (info prop.Info, err error) {
			s := memory.NewStorage()
			m := map[int]any{}
			var last any = memVal(0)
			n := 0
			tick := func() int { n++; return n }
			for i, o := range ops {
				c := &mcall{MOp: o}
				if o.Op == "S" {
					if o.V != 99 {
						last = memVal(o.V)
					}
					c.val = last
				}
				c.run(s, tick)
				had := len(m)
				cur, ok := c.apply(m[o.ID])
				if !ok {
					return info, fmt.Errorf("call %d: %v; stored before: %v, returned %p", i, c, m[o.ID] != nil, c.got)
				}
				if o.Op == "S" && c.err != nil {
					info.NonTrivial = true
					info.Add("duplicate refused")
				}
				if o.Op == "D" && c.err == nil && had > 1 {
					info.NonTrivial = true
					info.Add("dropped among others")
				}
				if m[o.ID] = cur; cur == nil {
					delete(m, o.ID)
				}
				if o.Op != "G" {
					for id := range m {
						c := &mcall{MOp: MOp{Op: "G", ID: id}}
						c.run(s, tick)
						if _, ok := c.apply(m[id]); !ok {
							return info, fmt.Errorf("after call %d (%s %d): entry %d: %v", i, o.Op, o.ID, id, c)
						}
					}
				}
			}
			return info, nil
		}})
	prop.Check(t, prop.Spec[[]MBulk]{Crashy: true, ID: "C24", Part: "bulk", Quick: 100, Thorough: 4000,
		Rule: "more than 100 entries are stored at once", Gen: genBulk, Run: runBulk})
	prop.Check(t, prop.Spec[MemCase]{Crashy: true, ID: "C24", Part: "concurrent", Quick: 20000, Thorough: 400000,
		Rule: "calls on one identifier overlap in time",
		Gen: func(t *rapid.T) (c MemCase) {
			n := gen.Int(t, "threads", 2, 4)
			ids := gen.Int(t, "ids", 1, 3)
			op := func() MOp {
				return MOp{Op: gen.Pick(t, "op", []string{"S", "S", "G", "D", "D"}), ID: gen.Int(t, "id", 1, ids)}
			}
			for k := gen.Int(t, "setup", 0, 4); k > 0; k-- {
				c.Setup = append(c.Setup, MOp{Op: "S", ID: gen.Int(t, "id", 1, ids+3)})
			}
			for i := 0; i < n; i++ {
				var ops []MOp
				for k := gen.Int(t, "n", 1, 5); k > 0; k-- {
					ops = append(ops, op())
				}
				c.Threads = append(c.Threads, ops)
			}
			c.Plan = genPlan(t, n)
			if c.Plan.Switch > 0 {
				c.Plan.Switch = gen.Pick(t, "often", []int{100, 300, 600})
			}
			for i := range c.Plan.Pre { // short threads
				c.Plan.Pre[i].K = 1 + c.Plan.Pre[i].K%40
			}
			return
		},
		Run: func(c MemCase) (info prop.Info, err error) {
			e := Bubble(t, func() { err = runMem(c, &info) })
			if err == nil && e != nil {
				err = fmt.Errorf("a call of the storage never returns: %v", e)
			}
			return
		}})
}

// MBulk is a series of calls for the identifiers From, From+By, ... modulo 65536.
type MBulk struct {
	Op          string
	From, N, By int
}

func genBulk(t *rapid.T) (bs []MBulk) {
	most := gen.Pick(t, "most", []int{150, 300, 1000, 1000, 3000})
	if gen.Chance(t, "huge", 4) {
		most = 20000
	}
	for i := gen.Int(t, "n", 1, 10); i > 0; i-- {
		bs = append(bs, MBulk{Op: gen.Pick(t, "op", []string{"S", "S", "S", "D", "D", "G"}), From: gen.Int(t, "from", 0, 65535),
			N: gen.Int(t, "count", 1, most), By: gen.Pick(t, "by", []int{1, 1, 2, 3, 256, 65535})})
		if l := len(bs); l > 1 && gen.Chance(t, "same", 60) { // related to what is there
			bs[l-1].From = (bs[gen.Int(t, "which", 0, l-2)].From + gen.Int(t, "off", 0, 20)) % 65536
		}
	}
	return
}

func runBulk(bs []MBulk) (info prop.Info, err error) {
	s := memory.NewStorage()
	m := map[int]any{}
	n := 0
	tick := func() int { n++; return n }
	one := func(o MOp) error {
		c := &mcall{MOp: o}
		if o.Op == "S" {
			c.val = memVal(o.ID % 7)
		}
		c.run(s, tick)
		cur, ok := c.apply(m[o.ID])
		if !ok {
			return fmt.Errorf("%v; stored before: %v", c, m[o.ID] != nil)
		}
		if m[o.ID] = cur; cur == nil {
			delete(m, o.ID)
		}
		return nil
	}
	for i, b := range bs {
		for k := 0; k < b.N; k++ {
			if err := one(MOp{Op: b.Op, ID: (b.From + k*b.By) % 65536}); err != nil {
				return info, fmt.Errorf("series %d, call %d with %d entries stored: %w", i, k, len(m), err)
			}
		}
		if len(m) > 100 {
			info.NonTrivial = true
			info.Add("many entries")
		}
		var ids []int
		for id := range m {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			if err := one(MOp{Op: "G", ID: id}); err != nil {
				return info, fmt.Errorf("after series %d with %d entries stored: %w", i, len(m), err)
			}
		}
	}
	return info, nil
}

func runMem(c MemCase, info *prop.Info) (err error) {
	s := memory.NewStorage()
	var all []*mcall
	n := 0
	tick := func() int { n++; return n } // only one goroutine runs at a time
	do := func(o MOp) {
		x := &mcall{MOp: o}
		if o.Op == "S" {
			x.val = memVal(len(all) % 3)
			if len(all)%11 == 10 {
				x.val = nil
			}
		}
		all = append(all, x)
		x.run(s, tick)
	}
	for _, o := range c.Setup {
		do(o)
	}
	sc := sched.New(c.Plan)
	for _, ops := range c.Threads {
		sc.Go("caller", func() {
			for _, o := range ops {
				do(o)
			}
		}, func(r any) { err = fmt.Errorf("storage: %s", prop.PanicText(r)) })
	}
	r := sc.Run(time.Minute)
	if err != nil {
		return
	}
	if r.Stuck || r.Overrun {
		return fmt.Errorf("a call of the storage never returns")
	}
	synctest.Wait()
	ids := map[int]bool{}
	for _, x := range all {
		ids[x.ID] = true
	}
	for id := 0; id < 10; id++ {
		if ids[id] {
			do(MOp{Op: "G", ID: id})
		}
	}
	for id := 0; id < 10; id++ {
		var cs []*mcall
		for _, x := range all {
			if x.ID == id {
				cs = append(cs, x)
			}
		}
		for i, a := range cs {
			for _, b := range cs[:i] {
				if a.start < b.end && b.start < a.end {
					info.NonTrivial = true
				}
			}
		}
		if !linearizable(cs) {
			s := ""
			for _, x := range cs {
				s += "\n" + x.String()
			}
			return fmt.Errorf("the calls for identifier %d have no legal order:%s", id, s)
		}
	}
	if info.NonTrivial {
		info.Add("overlapping calls")
	}
	return nil
}
