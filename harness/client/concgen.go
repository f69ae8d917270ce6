package client

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"tinyverif/gen"
	"tinyverif/prop"
	"tinyverif/sched"
)

// CProfile shapes generated concurrent cases.
type CProfile struct {
	Ops      w // weights of the calls
	Threads  [2]int
	PerTh    [2]int
	SRM      []int
	Chans    int // initial event channels, at most
	Push     int // messages the server sends on its own, at most
	PushKind w
	Faults   int // percent of cases with faults
	Kinds    []string
	Early    int // percent
	Timeout  int // percent of waiting calls with a deadline
	Times    []int
	Cancel   int
	Store    int
	Held     int
	Rng      int
	Explicit int // percent of publishes with an identifier of their own
	Codes    int // percent of cases in which the server refuses things
	Filters  []string
	Size     int // percent of large payloads
	Bad      int
	Together bool // the first answers arrive together, at once, the others are slow
	Dups     int  // more QoS 2 messages are retransmitted
	Slow     int  // percent of cases in which the server takes very long for some answers
}

var concFilters = []string{"a", "b", "a/b", "a/+", "#", "+"}
var concTopics = []string{"a", "b", "a/b", "c", "a/c"}

func genPlan(t *rapid.T, n int) (p sched.Plan) {
	p.Seed = uint64(gen.Int(t, "seed", 0, 1<<20))
	p.Switch = gen.Pick(t, "switch", []int{0, 0, 0, 20, 100, 300})
	if p.Switch == 0 {
		left := make([]int, n)
		for i := range left {
			left[i] = i
		}
		for len(left) > 0 {
			k := gen.Int(t, "prio", 0, len(left)-1)
			p.Prio = append(p.Prio, left[k])
			left = append(left[:k:k], left[k+1:]...)
		}
		for k := gen.Int(t, "changes", 0, 4); k > 0; k-- {
			m := gen.Pick(t, "mag", []int{12, 30, 80, 200, 600})
			p.Pre = append(p.Pre, sched.Pre{G: gen.Int(t, "g", 0, n-1), K: gen.Int(t, "k", 1, m)})
		}
		p.Wait = gen.Pick(t, "wait", []int{0, 0, 10, 30, 60})
		if p.Wait > 0 && gen.Chance(t, "hold?", 30) {
			p.Hold = gen.Pick(t, "hold", []int{1, 5, 25, 80})
		}
	}
	return p
}

var concOps = []string{"pub0", "pub1", "pub2", "sub", "unsub", "chan", "close", "ka", "kai", "isconn", "sleep", "disc"}
var concPushes = []string{"publish", "stray", "auth", "pingresp", "disc", "eof"}

func (p CProfile) gen(t *rapid.T) (c ConcCase) {
	c.Cfg.ServerRM = gen.Pick(t, "srm", p.SRM)
	c.Cfg.KA = gen.Pick(t, "ka", []int{0, 60000})
	c.Cfg.Ack = genAck(t)
	for i := gen.Int(t, "chans", 0, p.Chans); i > 0; i-- {
		c.Cfg.Caps = append(c.Cfg.Caps, 1)
	}
	if gen.Chance(t, "store", p.Store) {
		c.Cfg.Store = gen.Int(t, "kind", 1, 2)
	}
	if c.Cfg.Store > 0 && gen.Chance(t, "held", p.Held) {
		for i := gen.Int(t, "nheld", 1, 4); i > 0; i-- {
			c.Cfg.Held = append(c.Cfg.Held, uint16(gen.Int(t, "id", 1, 6)))
		}
	}
	if gen.Chance(t, "rng", p.Rng) {
		for i := gen.Int(t, "nrng", 1, 4); i > 0; i-- {
			c.Cfg.Rng = append(c.Cfg.Rng, uint32(gen.Pick(t, "r", []int{0, 1, 1, 2, 3, 65535, 65536, 65537, 1 << 20})))
		}
	}
	c.PollMs = gen.Pick(t, "poll", []int{1, 2, 5, 20})
	for i := gen.Int(t, "nlat", 1, 4); i > 0; i-- {
		c.Lat = append(c.Lat, gen.Pick(t, "lat", []int{0, 0, 1, 3, 10, 30, 100}))
	}
	if gen.Chance(t, "slow", p.Slow) {
		// the first answers are quick
		for i := gen.Int(t, "nquick", 0, 4); i > 0; i-- {
			c.Lat = append(c.Lat, c.Lat[len(c.Lat)-1])
		}
		c.Lat = append(c.Lat, 30000)
	}
	if p.Together {
		c.Lat = nil
		l := gen.Pick(t, "first", []int{0, 0, 5})
		for i := 0; i <= c.Cfg.ServerRM; i++ { // the first is for the CONNACK
			c.Lat = append(c.Lat, l)
		}
		later := gen.Pick(t, "later", []int{0, 15000, 30000, 30000})
		for i := gen.Int(t, "nlater", 1, 4); i > 0; i-- {
			c.Lat = append(c.Lat, later)
		}
	}
	if gen.Chance(t, "codes", p.Codes) {
		for i := gen.Int(t, "ncodes", 1, 4); i > 0; i-- {
			c.Codes = append(c.Codes, gen.Pick(t, "code", []int{0, 0, 0x10, 0x80, 0x87, 0x97}))
			c.Sub = append(c.Sub, gen.Pick(t, "subcode", []int{0, 1, 2, 0x80, 0x87, 0x8F}))
		}
	}
	c.Early = gen.Chance(t, "early", p.Early)
	faulty := gen.Chance(t, "faulty", p.Faults)
	stall := false
	if faulty {
		for i := gen.Int(t, "nfaults", 1, 2); i > 0; i-- {
			f := CFault{Kind: gen.Pick(t, "fault", p.Kinds), N: gen.Int(t, "at", 1, gen.Pick(t, "mag", []int{3, 10, 40, 120}))}
			f.Part = gen.Int(t, "part", 0, 40)
			f.All = gen.Chance(t, "all", 25)
			if f.Kind == "stall" {
				stall = true
			}
			c.Faults = append(c.Faults, f)
		}
	}
	n := gen.Int(t, "threads", p.Threads[0], p.Threads[1])
	fs := p.Filters
	if fs == nil {
		fs = concFilters
	}
	nchan := max(1, len(c.Cfg.Caps))
	for th := 0; th < n; th++ {
		var ops []COp
		for k := gen.Int(t, "nops", p.PerTh[0], p.PerTh[1]); k > 0; k-- {
			o := COp{Op: pickW(t, p.Ops, concOps)}
			if stall && o.Op == "ka" { // it has no deadline of its own to return by
				o.Op = "kai"
			}
			waits := false
			switch o.Op {
			case "pub0", "pub1", "pub2":
				o.QoS = int(o.Op[3] - '0')
				o.Op = "pub"
				o.Topic = gen.Pick(t, "topic", concTopics)
				if gen.Chance(t, "explicit", p.Explicit) && o.QoS > 0 {
					o.ID = 40000 + th*100 + len(ops)
				}
				if o.Bad = gen.Chance(t, "bad", p.Bad); o.Bad {
					o.N = gen.Int(t, "how", 0, 5)
				}
				if gen.Chance(t, "big", p.Size) {
					o.Size = gen.Pick(t, "size", []int{100, 130, 400, 5000, 17000, 70000, 140000})
				}
				waits = o.QoS > 0
			case "sub":
				for i := gen.Int(t, "nsubs", 1, 3); i > 0; i-- {
					ch := -1
					if gen.Chance(t, "withchan", 85) {
						ch = gen.Int(t, "ch", 0, nchan)
					}
					o.Subs = append(o.Subs, SubT{F: gen.Pick(t, "f", fs), Ch: ch})
				}
				waits = true
			case "unsub":
				for i := gen.Int(t, "nf", 1, 2); i > 0; i-- {
					o.Fs = append(o.Fs, gen.Pick(t, "f", fs))
				}
				waits = true
			case "close":
				o.N = gen.Int(t, "ch", 0, nchan)
			case "sleep":
				o.N = gen.Pick(t, "ms", []int{1, 2, 5, 20, 60, 200})
			case "disc":
				o.N = gen.Int(t, "variant", 0, 3)
			}
			if waits && gen.Chance(t, "timeout", p.Timeout) || faulty && waits || stall && (o.Op == "pub" || o.Op == "disc") || o.Op == "disc" && gen.Chance(t, "timeout", p.Timeout) {
				o.T = gen.Pick(t, "t", p.Times)
			}
			if waits && gen.Chance(t, "cancel", p.Cancel) {
				o.Cancel = gen.Pick(t, "c", p.Times)
			}
			ops = append(ops, o)
		}
		c.Threads = append(c.Threads, ops)
	}
	if p.Push > 0 {
		for i := gen.Int(t, "npush", 0, p.Push); i > 0; i-- {
			x := CPush{At: gen.Pick(t, "at", []int{0, 0, 1, 2, 4, 8, 15, 30, 60, 120}), Kind: pickW(t, p.PushKind, concPushes)}
			switch x.Kind {
			case "publish":
				x.QoS = gen.Int(t, "q", 0, 2)
				x.Topic = gen.Pick(t, "topic", concTopics)
				if x.QoS == 2 && gen.Chance(t, "dup", 30+p.Dups) {
					x.Dup = gen.Int(t, "ndup", 1, 3)
				}
			case "stray":
				x.N = gen.Int(t, "n", 0, 20)
			}
			c.Push = append(c.Push, x)
		}
	}
	c.Plan = genPlan(t, n+2)
	if p.Together && gen.Chance(t, "patient", 60) {
		// the calls run until they wait, and are held up right there
		c.Plan.Switch = 0
		c.Plan.Wait = gen.Pick(t, "hold", []int{40, 70, 100})
		c.Plan.Prio = []int{0}
		for i := 1; i < n+2; i++ {
			c.Plan.Prio = append(c.Plan.Prio, i)
		}
	}
	return c
}

var calm = w{"publish": 8, "stray": 1, "auth": 1, "pingresp": 1}
var stormy = w{"publish": 8, "stray": 1, "auth": 1, "pingresp": 1, "disc": 2, "eof": 1}
var allFaults = []string{"write", "write", "wpart", "wpart", "stall", "read", "set", "set", "close", "store", "store"}

var (
	concQuota = CProfile{Ops: w{"pub0": 1, "pub1": 6, "pub2": 6, "sleep": 2, "ka": 1}, Threads: [2]int{2, 5}, PerTh: [2]int{1, 4}, SRM: []int{1, 1, 1, 2, 2, 3},
		Chans: 1, Push: 2, PushKind: w{"publish": 4, "stray": 1}, Timeout: 25, Times: []int{1, 5, 20, 50, 500, 8000}, Cancel: 8, Store: 25, Rng: 10, Explicit: 5, Codes: 40, Bad: 3, Slow: 35}
	// many calls wait for the same resource, the first answers arrive together and the later ones are slow
	concWake = CProfile{Ops: w{"pub1": 6, "pub2": 2}, Threads: [2]int{3, 7}, PerTh: [2]int{1, 1}, SRM: []int{1, 2, 2, 3, 3},
		Together: true, Timeout: 8, Times: []int{1, 8000}, Cancel: 3, Codes: 10}
	concRouting = CProfile{Ops: w{"sub": 8, "unsub": 5, "chan": 2, "close": 4, "sleep": 4, "pub0": 1, "pub1": 1}, Threads: [2]int{1, 4}, PerTh: [2]int{1, 5}, SRM: []int{0, 2},
		Chans: 4, Push: 8, PushKind: calm, Timeout: 8, Times: []int{1, 5, 50, 8000}, Cancel: 4, Rng: 20, Codes: 40}
	concMixed = CProfile{Ops: w{"pub0": 2, "pub1": 4, "pub2": 4, "sub": 3, "unsub": 2, "chan": 2, "close": 2, "ka": 2, "kai": 1, "isconn": 1, "sleep": 3, "disc": 1}, Threads: [2]int{1, 5}, PerTh: [2]int{1, 5}, SRM: []int{0, 1, 2, 3},
		Chans: 3, Push: 6, PushKind: stormy, Timeout: 20, Times: []int{1, 5, 20, 50, 500, 8000}, Cancel: 8, Store: 40, Held: 15, Rng: 20, Explicit: 10, Codes: 30, Size: 30, Bad: 4}
	concWire = CProfile{Ops: w{"pub0": 5, "pub1": 5, "pub2": 5, "sub": 2, "unsub": 2, "ka": 4, "sleep": 2, "disc": 1}, Threads: [2]int{2, 5}, PerTh: [2]int{1, 5}, SRM: []int{0, 2, 3},
		Chans: 2, Push: 6, PushKind: w{"publish": 8, "stray": 1, "disc": 1}, Timeout: 15, Times: []int{1, 5, 20, 50, 500, 8000}, Cancel: 5, Store: 30, Rng: 20, Explicit: 10, Codes: 20, Size: 50, Bad: 8}
	// the server sends a lot while the application is busy
	concInbound = CProfile{Ops: w{"pub0": 1, "pub1": 3, "pub2": 3, "sub": 2, "unsub": 1, "chan": 1, "close": 1, "ka": 2, "sleep": 3}, Threads: [2]int{1, 4}, PerTh: [2]int{1, 4}, SRM: []int{0, 2, 3},
		Chans: 2, Push: 14, PushKind: w{"publish": 12, "stray": 1, "pingresp": 1}, Dups: 60, Timeout: 8, Times: []int{5, 50, 8000}, Cancel: 3, Store: 50, Rng: 20, Explicit: 10, Codes: 20}
	concOutbound = CProfile{Ops: w{"pub0": 2, "pub1": 5, "pub2": 8, "sub": 1, "unsub": 1, "sleep": 2, "ka": 1}, Threads: [2]int{2, 5}, PerTh: [2]int{1, 5}, SRM: []int{0, 1, 2, 3},
		Chans: 1, Push: 4, PushKind: calm, Dups: 40, Timeout: 12, Times: []int{1, 5, 20, 500, 8000}, Cancel: 5, Store: 60, Rng: 20, Explicit: 10, Codes: 40, Bad: 5}
	concIDs = CProfile{Ops: w{"pub1": 6, "pub2": 6, "sub": 4, "unsub": 3, "sleep": 1}, Threads: [2]int{2, 5}, PerTh: [2]int{1, 5}, SRM: []int{0, 3, 5},
		Chans: 2, Push: 3, PushKind: calm, Timeout: 10, Times: []int{1, 5, 50, 500}, Cancel: 5, Store: 50, Held: 50, Rng: 90, Explicit: 15, Codes: 20, Bad: 3}
)

func (p CProfile) faulty(pct int) CProfile {
	p.Faults, p.Kinds = pct, allFaults
	return p
}

func (p CProfile) early(pct int) CProfile {
	p.Early = pct
	return p
}

// conc decides a part of a property by generated schedules.
func conc(t *testing.T, id, part string, quick, thorough int, p CProfile) {
	prop.Check(t, prop.Spec[ConcCase]{Crashy: true, ID: id, Part: part, Quick: quick, Thorough: thorough, Retry: 5, Gen: p.gen,
		Rule: "calls of different goroutines overlap in time",
		Run:  func(c ConcCase) (prop.Info, error) { return RunConc(t, id, c) }})
}

func concC15(t *testing.T) {
	conc(t, "C15", "concurrent", 6000, 150000, concQuota)
	conc(t, "C15", "wake-up", 6000, 100000, concWake)
	reconn(t, "C15", 1500, 100000)
}
func concC14(t *testing.T) {
	conc(t, "C14", "concurrent", 4000, 150000, concQuota)
	reconn(t, "C14", 2500, 100000)
}
func concC17(t *testing.T) { conc(t, "C17", "concurrent", 6000, 100000, concRouting) }
func concC21(t *testing.T) {
	conc(t, "C21", "concurrent", 6000, 100000, concRouting)
	reconn(t, "C21", 3000, 100000)
}
func concC22(t *testing.T) { conc(t, "C22", "concurrent", 4000, 100000, concIDs) }

// C25: every call returns.
func C25(t *testing.T) {
	conc(t, "C25", "concurrent", 2500, 100000, concMixed.early(15))
	conc(t, "C25", "faults", 3000, 150000, concMixed.faulty(100))
	conc(t, "C25", "quota", 1500, 50000, concQuota.faulty(30))
	reconn(t, "C25", 3000, 100000)
	wedged(t, "C25", 8000, 400000)
}

func C28(t *testing.T) {
	conc(t, "C28", "concurrent", 10000, 200000, concRouting)
	seq(t, "C28", "history", 8000, 150000, Profile{Weights: w{"suback+": 8, "sub": 3, "in.suback": 3, "unsub": 4, "in.unsuback": 4, "chan": 3, "close": 3, "drain": 3, "in.pub0": 10, "in.pub1": 3, "in.pub2": 3, "in.pubrel": 2, "in.redeliver": 1, "cancel": 1, "sleep": 1, "in.lateack": 1, "reconn": 2, "conn": 4, "disc": 1, "in.disconnect": 1},
		Max: 50, Min: 4, Chans: 95, Big: 85, Filters: 4, Timeout: 10, Store: 10, InIDs: smallIDs, CRM: []int{0}},
		"the bindings change", "in SUBACK", "in UNSUBACK", "connected again")
}

func C31(t *testing.T) {
	seq(t, "C31", "history", 6000, 150000, Profile{Weights: w{"pub0": 4, "pub1": 5, "pub2": 5, "pubbad": 4, "again": 2, "sub": 4, "unsub": 3, "suback+": 1, "ka": 2, "in.ack": 6, "in.suback": 3, "in.unsuback": 2, "in.pub1": 2, "in.pub2": 2, "in.pubrel": 2, "wfail": 3, "cancel": 1, "disc": 1, "conn": 3, "poll": 1},
		Max: 30, Min: 2, Store: 40, Rich: 40, Filters: 3, InIDs: smallIDs, Rng: 30, SRM: []int{0, 0, 2, 5}, Expiry: true, CloseErr: 5},
		"a packet was written after a write failed or a packet could not be encoded", "failed write", "refused publish", "filter that cannot be encoded")
	conc(t, "C31", "concurrent", 4000, 100000, concWire)
	conc(t, "C31", "faults", 4000, 100000, concWire.faulty(100))
}

var _ = fmt.Sprint
