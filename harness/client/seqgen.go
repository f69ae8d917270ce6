package client

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"

	"tinyverif/codec"
	"tinyverif/gen"
	"tinyverif/wire"
)

// Profile weighs what a generated history consists of.
type Profile struct {
	Weights   map[string]int
	Min, Max  int
	SRM, CRM  []int // candidate Receive Maximums
	KA        bool  // generate keep-alive intervals
	Store     int   // chance of a storage
	Chans     int   // chance of channels beforehand
	Big       int   // chance that channels are too large to overflow
	Topics    func(t *rapid.T) string
	Filter    func(t *rapid.T) string
	Props     int // chance that inbound packets carry properties
	Rich      int // chance that a publish has generated contents
	Timeout   int // chance that waiting calls have a deadline
	Delay     int // chance that inbound packets arrive in pieces
	NoPoll    int
	MaxDelay  int
	Expiry    bool
	CloseErr  int
	Rng       int // chance of a degenerate random source
	Held      int
	IDs       []int // identifiers chosen by the application (0: by the client)
	InIDs     []int
	Sleeps    []int
	PollTimes []int
	Exceed    int  // chance that the server does not care about the Receive Maximum
	Filters   int  // maximum number of filters per request
	Wide      bool // any identifier, many exchanges at once
	Uniform   bool // uniformly distributed length
	MaxCh     int  // channels a subscription may name (default 6)
	Huge      int  // chance of a request with hundreds of filters
}

func pickW(t *rapid.T, w map[string]int, keys []string) string {
	sum := 0
	for _, k := range keys {
		sum += w[k]
	}
	x := gen.Int(t, "op", 0, sum-1)
	for _, k := range keys {
		if x < w[k] {
			return k
		}
		x -= w[k]
	}
	return keys[len(keys)-1]
}

var allOps = []string{"pub0", "pub1", "pub2", "pubbad", "again", "sub", "unsub", "ka", "disc", "conn", "reconn", "chan", "close", "drain", "sleep", "cancel", "wfail", "sfail", "poll", "sleepk",
	"in.pub0", "in.pub1", "in.pub2", "in.redeliver", "in.pubrel", "in.ack", "in.rerec", "in.stray", "in.suback", "in.unsuback", "in.lateack", "in.pingresp", "in.disconnect", "in.auth", "suback+", "ack*", "pubrel*", "churn"}

var inTypes = map[string]byte{"publish": wire.PUBLISH, "pubrel": wire.PUBREL, "ack": 0, "rerec": wire.PUBREC, "suback": wire.SUBACK,
	"unsuback": wire.UNSUBACK, "disconnect": wire.DISCONNECT, "auth": wire.AUTH}

var topics = []string{"t", "a", "a/b", "a/c", "b", "$SYS/a"}
var filters = []string{"t", "a", "a/b", "a/+", "a/#", "+", "#", "b", "+/b", "$SYS/#"}

// keepAlive draws a keep-alive interval in seconds.
func keepAlive(t *rapid.T, label string) int {
	if gen.Chance(t, label+" any", 25) {
		return gen.Int(t, label+" value", 0, 65535)
	}
	return gen.Pick(t, label, []int{0, 1, 2, 3, 10, 60, 255, 256, 32767, 32768, 65535})
}

// genAck draws a CONNACK that says more than what the model of the connection depends on.
func genAck(t *rapid.T) *codec.In {
	if !gen.Chance(t, "ack?", 25) {
		return nil
	}
	a := codec.In{Type: wire.CONNACK, Form: 2, SP: byte(gen.Int(t, "sp", 0, 1))}
	for _, p := range codec.GenProps(t, wire.CONNACK, 20) {
		switch p.ID {
		case 0x13, 0x21, 0x24, 0x27, 0x15, 0x16, 0x1A: // set by the caller; limits a client may enforce; not asked for
			continue
		case 0x25, 0x28, 0x29, 0x2A: // the feature is available
			p.Num = 1
		case 0x11:
			p.Num = max(p.Num, 1)
		}
		a.Props = append(a.Props, p)
	}
	return &a
}

// ackDelay draws how long (ms) the server takes to answer a CONNECT.
func ackDelay(t *rapid.T) int {
	if !gen.Chance(t, "slow", 15) {
		return 0
	}
	return gen.Pick(t, "ackdelay", []int{1, 400, 1000, 1500, 4100, 20000})
}

func (p *Profile) gen(t *rapid.T) (c Case) {
	pick := gen.Pick[int]
	c.Cfg.ServerRM = pick(t, "srm", p.SRM)
	c.Cfg.ClientRM = pick(t, "crm", p.CRM)
	if p.KA {
		c.Cfg.KA = keepAlive(t, "ka")
		if gen.Chance(t, "ska?", 40) {
			c.Cfg.SKA = max(1, keepAlive(t, "ska"))
		}
		c.Cfg.AckDelay = ackDelay(t)
	}
	if p.Expiry && gen.Chance(t, "expiry?", 60) {
		c.Cfg.Expiry = gen.U32(t, "expiry")
	}
	if gen.Chance(t, "store?", p.Store) {
		c.Cfg.Store = gen.Int(t, "store", 1, 2)
	}
	if gen.Chance(t, "rng?", p.Rng) {
		c.Cfg.Rng = rapid.SliceOfN(rapid.SampledFrom([]uint32{0, 1, 2, 3, 65535, 65536, 65537, 131072, 0xFFFFFFFF, 0xFFFF0000}), 1, 4).Draw(t, "rng")
	}
	if c.Cfg.Store != 0 && gen.Chance(t, "held?", p.Held) {
		if c.Cfg.Store == 1 && gen.Chance(t, "full", 8) {
			c.Cfg.Free = rapid.SliceOfN(rapid.SampledFrom([]uint16{1, 2, 300, 65534, 65535}), 1, 3).Draw(t, "free")
			if gen.Chance(t, "behind", 40) { // the random source starts right after the only free one
				c.Cfg.Free = c.Cfg.Free[:1]
				c.Cfg.Rng = []uint32{uint32(c.Cfg.Free[0]) + 1}
			}
		} else {
			c.Cfg.Held = rapid.SliceOfN(rapid.SampledFrom([]uint16{1, 2, 3, 4, 255, 256, 65535}), 1, 5).Draw(t, "held")
		}
	}
	if gen.Chance(t, "chans?", p.Chans) {
		n := gen.Int(t, "nchans", 1, 4)
		for i := 0; i < n; i++ {
			k := 200
			if p.Wide {
				k = 5000
			}
			if !gen.Chance(t, "big", p.Big) {
				k = pick(t, "cap", []int{0, 1, 2, 3, -1, 5})
			}
			c.Cfg.Caps = append(c.Cfg.Caps, k)
		}
	}
	if gen.Chance(t, "closeerr", p.CloseErr) {
		c.Cfg.CloseErr = true
	}
	c.Cfg.Twin = gen.Chance(t, "twin", 6)
	c.Cfg.Ack = genAck(t)
	n := rapid.IntRange(p.Min, p.Max).Draw(t, "len")
	if p.Uniform {
		n = gen.Int(t, "len", p.Min, p.Max)
	}
	for len(c.Steps) < n {
		c.Steps = append(c.Steps, p.step(t)...)
	}
	return c
}

func (p *Profile) topic(t *rapid.T) string {
	if p.Topics != nil {
		return p.Topics(t)
	}
	return gen.Pick(t, "topic", topics)
}

func (p *Profile) filter(t *rapid.T) string {
	if p.Filter != nil {
		return p.Filter(t)
	}
	return gen.Pick(t, "filter", filters)
}

func (p *Profile) timeout(t *rapid.T) int {
	if gen.Chance(t, "timeout?", p.Timeout) {
		return gen.Pick(t, "timeout", []int{5, 10, 25, 50, 90, 1500})
	}
	return 0
}

func (p *Profile) subs(t *rapid.T) (s []SubT) {
	n := gen.Int(t, "nsubs", 1, max(1, p.Filters))
	if p.Filters > 2 && gen.Chance(t, "more", 8) {
		n = gen.Int(t, "nsubs", 5, 24)
	}
	if gen.Chance(t, "nosubs", 2) {
		return nil
	}
	if gen.Chance(t, "huge", p.Huge) {
		n = gen.Int(t, "nsubs", 60, 400)
	}
	for i := 0; i < n; i++ {
		x := SubT{F: p.filter(t), Ch: gen.Int(t, "ch", -1, max(5, p.MaxCh))}
		if gen.Chance(t, "ch?", 50) && x.Ch < 0 {
			x.Ch = 0
		}
		for gen.Chance(t, "opt", 40) {
			k := gen.Pick(t, "kind", []byte{1, 2, 3, 4})
			x.Ops = append(x.Ops, codec.TopicOp{Op: k, Val: byte(gen.Int(t, "v", 0, 2))})
		}
		s = append(s, x)
	}
	return s
}

func discReason(t *rapid.T) int {
	return gen.Pick(t, "code", []int{0, 0, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2})
}

func (p *Profile) conn(t *rapid.T) Step {
	r := Re{ServerRM: gen.Pick(t, "srm", p.SRM), ClientRM: gen.Pick(t, "crm", p.CRM)}
	if p.KA {
		r.KA = keepAlive(t, "ka")
		if gen.Chance(t, "ska?", 40) {
			r.SKA = max(1, keepAlive(t, "ska"))
		}
		r.AckDelay = ackDelay(t)
	}
	if p.Expiry && gen.Chance(t, "expiry?", 50) {
		r.Expiry = gen.U32(t, "expiry")
	}
	if gen.Chance(t, "refuse?", 10) {
		r.Refuse = gen.Pick(t, "refuse", []int{1, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x90, 0x95, 0x97, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9F})
	}
	r.Ack = genAck(t)
	return Step{Op: "conn", Re: &r}
}

func (p *Profile) step(t *rapid.T) []Step {
	op := pickW(t, p.Weights, allOps)
	var s Step
	id := func(from []int) int {
		if len(from) == 0 {
			return 0
		}
		if p.Wide && len(from) > 1 {
			return gen.Int(t, "id", 1, 65535)
		}
		return gen.Pick(t, "id", from)
	}
	// codes below 0x80 that are not 0
	ok := func(c int, is int) int {
		if c == 0 && gen.Chance(t, "other", 15) {
			return is
		}
		return c
	}
	code := func(pct int) int {
		if gen.Chance(t, "fail", pct) {
			return gen.Pick(t, "code", []int{0x80, 0x83, 0x87, 0x8F, 0x90, 0x91, 0x92, 0x97, 0x99, 0x9E, 0xA1, 0xA2})
		}
		return 0
	}
	in := func(kind string) {
		s.Op, s.Kind = "in", kind
		s.N = gen.Int(t, "n", 0, 5)
		if p.Wide {
			s.N = gen.Int(t, "n", 0, 9999)
		}
		typ := inTypes[kind]
		if typ != 0 && gen.Chance(t, "props", p.Props) {
			x := codec.GenIn(t, []byte{typ}, 200)
			x.Reason, x.ID, x.Topic = 0, 0, gen.Blob{}
			s.In = &x
		}
		if gen.Chance(t, "delay?", p.Delay) {
			s.Delay = rapid.SliceOfN(rapid.IntRange(0, max(1, p.MaxDelay)), 1, 6).Draw(t, "delay")
		}
		s.NoPoll = gen.Chance(t, "nopoll", p.NoPoll)
		if len(p.PollTimes) > 0 && !s.NoPoll {
			s.T = gen.Pick(t, "polltime", p.PollTimes)
		}
	}
	switch op {
	case "pub0", "pub1", "pub2":
		s = Step{Op: "publish", QoS: int(op[3] - '0'), Topic: p.topic(t), T: p.timeout(t)}
		if s.QoS > 0 {
			s.ID = id(p.IDs)
			if len(p.IDs) > 0 && gen.Chance(t, "clash", 4) {
				s.Near = 1
			}
		}
		if gen.Chance(t, "rich", p.Rich) {
			pc := codec.GenPublish(t)
			s.Pub = &pc
		}
	case "again":
		s = Step{Op: "publish", Again: true, T: p.timeout(t)}
	case "pubbad":
		s = Step{Op: "publish", QoS: gen.Int(t, "qos", 0, 2), Bad: true, T: p.timeout(t), N: gen.Int(t, "how", 0, 5)}
	case "sub":
		s = Step{Op: "sub", Subs: p.subs(t), T: p.timeout(t)}
		if gen.Chance(t, "bad", 3) {
			s.Bad, s.N = true, gen.Int(t, "which", 0, 3)
		}
	case "suback+": // subscribe and have it granted
		a := Step{Op: "sub", Subs: p.subs(t)}
		in("suback")
		s.N, s.NoPoll = 99, false
		return []Step{a, s}
	case "unsub":
		s = Step{Op: "unsub", T: p.timeout(t)}
		n := gen.Int(t, "n", 1, max(1, p.Filters))
		if p.Filters > 2 && gen.Chance(t, "more", 8) {
			n = gen.Int(t, "n", 5, 24)
		}
		if gen.Chance(t, "nosubs", 2) {
			n = 0
		} else if gen.Chance(t, "huge", p.Huge) {
			n = gen.Int(t, "n", 60, 400)
		}
		for i := 0; i < n; i++ {
			s.Fs = append(s.Fs, p.filter(t))
		}
		if gen.Chance(t, "bad", 3) {
			s.Bad, s.N = true, gen.Int(t, "which", 0, 3)
		}
	case "disc":
		s = Step{Op: "disc", Will: rapid.Bool().Draw(t, "will")}
		if gen.Chance(t, "exp", 50) {
			s.N = gen.Pick(t, "n", []int{1, 60, 0x7FFFFFFF})
		}
	case "conn":
		return []Step{p.conn(t)}
	case "reconn": // the connection ends one way or another, and the client is used again
		s = Step{Op: "disc"}
		if rapid.Bool().Draw(t, "server") {
			s = Step{Op: "in", Kind: "disconnect", Reason: discReason(t)}
		}
		return []Step{s, p.conn(t)}
	case "chan":
		s = Step{Op: "chan", N: gen.Pick(t, "cap", []int{0, 1, 2, 5, 200})}
	case "churn":
		s = Step{Op: op, N: gen.Pick(t, "n", []int{1, 3, 20, 130, 260})}
	case "close", "drain", "cancel":
		s = Step{Op: op, N: gen.Int(t, "n", 0, 7)}
	case "wfail":
		s = Step{Op: "wfail", N: gen.Pick(t, "n", []int{0, 0, 1, 2, 3, 5, 8, 13, 40})}
	case "sleep":
		s = Step{Op: "sleep", T: gen.Pick(t, "ms", p.Sleeps)}
	case "sleepk":
		s = Step{Op: op, N: gen.Pick(t, "permille", []int{100, 500, 900, 999, 1001, 1500, 1900, 1999, 2001, 2100})}
	case "poll":
		s = Step{Op: "poll"}
		if len(p.PollTimes) > 0 {
			s.T = gen.Pick(t, "polltime", p.PollTimes)
		}
	case "in.pub0", "in.pub1", "in.pub2":
		in("publish")
		s.QoS, s.ID, s.Topic = int(op[6]-'0'), id(p.InIDs), p.topic(t)
		s.Bad = gen.Chance(t, "exceed", p.Exceed)
	case "in.redeliver":
		in("redeliver")
		s.Topic = p.topic(t)
	case "in.pubrel":
		in("pubrel")
		s.Reason = ok(0, 0x92)
		if gen.Chance(t, "anyid", 25) {
			s.ID = id(p.InIDs)
		}
	case "in.ack":
		in("ack")
		s.Reason = ok(code(15), 0x10)
	case "ack*": // complete many
		n := gen.Int(t, "many", 1, 6)
		var r []Step
		for i := 0; i < n; i++ {
			in("ack")
			s.Reason = ok(0, 0x10)
			r = append(r, s)
		}
		return r
	case "pubrel*":
		n := gen.Int(t, "many", 1, 5)
		var r []Step
		for i := 0; i < n; i++ {
			in("pubrel")
			r = append(r, s)
		}
		return r
	case "in.stray":
		in("stray")
		s.ID = gen.Pick(t, "id", []int{1, 2, 3, 77, 65535})
		s.Reason = ok(code(20), 0x10)
		if gen.Chance(t, "near?", 40) {
			s.Near, s.N = gen.Int(t, "near", 1, 20), gen.Int(t, "which", 0, 24)
			s.Bad = gen.Chance(t, "any type", 40)
		}
	case "in.suback", "in.unsuback", "in.lateack":
		in(strings.TrimPrefix(op, "in."))
		n, fails := gen.Int(t, "ncodes", 0, 4), 30
		if gen.Chance(t, "more", 12) {
			n, fails = gen.Int(t, "ncodes", 5, 24), 8
			if p.Huge > 0 && gen.Chance(t, "many", 50) {
				n, fails = gen.Int(t, "ncodes", 25, 400), 2
			}
		}
		for i := 0; i < n; i++ {
			x := code(fails)
			if op == "in.unsuback" {
				x = ok(x, 0x11)
			} else if x == 0 {
				x = gen.Int(t, "granted", 0, 2)
			}
			s.Codes = append(s.Codes, x)
		}
		s.Bad = gen.Chance(t, "bad", 15)
	case "in.disconnect":
		in("disconnect")
		s.Reason = discReason(t)
	case "in.auth":
		in("auth")
		s.Reason = gen.Pick(t, "code", []int{0, 0x18})
	case "in.pingresp":
		in("pingresp")
	default:
		s = Step{Op: op}
	}
	return []Step{s}
}

// ---------------------------------------------------------------- topics and filters

var levels = []string{"a", "b", "", "ab", "a", "é", "漢字", "$SYS", "$", " ", "sport", "0"}

func genTopicName(t *rapid.T) string {
	n := gen.Int(t, "levels", 1, 5)
	if gen.Chance(t, "deep", 3) {
		n = gen.Int(t, "levels", 6, 70)
	}
	var ls []string
	for i := 0; i < n; i++ {
		ls = append(ls, gen.Pick(t, "level", levels))
	}
	if gen.Chance(t, "long", 3) {
		k := gen.Int(t, "which", 0, n-1)
		times := gen.Int(t, "times", 20, 700)
		if gen.Chance(t, "longer", 25) {
			times = gen.Int(t, "times", 700, 30000)
		}
		ls[k] = strings.Repeat(gen.Pick(t, "level", []string{"a", "é", "ab"}), times)
	}
	s := strings.Join(ls, "/")
	if s == "" {
		s = "a"
	}
	if strings.HasPrefix(s, "$share") {
		s = "x" + s
	}
	return s
}

// related makes a filter from a topic, or a topic from a filter, that probably matches or nearly does.
func relatedFilter(t *rapid.T, topic string) string {
	ls := strings.Split(topic, "/")
	for i := range ls {
		if len(ls) > 8 && gen.Chance(t, "same", 85) {
			continue
		}
		switch gen.Int(t, "mut", 0, 9) {
		case 0, 1:
			ls[i] = "+"
		case 2:
			if gen.Chance(t, "rare", 30) {
				ls[i] += gen.Pick(t, "wild", []string{"+", "#", "x"})
			}
		case 3:
			if gen.Chance(t, "rare", 30) {
				ls[i] = gen.Pick(t, "level", levels)
			}
		case 4:
			if gen.Chance(t, "rare", 20) {
				ls[i] = "#"
			}
		}
	}
	switch gen.Int(t, "end", 0, 9) {
	case 0, 1:
		ls = append(ls, "#")
	case 2:
		ls[len(ls)-1] = "#"
	case 3:
		if len(ls) > 1 {
			ls = append(ls[:len(ls)-2:len(ls)-2], "#")
		}
	case 4:
		ls = append(ls, gen.Pick(t, "level", append([]string{"+"}, levels...)))
	case 5:
		if len(ls) > 1 {
			ls = ls[:len(ls)-1]
		}
	case 6:
		ls = append([]string{gen.Pick(t, "level", append([]string{"+"}, levels...))}, ls...)
	}
	s := strings.Join(ls, "/")
	if strings.HasPrefix(s, "$share") {
		s = "x" + s
	}
	return s
}

var _ = fmt.Sprint
