package client

import (
	"fmt"
	"strings"
	"testing"
	"time"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"

	"tinyverif/codec"
	"tinyverif/gen"
	"tinyverif/prop"
	"tinyverif/wire"
)

// seq decides a part of a property by model-based histories.
func seq(t *testing.T, id, part string, quick, thorough int, p Profile, rule string, nt ...string) {
	if p.Min == 0 {
		p.Min, p.Max = 1, 40
	}
	if p.SRM == nil {
		p.SRM = []int{0, 0, 1, 2, 3, 65535}
	}
	if p.CRM == nil {
		p.CRM = []int{0, 0, 1, 2, 3, 65535}
	}
	if p.Sleeps == nil {
		p.Sleeps = []int{1, 20, 60}
	}
	prop.Check(t, prop.Spec[Case]{Crashy: true, ID: id, Part: part, Quick: quick, Thorough: thorough, Rule: rule, Gen: p.gen,
		Run: func(c Case) (prop.Info, error) {
			info, err := RunSeq(t, id, c)
			info.NonTrivial = false
			for _, k := range info.Classes {
				for _, n := range nt {
					if strings.HasPrefix(k, n) {
						info.NonTrivial = true
					}
				}
				if strings.HasPrefix(k, "diverged") {
					info.NonTrivial = false
					break
				}
			}
			return info, err
		}})
}

type w = map[string]int

var inboundMix = w{"in.pub0": 4, "in.pub1": 6, "in.pub2": 8, "in.redeliver": 5, "in.pubrel": 6, "pubrel*": 3, "pub0": 1, "pub1": 3, "pub2": 3, "in.ack": 4, "in.rerec": 1,
	"in.stray": 1, "in.pingresp": 1, "in.auth": 1, "chan": 1, "drain": 1, "suback+": 1, "reconn": 1, "conn": 1}

var smallIDs = []int{1, 2, 3, 4, 1, 2, 3, 256, 65535}

func C10(t *testing.T) {
	prop.Check(t, prop.Spec[Case]{Crashy: true, ID: "C10", Part: "routing", Quick: 30000, Thorough: 400000,
		Rule: "a message matches a filter that is not equal to its topic, or matches no filter although one is related to it",
		Gen:  genRouting,
		Run: func(c Case) (prop.Info, error) {
			info, err := RunSeq(t, "C10", c)
			info.NonTrivial = false
			for _, k := range info.Classes {
				info.NonTrivial = info.NonTrivial || k == "routed" || k == "matches no filter"
			}
			for _, s := range c.Steps {
				for _, x := range s.Subs {
					if strings.ContainsAny(x.F, "+#") {
						info.Add("wildcard filter")
					}
				}
			}
			return info, err
		}})
}

func genRouting(t *rapid.T) (c Case) {
	k := gen.Int(t, "chans", 1, 4)
	for i := 0; i <= k; i++ {
		c.Cfg.Caps = append(c.Cfg.Caps, 100)
	}
	if gen.Chance(t, "tiny", 15) {
		c.Steps = genTiny(t, k)
		return c
	}
	var tops []string
	for i := gen.Int(t, "ntopics", 1, 4); i > 0; i-- {
		tops = append(tops, genTopicName(t))
	}
	sub := Step{Op: "sub"}
	ack := Step{Op: "in", Kind: "suback"}
	for i := 0; i < k; i++ {
		f := relatedFilter(t, gen.Pick(t, "t", tops))
		if gen.Chance(t, "exact", 15) {
			f = gen.Pick(t, "t", tops)
		}
		sub.Subs = append(sub.Subs, SubT{F: f, Ch: i})
	}
	c.Steps = []Step{sub, ack}
	for i := gen.Int(t, "msgs", 1, 6); i > 0; i-- {
		tp := gen.Pick(t, "t", tops)
		if gen.Chance(t, "fresh", 35) {
			f := gen.Pick(t, "f", sub.Subs).F
			tp = topicFrom(t, f)
		}
		if gen.Chance(t, "nearly", 8) {
			tp = nearly(t, tp)
		}
		c.Steps = append(c.Steps, message(t, i, tp))
		if gen.Chance(t, "drain", 20) {
			c.Steps = append(c.Steps, Step{Op: "drain", N: gen.Int(t, "ch", 0, k)})
		}
	}
	return c
}

// nearly changes one bit of a topic, or the high bits of one character.
func nearly(t *rapid.T, topic string) string {
	b := []byte(topic)
	i := gen.Int(t, "byte", 0, len(b)-1)
	if b[i] < 0x80 {
		b[i] ^= 1 << gen.Int(t, "bit", 0, 6)
	} else {
		for ; i > 0 && b[i]&0xC0 == 0x80; i-- {
		}
		_, n := utf8.DecodeRune(b[i:])
		for j := i; j < i+n; j++ {
			b[j] &= 0x7F
		}
	}
	if s := string(b); utf8.ValidString(s) && !strings.ContainsAny(s, "+#") && !strings.ContainsFunc(s, unicode.IsControl) {
		return s
	}
	return topic
}

// message draws an inbound PUBLISH; what it says besides its topic does not matter to routing.
func message(t *rapid.T, i int, topic string) Step {
	s := Step{Op: "in", Kind: "publish", QoS: gen.Int(t, "q", 0, 2), ID: 7 + i, Topic: topic}
	if gen.Chance(t, "rich", 30) {
		x := codec.GenIn(t, []byte{wire.PUBLISH}, 200)
		x.Reason, x.ID, x.Topic = 0, 0, gen.Blob{}
		if gen.Chance(t, "empty", 20) {
			x.Payload = gen.Blob{}
		}
		s.In = &x
	}
	return s
}

// genTiny draws short topics and filters of few letters, so that many of them are alike.
func genTiny(t *rapid.T, k int) []Step {
	word := func(letters []string) string {
		s := ""
		for i := gen.Int(t, "letters", 1, 4); i > 0; i-- {
			s += gen.Pick(t, "letter", letters)
		}
		return s
	}
	sub := Step{Op: "sub"}
	for i := 0; i < k; i++ {
		f := word([]string{"a", "b", "/"})
		ls := strings.Split(f, "/")
		for j := range ls {
			if gen.Chance(t, "wild", 20) {
				ls[j] = "+"
			}
		}
		if gen.Chance(t, "rest", 20) {
			ls[len(ls)-1] = "#"
		}
		sub.Subs = append(sub.Subs, SubT{F: strings.Join(ls, "/"), Ch: i})
	}
	steps := []Step{sub, {Op: "in", Kind: "suback"}}
	for i := gen.Int(t, "msgs", 2, 12); i > 0; i-- {
		steps = append(steps, message(t, i, word([]string{"a", "b", "/"})))
	}
	return steps
}

// topicFrom makes a topic name that matches a filter or nearly does.
func topicFrom(t *rapid.T, f string) string {
	ls := strings.Split(f, "/")
	var out []string
	for i, l := range ls {
		switch {
		case l == "#":
			k := gen.Int(t, "deep", 0, 3)
			if gen.Chance(t, "far", 3) {
				k = gen.Int(t, "deep", 4, 70)
			}
			for ; k > 0; k-- {
				out = append(out, gen.Pick(t, "level", levels))
			}
		case l == "+":
			out = append(out, gen.Pick(t, "level", levels))
		case strings.ContainsAny(l, "+#"):
			out = append(out, strings.Trim(l, "+#")+gen.Pick(t, "tail", []string{"", "x"}))
		default:
			if gen.Chance(t, "other", 12) && (len(ls) <= 8 || gen.Chance(t, "rare", 20)) {
				l = gen.Pick(t, "level", levels)
			}
			if gen.Chance(t, "cut", 5) && (len(ls) <= 8 || gen.Chance(t, "rare", 20)) && len(l) > 0 && l[0] < 128 {
				l = l[:1]
			}
			out = append(out, l)
		}
		_ = i
	}
	if gen.Chance(t, "extra", 10) {
		out = append(out, gen.Pick(t, "level", levels))
	}
	if gen.Chance(t, "short", 8) && len(out) > 1 {
		out = out[:len(out)-1]
	}
	s := strings.Join(out, "/")
	if s == "" || strings.HasPrefix(s, "$share") {
		s = "x" + s
	}
	return s
}

// manySubs has dozens of channels and hundreds of subscriptions.
func manySubs() Profile {
	name := func(t *rapid.T) string {
		return fmt.Sprintf("%s/%d", gen.Pick(t, "top", []string{"x", "y", "z/w"}), gen.Int(t, "leaf", 0, 60))
	}
	return Profile{Wide: true, Uniform: true, Weights: w{"churn": 1, "chan": 14, "close": 2, "drain": 4, "suback+": 16, "sub": 2, "in.suback": 2, "unsub": 4, "in.unsuback": 4, "in.pub0": 30, "in.pub1": 4, "in.pub2": 4, "in.pubrel": 3, "pub1": 1, "in.ack": 1},
		Min: 100, Max: 260, Chans: 100, Big: 100, Filters: 12, MaxCh: 59, Huge: 5, InIDs: smallIDs, CRM: []int{0}, SRM: []int{0},
		Topics: name,
		Filter: func(t *rapid.T) string {
			f := name(t)
			if gen.Chance(t, "wild", 12) {
				f = gen.Pick(t, "f", []string{"x/+", "y/#", "z/w/+", "+/w/#", "z/+/7", "+/3", "#", "+/9"})
			}
			return f
		}}
}

// many exchanges at once: what the client remembers must not be bounded
func inboundMany() Profile {
	return Profile{Wide: true, Uniform: true, Weights: w{"in.pub2": 28, "in.pub1": 2, "in.pub0": 1, "in.redeliver": 5, "in.pubrel": 3, "pubrel*": 1, "pub1": 1, "pub2": 1, "in.ack": 1, "in.pingresp": 1, "reconn": 0},
		Min: 300, Max: 700, Store: 50, Chans: 100, Big: 100, InIDs: smallIDs, IDs: []int{0}, CRM: []int{0, 0, 300, 400}, SRM: []int{0}}
}

func outboundMany() Profile {
	return Profile{Wide: true, Uniform: true, Weights: w{"pub1": 12, "pub2": 12, "in.ack": 6, "in.rerec": 1, "in.stray": 1, "pub0": 1, "ack*": 1, "in.pub2": 1, "in.pubrel": 1},
		Min: 300, Max: 700, Store: 50, Chans: 100, Big: 100, InIDs: smallIDs, IDs: []int{0}, SRM: []int{0, 200, 256, 257, 300, 65535}, CRM: []int{0}, Rng: 30}
}

// huge reaches the largest allowances: every slot is taken, one more message comes, and slots become free.
func huge(t *testing.T, id string, quick, thorough int, out bool) {
	prop.Check(t, prop.Spec[Case]{Crashy: true, ID: id, Part: "huge", Quick: quick, Thorough: thorough,
		Rule: "every case: a Receive Maximum above 30000 is used up",
		Gen: func(t *rapid.T) (c Case) {
			rm := gen.Pick(t, "rm", []int{32767, 32768, 40000, 65534, 65535, 0})
			n := rm
			if rm == 0 {
				n = 65535
			}
			tail := Profile{Weights: w{"pub0": 2, "pub1": 3, "pub2": 3, "in.ack": 6, "in.pub2": 4, "in.pub1": 1, "in.pubrel": 4, "in.redeliver": 2, "sub": 1, "cancel": 1}, Wide: true, InIDs: smallIDs, IDs: []int{0}, Exceed: 15}
			if out {
				c.Cfg.ServerRM = rm
				c.Steps = append(c.Steps, Step{Op: "burst", N: n, QoS: gen.Int(t, "qos", 1, 2), Topic: "t"})
				tail.Weights["in.pub2"], tail.Weights["in.redeliver"] = 0, 0
			} else {
				c.Cfg.ClientRM = rm
				c.Steps = append(c.Steps, Step{Op: "inburst", N: n - gen.Int(t, "less", 0, 1), QoS: 2, ID: gen.Int(t, "id", 0, 65534), Topic: "t"})
				tail.Weights["pub1"], tail.Weights["pub2"], tail.Weights["in.ack"] = 1, 1, 1
			}
			for i := gen.Int(t, "tail", 4, 20); i > 0; i-- {
				c.Steps = append(c.Steps, tail.step(t)...)
			}
			return c
		},
		Run: func(c Case) (prop.Info, error) {
			info, err := RunSeq(t, id, c)
			info.NonTrivial = true
			return info, err
		}})
}

func C11(t *testing.T) {
	seq(t, "C11", "history", 10000, 200000, Profile{Weights: inboundMix, Max: 50, Min: 2, Store: 60, Chans: 60, Big: 60, Props: 25, InIDs: smallIDs, IDs: append([]int{0, 0, 0}, smallIDs...), CRM: []int{0, 0, 3, 65535, 20}},
		"at least one inbound PUBLISH with QoS > 0 or PUBREL", "in PUBREL", "in PUBLISH")
	seq(t, "C11", "many", 30, 1800, inboundMany(), "at least one inbound PUBLISH with QoS > 0 or PUBREL", "in PUBREL", "in PUBLISH")
	conc(t, "C11", "concurrent", 4000, 60000, concInbound)
}

func C12(t *testing.T) {
	seq(t, "C12", "history", 10000, 200000, Profile{Weights: inboundMix, Max: 50, Min: 3, Store: 60, Chans: 100, Big: 85, Props: 15, InIDs: smallIDs, IDs: append([]int{0, 0, 0}, smallIDs...), CRM: []int{0, 0, 3, 65535, 20}},
		"a QoS 2 message is retransmitted before its release", "retransmission")
	seq(t, "C12", "many", 60, 3600, inboundMany(), "a QoS 2 message is retransmitted before its release", "retransmission")
	conc(t, "C12", "concurrent", 4000, 60000, concInbound)
}

func C13(t *testing.T) {
	seq(t, "C13", "history", 8000, 200000, Profile{Weights: w{"pub0": 3, "pub1": 6, "pub2": 8, "pubbad": 1, "again": 1, "in.ack": 14, "ack*": 2, "in.rerec": 2, "in.stray": 2, "in.pub1": 1, "in.pub2": 1, "in.pubrel": 1, "drain": 1, "sub": 1, "in.suback": 1, "in.pingresp": 1, "poll": 1, "reconn": 1, "conn": 1},
		Max: 60, Min: 2, Store: 50, Chans: 80, Big: 80, Props: 40, Rich: 40, InIDs: smallIDs, IDs: append([]int{0, 0, 0, 0}, smallIDs...), SRM: []int{0, 0, 2, 5, 65535}},
		"an acknowledgement of an outbound message arrives", "in PUBACK", "in PUBREC", "in PUBCOMP")
	seq(t, "C13", "many", 60, 3600, outboundMany(), "an acknowledgement of an outbound message arrives", "in PUBACK", "in PUBREC", "in PUBCOMP")
	conc(t, "C13", "concurrent", 4000, 60000, concOutbound)
}

var quotaMix = w{"pub0": 2, "pub1": 8, "pub2": 8, "pubbad": 1, "again": 1, "in.ack": 10, "ack*": 3, "in.rerec": 2, "in.stray": 2, "in.pub2": 1, "in.pubrel": 1, "cancel": 2, "sleep": 2, "wfail": 1, "sfail": 1, "poll": 1, "sub": 1, "reconn": 1, "conn": 1}

func quotaProfile() Profile {
	return Profile{Weights: quotaMix, Max: 60, Min: 3, Store: 30, Chans: 20, Big: 80, Timeout: 25, InIDs: smallIDs, IDs: append([]int{0, 0, 0, 0, 0, 0}, smallIDs...), SRM: []int{1, 1, 2, 2, 3, 4, 5, 0}, Rich: 12}
}

func C14(t *testing.T) {
	seq(t, "C14", "history", 4000, 150000, quotaProfile(), "a publish has to wait for quota", "publish waits")
	concC14(t)
	seq(t, "C14", "many", 60, 3600, outboundMany(), "a publish has to wait for quota", "publish waits")
	huge(t, "C14", 4, 60, true)
}

func C15(t *testing.T) {
	seq(t, "C15", "history", 4000, 150000, quotaProfile(), "a publish has to wait for quota", "publish waits")
	concC15(t)
}

func C16(t *testing.T) {
	p := Profile{Weights: w{"in.pub0": 2, "in.pub1": 6, "in.pub2": 12, "in.redeliver": 4, "in.pubrel": 7, "pubrel*": 3, "pub1": 2, "pub2": 2, "in.ack": 3, "in.stray": 1, "in.auth": 1, "poll": 1, "ka": 1, "reconn": 1, "conn": 3},
		Max: 60, Min: 2, Store: 40, Chans: 50, Big: 80, InIDs: []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 300, 65535}, IDs: append([]int{0, 0, 0}, smallIDs...), CRM: []int{1, 1, 2, 2, 3, 4, 5, 8, 65535, 0}, CloseErr: 5, Exceed: 20, Props: 20}
	seq(t, "C16", "history", 10000, 200000, p, "QoS 2 messages are released or the Receive Maximum is exceeded", "receive maximum exceeded", "released")
	// many messages in one connection: no allowance may leak
	p.Min, p.Max, p.Exceed = 250, 500, 1
	p.CRM = []int{1, 2, 3, 5, 17}
	seq(t, "C16", "long", 60, 4000, p, "QoS 2 messages are released or the Receive Maximum is exceeded", "receive maximum exceeded", "released")
	seq(t, "C16", "many", 60, 3600, inboundMany(), "QoS 2 messages are released or the Receive Maximum is exceeded", "receive maximum exceeded", "released")
	huge(t, "C16", 4, 60, false)
	exceedFault(t)
}

func C17(t *testing.T) {
	seq(t, "C17", "history", 12000, 200000, Profile{Weights: w{"churn": 1, "chan": 5, "close": 4, "drain": 5, "in.pub0": 5, "in.pub1": 3, "in.pub2": 4, "in.pubrel": 2, "in.redeliver": 1, "pub1": 2, "pub2": 2, "in.ack": 4, "in.stray": 2, "suback+": 3, "unsub": 1, "in.unsuback": 1, "in.auth": 2, "in.disconnect": 1, "disc": 1, "in.pingresp": 1, "reconn": 1, "conn": 4},
		Max: 50, Min: 2, Store: 20, Chans: 90, Big: 35, Props: 40, Filters: 3, InIDs: smallIDs},
		"several channels, or a channel was closed", "in ")
	seq(t, "C17", "many", 25, 2000, manySubs(), "several channels, or a channel was closed", "in ")
	capacity(t)
	concC17(t)
}

// capacity fills channels of many sizes to the last event.
func capacity(t *testing.T) {
	prop.Check(t, prop.Spec[Case]{Crashy: true, ID: "C17", Part: "capacity", Quick: 40, Thorough: 2000,
		Rule: "every case: about as many events arrive as a large channel holds",
		Gen: func(t *rapid.T) (c Case) {
			size := gen.Pick(t, "size", []int{16, 64, 127, 128, 200, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 2048, 3000})
			if gen.Chance(t, "large", 10) {
				size = gen.Int(t, "cap", 3000, 9000)
			}
			c.Cfg.Caps = []int{size, max(1, size+gen.Int(t, "other", -40, 40))}
			for i := gen.Int(t, "rounds", 1, 2); i > 0; i-- {
				c.Steps = append(c.Steps, Step{Op: "inburst", N: size + gen.Int(t, "more", -3, 5), QoS: gen.Int(t, "qos", 0, 1), ID: gen.Int(t, "id", 0, 65534), Topic: gen.Pick(t, "topic", topics)},
					Step{Op: "drain", N: gen.Int(t, "which", 0, 1)})
			}
			return c
		},
		Run: func(c Case) (prop.Info, error) {
			info, err := RunSeq(t, "C17", c)
			info.NonTrivial = true
			return info, err
		}})
}

func again(t *testing.T) {
	seq(t, "C18", "again", 10000, 100000, Profile{Weights: w{"conn": 8, "disc": 4, "reconn": 3, "in.disconnect": 2, "pub1": 3, "in.ack": 2, "sub": 1, "in.suback": 1, "ka": 1, "in.pub1": 1, "in.pub2": 1, "sleep": 1, "wfail": 1, "chan": 1, "drain": 1, "poll": 1},
		Max: 25, Min: 3, KA: true, Expiry: true, Store: 20, Chans: 80, Big: 80, InIDs: smallIDs, Sleeps: []int{1, 50, 2500}, CloseErr: 5},
		"the client connects again", "connected again", "connection refused")
}

func C19(t *testing.T) {
	seq(t, "C19", "history", 20000, 200000, Profile{Weights: w{"ka": 6, "in.pingresp": 8, "poll": 8, "sleep": 4, "sleepk": 9, "in.pub0": 2, "in.pub1": 2, "pub0": 1, "disc": 1, "in.stray": 1, "in.auth": 1, "reconn": 1, "conn": 6},
		Delay: 30, MaxDelay: 1500, Max: 40, Min: 2, KA: true, Sleeps: []int{1, 100, 500, 900, 1000, 1900, 1999, 2000, 2001, 3000, 5990, 6010, 20000, 50000, 119000}, PollTimes: []int{5, 20, 400, 2500, 9000, -1}, InIDs: smallIDs, CloseErr: 6, Chans: 20, Big: 90},
		"the keep-alive timeout fires or ping responses defer it", "keep-alive timeout", "in PINGRESP")
}

func C20(t *testing.T) {
	seq(t, "C20", "history", 12000, 200000, Profile{Weights: w{"disc": 5, "in.disconnect": 3, "pub0": 2, "pub1": 3, "pub2": 3, "pubbad": 1, "again": 1, "sub": 2, "unsub": 2, "ka": 2, "poll": 3, "in.pub0": 1, "in.pub2": 4, "in.ack": 2, "in.suback": 1, "chan": 1, "sleep": 1, "drain": 1, "wfail": 1, "conn": 5},
		Max: 25, Min: 2, Expiry: true, KA: true, Store: 40, Chans: 70, Big: 90, Filters: 2, InIDs: smallIDs, CloseErr: 8, Exceed: 20, SRM: []int{0, 1, 2}, CRM: []int{0, 1, 2}, Props: 20, Sleeps: []int{1, 50, 2500}},
		"the client was disconnected and used again", "publish not connected", "poll not connected", "sub not connected", "unsub not connected", "ka not connected", "disconnect not connected")
	neverConnected(t)
	conc(t, "C20", "concurrent", 4000, 60000, concMixed)
}

var subMix = w{"sub": 10, "unsub": 6, "in.suback": 10, "in.unsuback": 6, "suback+": 4, "in.lateack": 2, "in.stray": 2, "chan": 2, "close": 2, "cancel": 2, "sleep": 1, "in.pub0": 6, "in.pub1": 2, "in.pub2": 2, "drain": 2, "pub1": 1, "in.ack": 1, "wfail": 1, "poll": 1, "reconn": 1, "conn": 1}

func C21(t *testing.T) {
	seq(t, "C21", "history", 12000, 250000, Profile{Weights: subMix, Max: 40, Min: 2, Chans: 95, Big: 85, Filters: 4, Timeout: 20, Props: 25, InIDs: smallIDs, Rng: 30, Store: 10, CRM: []int{0}},
		"a SUBACK or UNSUBACK arrives", "in SUBACK", "in UNSUBACK")
	seq(t, "C21", "many", 40, 2500, manySubs(), "a SUBACK or UNSUBACK arrives", "in SUBACK", "in UNSUBACK")
	concC21(t)
}

func C22(t *testing.T) {
	seq(t, "C22", "history", 5000, 200000, Profile{Weights: w{"pub1": 8, "pub2": 8, "sub": 6, "unsub": 4, "in.ack": 8, "in.suback": 3, "in.unsuback": 2, "in.lateack": 2, "in.stray": 1, "cancel": 2, "wfail": 1, "sfail": 1, "in.pub2": 2, "in.pubrel": 1, "sleep": 1, "pub0": 1, "pubbad": 1, "again": 1, "reconn": 1, "conn": 1},
		Max: 50, Min: 2, Rng: 85, Held: 50, Store: 50, Timeout: 15, InIDs: smallIDs, IDs: append([]int{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, smallIDs...), SRM: []int{0, 0, 3, 65535}},
		"the client chose an identifier while others were in use", "identifier chosen with")
	concC22(t)
	huge(t, "C22", 3, 60, true)
	seq(t, "C22", "many", 30, 3600, outboundMany(), "the client chose an identifier while others were in use", "identifier chosen with")
}

func C23(t *testing.T) {
	seq(t, "C23", "history", 5000, 200000, Profile{Weights: w{"pub0": 1, "pub1": 6, "pub2": 7, "pubbad": 2, "again": 2, "in.ack": 10, "in.rerec": 2, "in.stray": 2, "in.pub0": 1, "in.pub1": 3, "in.pub2": 7, "in.redeliver": 3, "in.pubrel": 6, "wfail": 2, "sfail": 2, "sub": 1, "in.suback": 1, "cancel": 1, "reconn": 1, "conn": 2},
		Max: 50, Min: 2, Store: 100, Held: 15, Rich: 15, Props: 15, InIDs: smallIDs, IDs: append([]int{0, 0}, smallIDs...), Rng: 30, SRM: []int{0, 0, 2, 5}, CRM: []int{0, 0, 3, 20}},
		"inbound and outbound exchanges are tracked", "released", "inbound and outbound share", "identifier held", "in PUBREC", "in PUBACK")
	seq(t, "C23", "many", 40, 2400, outboundMany(), "inbound and outbound exchanges are tracked", "released", "inbound and outbound share", "identifier held", "in PUBREC", "in PUBACK")
	pr := concOutbound
	pr.Store = 100
	conc(t, "C23", "concurrent", 3000, 60000, pr)
}

// differential runs a history of inbound packets twice; the plain one tells what should happen.
func differential(t *testing.T, id, part string, quick, thorough int, g func(*rapid.T) Case, plain func(Case) Case, rule string) {
	prop.Check(t, prop.Spec[Case]{Crashy: true, ID: id, Part: part, Quick: quick, Thorough: thorough, Rule: rule, Gen: g,
		Run: func(c Case) (info prop.Info, err error) {
			var i0 prop.Info
			var m0 error
			if e := Bubble(t, func() { m0 = runSeq(plain(c), &i0) }); e != nil || m0 != nil && m0 != errStop {
				info.Add("diverged in the plain run")
				return info, nil
			}
			var m error
			e := Bubble(t, func() { m = runSeq(c, &info) })
			if m != nil && m != errStop {
				return info, m
			}
			if e != nil {
				return info, e
			}
			info.NonTrivial = true
			return info, nil
		}})
}

var streamMix = w{"in.pub0": 6, "in.pub1": 4, "in.pub2": 4, "in.pubrel": 3, "in.redeliver": 1, "in.stray": 3, "in.pingresp": 3, "in.auth": 2, "pub1": 2, "pub2": 2, "in.ack": 4}

func concat(xs ...[]Step) (r []Step) {
	for _, x := range xs {
		r = append(r, x...)
	}
	return
}

func C06(t *testing.T) {
	codec.C06(t)
	p := Profile{Weights: streamMix, Min: 1, Max: 12, Chans: 100, Big: 100, Props: 80, Rich: 0, InIDs: smallIDs, SRM: []int{0}, CRM: []int{0}, NoPoll: 30, Sleeps: []int{1}}
	differential(t, "C06", "client", 3000, 100000, func(t *rapid.T) Case {
		c := p.gen(t)
		c.Cfg.Chunk = codec.GenSizes(t)
		c.Steps = flush(c.Steps)
		return c
	}, func(c Case) Case { c.Cfg.Chunk = nil; return c }, "every case: the stream is read in small pieces by a connected client")
}

// flush polls everything that was queued.
func flush(s []Step) []Step {
	n := 0
	for _, x := range s {
		if x.Op == "in" && x.NoPoll {
			n++
		}
	}
	for ; n > 0; n-- {
		s = append(s, Step{Op: "poll", T: -1})
	}
	return s
}

func C27(t *testing.T) {
	broken(t)
	p := Profile{Weights: w{"in.pub0": 6, "in.pub1": 4, "in.pub2": 3, "in.pubrel": 2, "in.stray": 3, "in.pingresp": 2, "in.auth": 2, "poll": 10, "sleep": 4, "pub0": 1, "ka": 1},
		Min: 2, Max: 16, Chans: 100, Big: 100, Props: 50, InIDs: smallIDs, SRM: []int{0}, CRM: []int{0}, Delay: 85, MaxDelay: 4900, NoPoll: 50,
		Sleeps: []int{1, 10, 500, 3000}, PollTimes: []int{1, 5, 20, 100, 1000, 8000, -1}}
	differential(t, "C27", "timing", 12000, 150000, func(t *rapid.T) Case {
		c := p.gen(t)
		for i := range c.Steps {
			for k := range c.Steps[i].Delay {
				if gen.Chance(t, "short", 60) {
					c.Steps[i].Delay[k] %= 40
				}
			}
		}
		if gen.Chance(t, "slow", 12) { // one packet takes almost as long as packets may take
			for i := range c.Steps {
				if s := &c.Steps[i]; s.Op == "in" && gen.Chance(t, "this", 40) {
					s.Delay = nil
					left := 29900
					for k := gen.Int(t, "pieces", 1, 5); k >= 0; k-- {
						d := gen.Int(t, "gap", 0, left)
						if gen.Chance(t, "long", 40) {
							d = left - gen.Int(t, "rest", 0, min(left, 500))
						}
						s.Delay = append(s.Delay, d)
						left -= d
					}
					break
				}
			}
		}
		c.Steps = flush(c.Steps)
		return c
	}, func(c Case) Case {
		s := append([]Step(nil), c.Steps...)
		for i := range s {
			s[i].Delay = nil
		}
		c.Steps = s
		return c
	}, "every case: packets arrive in pieces at times unrelated to the poll deadlines")
}

// broken ends the stream of a client that received some packets.
func broken(t *testing.T) {
	p := Profile{Weights: w{"in.pub0": 6, "in.pub1": 4, "in.pub2": 4, "in.pubrel": 2, "in.stray": 2, "in.pingresp": 2, "in.auth": 2, "pub1": 1, "pub2": 1, "in.ack": 2, "poll": 2, "sub": 1, "in.suback": 1},
		Min: 0, Max: 6, Chans: 100, Big: 100, Props: 50, InIDs: smallIDs, SRM: []int{0}, CRM: []int{0}, Sleeps: []int{1}, PollTimes: []int{5, 100, -1}, Store: 20}
	last := p
	last.Weights = w{"in.pub0": 3, "in.pub1": 3, "in.pub2": 3, "in.pubrel": 2, "in.ack": 3, "in.stray": 3, "in.pingresp": 2, "in.auth": 1, "in.disconnect": 2, "in.suback": 1, "in.unsuback": 1, "in.redeliver": 1}
	prop.Check(t, prop.Spec[Case]{Crashy: true, ID: "C27", Part: "end", Quick: 6000, Thorough: 100000, Rule: "every case: the stream ends or fails between or inside packets",
		Gen: func(t *rapid.T) Case {
			c := p.gen(t)
			if gen.Chance(t, "chunk", 40) {
				c.Cfg.Chunk = codec.GenSizes(t)
			}
			s := last.step(t)[0]
			s.Op, s.Bad = "end", false
			s.N, s.Reason, s.T, s.Will = 0, gen.Int(t, "error", 0, len(endErrs)-1), 0, gen.Chance(t, "no deadline", 40)
			if gen.Chance(t, "inside", 75) {
				s.N = gen.Int(t, "permille", 1, 1000)
			}
			if gen.Chance(t, "later", 40) {
				s.T = gen.Int(t, "after", 1, 5000)
			}
			c.Steps = append(c.Steps, s)
			return c
		},
		Run: func(c Case) (prop.Info, error) {
			info, err := RunSeq(t, "C27", c)
			info.NonTrivial = false
			for _, k := range info.Classes {
				info.NonTrivial = info.NonTrivial || strings.HasPrefix(k, "the stream ends")
			}
			return info, err
		}})
}

func C30(t *testing.T) {
	codec.C30(t)
	connectCodes(t)
	seq(t, "C30", "subscribe", 6000, 50000, Profile{Weights: w{"sub": 6, "in.suback": 8, "pub1": 1, "chan": 1}, Min: 2, Max: 12, Filters: 4, Chans: 50, Big: 100, Props: 20},
		"a subscription is refused", "subscription refused")
}

var _ = time.Second
