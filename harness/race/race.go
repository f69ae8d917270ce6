// Package race decides C26: generated concurrent use of the client and of the memory storage under the
// race detector. The library keeps its own synchronisation; calls before its statements delay the
// goroutines at random.
package race

import (
	"context"
	"fmt"
	"math/rand/v2"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/storage/memory"

	"tinyverif/gen"
	"tinyverif/lib"
	"tinyverif/prop"
	"tinyverif/vsync/vy"
	"tinyverif/wire"
)

// Op is a call of the application.
type Op struct {
	Op    string
	QoS   int      `json:",omitempty"`
	Topic string   `json:",omitempty"`
	Size  int      `json:",omitempty"`
	Fs    []string `json:",omitempty"`
	N     int      `json:",omitempty"`
	T     int      `json:",omitempty"` // deadline in ms
	Reuse bool     `json:",omitempty"` // the packet is changed by the application afterwards
}

// Push is what the server sends on its own.
type Push struct {
	At   int // ms
	Kind string
	QoS  int
}

// Case is a generated case. Worlds independent clients run it at once.
type Case struct {
	Yield   int // of 1000 statements are delayed
	Nap     int // the longest delay in µs
	Early   bool
	Store   bool
	RM      int
	CRM     int // the client's Receive Maximum
	KA      int
	Late    int  // the last operation of each thread comes this many ms later: a keep-alive interval has passed
	Mute    bool // the server leaves PINGREQ unanswered
	Recon   bool // the polling goroutine connects again after a failure
	Chans   int
	Lat     []int // ms
	Refuse  bool
	WFail   int // the write with this number fails
	WPart   int
	Push    []Push
	Threads [][]Op
}

const worlds = 6

var filters = []string{"a", "b", "a/+", "#"}

func genCase(t *rapid.T) (c Case) {
	c.Yield = gen.Pick(t, "yield", []int{0, 10, 50, 200, 500})
	c.Nap = gen.Pick(t, "nap", []int{0, 1, 20, 200})
	c.Early = gen.Chance(t, "early", 20)
	c.Store = gen.Chance(t, "store", 40)
	c.RM = gen.Pick(t, "rm", []int{0, 0, 1, 2})
	c.CRM = gen.Pick(t, "crm", []int{0, 0, 0, 1, 2})
	c.KA = gen.Pick(t, "ka", []int{0, 60})
	c.Recon = gen.Chance(t, "recon", 25)
	if gen.Chance(t, "late", 2) {
		c.KA, c.Mute = 1, gen.Chance(t, "mute", 50)
		c.Late = gen.Pick(t, "lateby", []int{490, 990, 1480, 1495, 1500, 1990})
	}
	c.Chans = gen.Int(t, "chans", 0, 2)
	for i := gen.Int(t, "nlat", 1, 3); i > 0; i-- {
		c.Lat = append(c.Lat, gen.Pick(t, "lat", []int{0, 0, 0, 1, 3}))
	}
	c.Refuse = gen.Chance(t, "refuse", 20)
	if gen.Chance(t, "fail", 20) {
		c.WFail = gen.Int(t, "wfail", 2, 12)
		c.WPart = gen.Int(t, "wpart", 0, 4)
	}
	for i := gen.Int(t, "npush", 0, 6); i > 0; i-- {
		p := Push{At: gen.Pick(t, "at", []int{0, 0, 1, 2, 5}), Kind: gen.Pick(t, "kind", []string{"publish", "publish", "publish", "publish", "stray", "auth", "pingresp", "disc", "eof"})}
		p.QoS = gen.Int(t, "q", 0, 2)
		c.Push = append(c.Push, p)
	}
	ops := []string{"pub", "pub", "pub", "pub", "sub", "sub", "unsub", "chan", "close", "ka", "kai", "isconn", "disc", "sleep"}
	focus := gen.Pick(t, "focus", ops) // two calls meet more often
	for th := gen.Int(t, "threads", 1, 5); th > 0; th-- {
		var l []Op
		for k := gen.Int(t, "nops", 1, 6); k > 0; k-- {
			o := Op{Op: gen.Pick(t, "op", ops)}
			if gen.Chance(t, "focused", 25) {
				o.Op = focus
			}
			if o.Op == "disc" && gen.Chance(t, "later", 60) {
				o.Op = "pub"
			}
			o.T = gen.Pick(t, "t", []int{1, 5, 20, 20})
			switch o.Op {
			case "pub":
				o.QoS = gen.Int(t, "qos", 0, 2)
				o.Topic = gen.Pick(t, "topic", []string{"a", "b", "a/b", "", "c"})
				o.Size = gen.Pick(t, "size", []int{0, 3, 200})
				o.Reuse = gen.Chance(t, "reuse", 30) && !c.Store
			case "sub", "unsub":
				for i := gen.Int(t, "nf", 1, 2); i > 0; i-- {
					o.Fs = append(o.Fs, gen.Pick(t, "f", filters))
				}
				o.N = gen.Int(t, "ch", 0, 3)
			case "chan", "close":
				o.N = gen.Int(t, "n", 0, 3)
			case "disc":
				o.N = gen.Int(t, "v", 0, 3)
			case "sleep":
				o.N = gen.Pick(t, "us", []int{1, 50, 500})
			}
			l = append(l, o)
		}
		c.Threads = append(c.Threads, l)
	}
	return c
}

// hook delays the running goroutine now and then.
func hook(yield, nap int) func(bool) {
	return func(bool) {
		if yield == 0 {
			return
		}
		r := rand.Uint32()
		if int(r%1000) >= yield {
			return
		}
		if nap == 0 || r>>30 == 0 {
			runtime.Gosched()
			return
		}
		time.Sleep(time.Duration(r>>10%uint32(nap)) * time.Microsecond)
	}
}

// server answers what arrives on the connection until it is closed.
func server(c Case, cn *conn) {
	var buf []byte
	li := 0
	send := func(p *wire.Packet, ms int) {
		p.HasReason, p.HasProps = true, true
		b := p.Encode()
		if ms == 0 {
			cn.in <- b
			return
		}
		time.AfterFunc(time.Duration(ms)*time.Millisecond, func() { cn.in <- b })
	}
	answer := func(p *wire.Packet) {
		li++
		send(p, c.Lat[li%len(c.Lat)])
	}
	var code byte
	if c.Refuse {
		code = 0x87
	}
	rel := map[uint16]bool{}
	for {
		var b []byte
		select {
		case b = <-cn.out:
		case <-cn.gone:
			return
		}
		buf = append(buf, b...)
		for {
			hdr, body, n, err := wire.Frame(buf)
			if err != nil {
				break
			}
			buf = buf[n:]
			p, err := wire.DecodeBody(hdr, body)
			if err != nil {
				break
			}
			switch p.Type {
			case wire.CONNECT:
				a := &wire.Packet{Type: wire.CONNACK}
				if c.RM > 0 {
					a.Props = append(a.Props, wire.Prop{ID: 0x21, Num: uint32(c.RM)})
				}
				answer(a)
				for i, x := range c.Push {
					var q *wire.Packet
					switch x.Kind {
					case "publish":
						q = &wire.Packet{Type: wire.PUBLISH, Flags: byte(x.QoS) << 1, Topic: []string{"a", "b", "a/b"}[i%3], Payload: "x"}
						if x.QoS > 0 {
							q.ID = uint16(100 + i)
						}
					case "stray":
						q = &wire.Packet{Type: []byte{wire.PUBACK, wire.PUBREC, wire.PUBCOMP, wire.SUBACK, wire.UNSUBACK}[i%5], ID: 9}
						if q.Type == wire.SUBACK || q.Type == wire.UNSUBACK {
							q.Reasons = []byte{0}
						}
					case "auth":
						q = &wire.Packet{Type: wire.AUTH, Reason: 0x18, Props: []wire.Prop{{ID: 0x15, S: "m"}}}
					case "pingresp":
						q = &wire.Packet{Type: wire.PINGRESP}
					case "disc":
						q = &wire.Packet{Type: wire.DISCONNECT, Reason: 0x8B}
					case "eof":
						time.AfterFunc(time.Duration(x.At)*time.Millisecond, func() {
							defer func() { recover() }() // there already
							close(cn.eof)
						})
						continue
					}
					send(q, x.At+c.Lat[0])
				}
			case wire.PUBLISH:
				switch p.QoS() {
				case 1:
					answer(&wire.Packet{Type: wire.PUBACK, ID: p.ID, Reason: code})
				case 2:
					answer(&wire.Packet{Type: wire.PUBREC, ID: p.ID, Reason: code})
				}
			case wire.PUBREL:
				answer(&wire.Packet{Type: wire.PUBCOMP, ID: p.ID})
			case wire.PUBREC:
				if !rel[p.ID] {
					rel[p.ID] = true
					answer(&wire.Packet{Type: wire.PUBREL, Flags: 2, ID: p.ID})
				}
			case wire.SUBSCRIBE:
				a := &wire.Packet{Type: wire.SUBACK, ID: p.ID}
				for range p.Filters {
					a.Reasons = append(a.Reasons, code)
				}
				answer(a)
			case wire.UNSUBSCRIBE:
				a := &wire.Packet{Type: wire.UNSUBACK, ID: p.ID}
				for range p.Filters {
					a.Reasons = append(a.Reasons, code)
				}
				answer(a)
			case wire.PINGREQ:
				if c.Mute {
					continue
				}
				answer(&wire.Packet{Type: wire.PINGRESP})
			}
		}
	}
}

func safely(f func()) {
	defer func() { recover() }()
	f()
}

// consume reads events, all of their content, until the channel is done.
func consume(ch mqtt.EventChannel, stop chan struct{}) {
	for {
		select {
		case e := <-ch.C:
			if e != nil {
				lib.Convert(e.Data)
			} else {
				return
			}
		case <-ch.Done:
			return
		case <-stop:
			return
		}
	}
}

// stuck counts the clients with a call that does not return.
var stuck atomic.Int64

// patience is how long a case may take: less if many have been stuck.
func patience() time.Duration {
	if stuck.Load() > 10*worlds {
		return 500 * time.Millisecond
	}
	return 5 * time.Second
}

// world runs the case with one client.
func world(c Case) (overlap bool) {
	ln := &link{}
	dial := func() {
		cn := newConn()
		cn.wfail, cn.wpart = int64(c.WFail), int64(c.WPart)
		ln.p.Store(cn)
		go server(c, cn)
	}
	dial()
	cl := mqtt.NewClient(ln)
	if c.Store {
		cl.SetStorage(memory.NewStorage())
	}
	stop := make(chan struct{})
	var all sync.WaitGroup
	mk := func(n int) mqtt.EventChannel {
		ch := cl.CreateEventChannel(n)
		all.Add(1)
		go func() { defer all.Done(); consume(ch, stop) }()
		return ch
	}
	var chans []mqtt.EventChannel
	for i := 0; i < c.Chans; i++ {
		chans = append(chans, mk(i))
	}
	connect := func() {
		ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
		defer cancel()
		safely(func() {
			cl.Connect(ctx, &packets.Connect{ClientId: "c", KeepAlive: lib.U16(c.KA), ReceiveMaximum: lib.U16(c.CRM)})
		})
	}
	if !c.Early {
		connect()
	}
	var apps sync.WaitGroup
	all.Add(1)
	go func() {
		defer all.Done()
		again := 0
		for {
			select {
			case <-stop:
				return
			default:
			}
			ctx, cancel := context.WithTimeout(context.Background(), time.Millisecond)
			var err error
			safely(func() { err = cl.Poll(ctx) })
			cancel()
			if err == nil {
				continue
			}
			time.Sleep(200 * time.Microsecond)
			if old := ln.p.Load(); c.Recon && again < 3 && !(c.Early && again == 0 && err == mqtt.ErrClientNotConnected && get(&old.nw) == 0) {
				again++
				ctx, cancel := context.WithTimeout(context.Background(), 20*time.Millisecond)
				safely(func() { cl.Disconnect(ctx, false) })
				cancel()
				if !cl.IsConnected() {
					old.Close()
					dial()
					connect()
				}
			}
		}
	}()
	for th, ops := range c.Threads {
		apps.Add(1)
		mine := append([]mqtt.EventChannel(nil), chans...)
		go func() {
			defer apps.Done()
			if c.Early && th == 0 {
				connect()
			}
			for i, o := range ops {
				if c.Late > 0 && i == len(ops)-1 {
					time.Sleep(time.Duration(c.Late) * time.Millisecond)
				}
				ctx, cancel := context.WithTimeout(context.Background(), time.Duration(o.T)*time.Millisecond)
				safely(func() {
					switch o.Op {
					case "pub":
						p := &packets.Publish{Topic: lib.S(o.Topic), QoS: packets.QoS(o.QoS), Payload: make([]byte, o.Size)}
						cl.Publish(ctx, p)
						if o.Reuse {
							p.Topic = "changed"
							for i := range p.Payload {
								p.Payload[i] = 1
							}
							p.PacketIdentifier = 0
						}
					case "sub":
						var ts []mqtt.Topic
						for k, f := range o.Fs {
							var t mqtt.Topic
							t.SetFilter(f)
							if o.N+k < len(mine) {
								t.SetEventChannel(mine[o.N+k])
							}
							ts = append(ts, t)
						}
						cl.Subscribe(ctx, ts)
						if i%2 == 0 && len(ts) > 0 {
							ts[0] = mqtt.Topic{}
						}
					case "unsub":
						cl.Unsubscribe(ctx, o.Fs)
					case "chan":
						mine = append(mine, mk(o.N))
					case "close":
						if o.N < len(mine) {
							cl.CloseEventChannel(mine[o.N])
							if o.N >= c.Chans {
								mine = append(mine[:o.N:o.N], mine[o.N+1:]...)
							}
						}
					case "ka":
						cl.KeepAlive()
					case "kai":
						cl.KeepAliveInterval()
					case "isconn":
						cl.IsConnected()
					case "disc":
						if o.N < 2 {
							cl.Disconnect(ctx, o.N == 1)
						} else {
							cl.DisconnectWithSessionExpiry(ctx, o.N == 3, 10)
						}
					case "sleep":
						time.Sleep(time.Duration(o.N) * time.Microsecond)
					}
				})
				cancel()
			}
		}()
	}
	wait := func(w *sync.WaitGroup) bool {
		d := make(chan struct{})
		go func() { w.Wait(); close(d) }()
		select {
		case <-d:
			return true
		case <-time.After(patience()): // whether calls return is decided by C25
			stuck.Add(1)
			return false
		}
	}
	ok := wait(&apps)
	time.Sleep(2 * time.Millisecond)
	close(stop)
	ok = ok && wait(&all) // a stuck call may still create channels
	ln.p.Load().Close()
	return ok
}

// reports returns what the race detector wrote since the last call.
var seen int64

func reports() string {
	g := os.Getenv("GORACE")
	i := strings.Index(g, "log_path=")
	if i < 0 {
		return ""
	}
	p, _, _ := strings.Cut(g[i+9:], " ")
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
	if err != nil || int64(len(b)) <= seen {
		return ""
	}
	s := string(b[seen:])
	seen = int64(len(b))
	return s
}

// verdict turns new reports of the race detector into an error.
func verdict(before int) error {
	if raceErrors() == before {
		return nil
	}
	r := reports()
	if r != "" && !strings.Contains(r, "tinygo-mqtt/mqtt") {
		fmt.Printf("HARNESS-ERROR race in the harness\n%s\n", r)
		os.Exit(2)
	}
	var keep []string
	for _, l := range strings.Split(r, "\n") {
		if l = strings.TrimSpace(l); strings.HasPrefix(l, "github.com/waj334/") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Previous ") {
			keep = append(keep, l)
		}
		if len(keep) > 12 {
			break
		}
	}
	return fmt.Errorf("data race\n%s", strings.Join(keep, "\n"))
}

func run(c Case) (info prop.Info, err error) {
	before := raceErrors()
	vy.Set(hook(c.Yield, c.Nap))
	var wg sync.WaitGroup
	oks := make([]bool, worlds)
	for i := range oks {
		wg.Add(1)
		go func() { defer wg.Done(); oks[i] = world(c) }()
	}
	wg.Wait()
	vy.Set(nil)
	for _, ok := range oks {
		if !ok {
			info.Add("stuck")
		}
	}
	kinds := map[string]bool{}
	for _, th := range c.Threads {
		for _, o := range th {
			kinds[o.Op] = true
		}
	}
	for k := range kinds {
		info.Add("%s", k)
	}
	info.Add("threads%d", len(c.Threads))
	if c.Recon {
		info.Add("reconnect")
	}
	if c.Late > 0 {
		info.Add("late")
	}
	info.NonTrivial = len(c.Threads) > 1
	return info, verdict(before)
}

// MemCase is concurrent use of the memory storage.
type MemCase struct {
	Yield, Nap int
	Threads    [][]int // op*8+id
}

func runMem(c MemCase) (info prop.Info, err error) {
	before := raceErrors()
	vy.Set(hook(c.Yield, c.Nap))
	st := memory.NewStorage()
	var wg sync.WaitGroup
	for _, ops := range c.Threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, o := range ops {
				id := uint16(o % 8)
				safely(func() {
					switch o / 8 {
					case 0:
						st.Store(id, &packets.Publish{})
					case 1:
						st.Get(id)
					default:
						st.Drop(id)
					}
				})
			}
		}()
	}
	wg.Wait()
	vy.Set(nil)
	info.NonTrivial = len(c.Threads) > 1
	return info, verdict(before)
}

func C26(t *testing.T) {
	prop.Check(t, prop.Spec[Case]{Crashy: true, ID: "C26", Part: "client", Quick: 1500, Thorough: 60000, Retry: 20, Gen: genCase, Run: run,
		Rule: "at least two goroutines besides the polling one"})
	prop.Check(t, prop.Spec[MemCase]{Crashy: true, ID: "C26", Part: "storage", Quick: 300, Thorough: 5000, Retry: 20, Run: runMem,
		Rule: "at least two goroutines",
		Gen: func(t *rapid.T) (c MemCase) {
			c.Yield = gen.Pick(t, "yield", []int{0, 50, 300})
			c.Nap = gen.Pick(t, "nap", []int{0, 1, 20})
			for i := gen.Int(t, "threads", 1, 4); i > 0; i-- {
				var l []int
				for k := gen.Int(t, "nops", 1, 8); k > 0; k-- {
					l = append(l, gen.Int(t, "op", 0, 23))
				}
				c.Threads = append(c.Threads, l)
			}
			return c
		}})
}
