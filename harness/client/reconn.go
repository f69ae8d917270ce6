package client

import (
	"context"
	"errors"
	"fmt"
	"os"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"

	"tinyverif/codec"
	"tinyverif/gen"
	"tinyverif/lib"
	"tinyverif/prop"
	"tinyverif/sched"
	"tinyverif/sim"
	"tinyverif/vsync/vy"
	"tinyverif/wire"
)

// reconn.go: goroutines use the client while another one connects it again and again. What belongs to one
// connection (quota, identifiers, pending requests) must not leak into the next one.

// Epoch is one connection.
type Epoch struct {
	RM   int       // Receive Maximum of the server, 0: not announced
	Life int       `json:",omitempty"` // ms until it ends
	App  bool      `json:",omitempty"` // the application disconnects, otherwise the server
	Lat  []int     // latencies of the answers in ms
	Ack  *codec.In `json:",omitempty"` // what else the CONNACK says
}

type ReCase struct {
	Plan    sched.Plan
	Epochs  []Epoch
	Threads [][]COp
	PollMs  int
	Rng     []uint32 `json:",omitempty"`
}

type rop struct {
	COp
	name       string
	start, end int
	done       bool
	err        error
	wired      int // times
	epoch      int // of the connection it was sent on
	acked      int // its acknowledgement was consumed at
	pub        *packets.Publish
}

type rack struct {
	end int64
	f   func()
}

type rworld struct {
	mu     sync.Mutex
	c      ReCase
	info   *prop.Info
	conn   *sim.Conn
	cl     *mqtt.Client
	seqNo  int
	err    *mism
	ops    []*rop
	epoch  int
	up     []int
	down   []int
	inbuf  []byte
	npk    int
	flight int
	maxFl  int
	inUse  map[uint16]*rop
	q2     map[uint16]*rop
	acks   []rack
	total  int64
	latI   int
	pend   int
	live   int
	hold   bool
}

func (w *rworld) fail(tags, f string, a ...any) {
	if w.err == nil {
		w.err = &mism{tags, fmt.Sprintf(f, a...)}
	}
}

func (w *rworld) seq() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.seqNo++
	return w.seqNo
}

func (w *rworld) rm() int {
	if n := w.c.Epochs[w.epoch].RM; n > 0 {
		return n
	}
	return 65535
}

// after lets the server send p later; f runs once the client has consumed it. w.mu held.
func (w *rworld) after(p *wire.Packet, f func()) {
	e := w.epoch
	lat := 0
	if l := w.c.Epochs[e].Lat; len(l) > 0 {
		lat = l[w.latI%len(l)]
		w.latI++
	}
	w.pend++
	vy.Woke()
	g := func() {
		w.mu.Lock()
		defer w.mu.Unlock()
		w.pend--
		if w.epoch != e || w.conn.Closed() {
			return
		}
		b := p.Encode()
		w.total += int64(len(b))
		w.acks = append(w.acks, rack{w.total, f})
		w.conn.Push(0, b)
	}
	if lat == 0 {
		go g()
		return
	}
	time.AfterFunc(time.Duration(lat)*time.Millisecond, g)
}

func (w *rworld) onRead(total int64) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for len(w.acks) > 0 && w.acks[0].end <= total {
		w.seqNo++
		if f := w.acks[0].f; f != nil {
			f()
		}
		w.acks = w.acks[1:]
	}
}

func (w *rworld) onWrite(b []byte) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.inbuf = append(w.inbuf, b...)
	for {
		hdr, body, n, err := wire.Frame(w.inbuf)
		if err != nil {
			if !incomplete(w.inbuf) {
				w.fail("C31", "the stream is not well-formed: %v", err)
			}
			return
		}
		p, err := wire.DecodeBody(hdr, body)
		if err != nil {
			w.fail("C31", "the stream is not well-formed: %v (%.60x)", err, w.inbuf[:n])
			return
		}
		w.inbuf = w.inbuf[n:]
		w.npk++
		w.seqNo++
		w.serve(p)
	}
}

func (w *rworld) sent(name, kind string, id uint16) *rop {
	for _, o := range w.ops {
		if o.name != name || o.Op != kind {
			continue
		}
		o.wired++
		o.epoch = w.epoch
		if o.wired > 1 {
			w.fail("C13 C31", "%s was sent %d times", name, o.wired)
		}
		if o.start == 0 || o.done {
			w.fail("C15 C31", "%s was sent after the call returned", name)
		}
		if id == 0 && !(kind == "pub" && o.QoS == 0) {
			w.fail("C22", "%s was sent with identifier 0", name)
		}
		if x := w.inUse[id]; x != nil && id != 0 {
			w.fail("C22", "%s was sent with identifier %d, which is in use by %s", name, id, x.name)
		}
		if id != 0 {
			w.inUse[id] = o
		}
		return o
	}
	w.fail("C13 C31", "%s %q was sent, which nobody asked for", kind, name)
	return nil
}

func (w *rworld) serve(p *wire.Packet) {
	if (p.Type == wire.CONNECT) != (w.npk == 1) {
		w.fail("C20 C31", "%s is packet %d of connection %d", wire.Names[p.Type], w.npk, w.epoch)
		return
	}
	switch p.Type {
	case wire.CONNECT:
		ack := &wire.Packet{Type: wire.CONNACK}
		if x := w.c.Epochs[w.epoch].Ack; x != nil {
			ack = x.Packet()
		}
		if n := w.c.Epochs[w.epoch].RM; n > 0 {
			ack.Props = append(ack.Props, wire.Prop{ID: 0x21, Num: uint32(n)})
		}
		w.after(ack, nil)
	case wire.PUBLISH:
		o := w.sent(p.Payload, "pub", p.ID)
		if o == nil || o.QoS == 0 {
			return
		}
		w.flight++
		w.maxFl = max(w.maxFl, w.flight)
		if w.flight > w.rm() {
			w.fail("C14", "%s: %d messages in flight on connection %d, whose Receive Maximum is %d", o.name, w.flight, w.epoch, w.rm())
		}
		if w.hold {
			return
		}
		if o.QoS == 2 {
			w.q2[p.ID] = o
			w.after(&wire.Packet{Type: wire.PUBREC, ID: p.ID}, nil)
			return
		}
		w.after(&wire.Packet{Type: wire.PUBACK, ID: p.ID}, func() { w.flight--; delete(w.inUse, p.ID) })
	case wire.PUBREL:
		if w.q2[p.ID] == nil {
			w.fail("C13", "PUBREL %d without an exchange on this connection", p.ID)
			return
		}
		delete(w.q2, p.ID)
		w.after(&wire.Packet{Type: wire.PUBCOMP, ID: p.ID}, func() { w.flight--; delete(w.inUse, p.ID) })
	case wire.SUBSCRIBE, wire.UNSUBSCRIBE:
		kind, typ := "sub", byte(wire.SUBACK)
		if p.Type == wire.UNSUBSCRIBE {
			kind, typ = "unsub", wire.UNSUBACK
		}
		o := w.sent(p.Filters[0].Filter, kind, p.ID)
		if o == nil {
			return
		}
		w.after(&wire.Packet{Type: typ, ID: p.ID, Reasons: []byte{0}}, func() { o.acked = w.seqNo; delete(w.inUse, p.ID) })
	case wire.PINGREQ, wire.DISCONNECT:
	default:
		w.fail("C13 C31", "unexpected %s", wire.Names[p.Type])
	}
}

func (w *rworld) exec(o *rop) {
	ctx, cancel := context.Background(), context.CancelFunc(func() {})
	if o.T > 0 {
		ctx, cancel = context.WithTimeout(ctx, time.Duration(o.T)*time.Millisecond)
	}
	defer cancel()
	n := w.seq()
	w.mu.Lock()
	o.start = n
	w.mu.Unlock()
	switch o.Op {
	case "pub":
		o.pub = &packets.Publish{Topic: "t", QoS: packets.QoS(o.QoS), Payload: []byte(o.name)}
		o.err = w.cl.Publish(ctx, o.pub)
	case "sub":
		var t mqtt.Topic
		t.SetFilter(o.name)
		o.err = w.cl.Subscribe(ctx, []mqtt.Topic{t})
	case "unsub":
		o.err = w.cl.Unsubscribe(ctx, []string{o.name})
	case "sleep":
		time.Sleep(time.Duration(o.N) * time.Millisecond)
	}
	n = w.seq()
	w.mu.Lock()
	o.end, o.done = n, true
	w.mu.Unlock()
}

// manager connects, ends the connection, and connects again.
func (w *rworld) manager() {
	defer w.gone()
	for e, ep := range w.c.Epochs {
		if e > 0 {
			for i := 0; !w.conn.Closed() || w.cl.IsConnected(); i++ {
				if i > 60000 {
					w.fail("C20 C25", "connection %d does not end", e-1)
					return
				}
				time.Sleep(time.Millisecond)
			}
			w.mu.Lock()
			w.epoch, w.inbuf, w.npk, w.flight, w.acks = e, nil, 0, 0, nil
			w.inUse, w.q2 = map[uint16]*rop{}, map[uint16]*rop{}
			w.conn.Reopen()
			w.total = w.conn.ReadTotal()
			w.mu.Unlock()
		}
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		err := w.cl.Connect(ctx, &packets.Connect{Version: packets.MQTT5, ClientId: "c"})
		cancel()
		if err != nil {
			w.fail("C18 C25", "connecting the %d. time failed: %v", e+1, err)
			return
		}
		n := w.seq()
		w.mu.Lock()
		w.up = append(w.up, n)
		w.mu.Unlock()
		if e == len(w.c.Epochs)-1 {
			return
		}
		time.Sleep(time.Duration(ep.Life) * time.Millisecond)
		n = w.seq()
		w.mu.Lock()
		w.down = append(w.down, n)
		if !ep.App {
			w.after(&wire.Packet{Type: wire.DISCONNECT, Reason: 0x8B}, nil)
		}
		w.mu.Unlock()
		if ep.App {
			ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
			if err := w.cl.Disconnect(ctx, false); err != nil {
				w.fail("C20 C25", "disconnecting failed: %v", err)
			}
			cancel()
		}
	}
}

func (w *rworld) gone() {
	w.mu.Lock()
	w.live--
	w.mu.Unlock()
}

func (w *rworld) poller() {
	for n := 0; n < 20000; n++ {
		d := time.Duration(w.c.PollMs) * time.Millisecond
		ctx, cancel := context.WithTimeout(context.Background(), d)
		err := w.cl.Poll(ctx)
		cancel()
		w.mu.Lock()
		idle := w.live == 0 && w.pend == 0
		soft := len(w.down) == len(w.up) || w.epoch >= len(w.up)
		w.mu.Unlock()
		if err != nil {
			if !errors.Is(err, mqtt.ErrClientNotConnected) && !soft {
				soft = true
				w.fail("C25 C27", "poll failed: %v", err)
			}
			if idle || w.err != nil {
				return
			}
			time.Sleep(time.Millisecond)
			continue
		}
		if idle && w.conn.Pending() == 0 {
			return
		}
	}
}

func isDeadline(err error) bool {
	return errors.Is(err, context.DeadlineExceeded) || errors.Is(err, os.ErrDeadlineExceeded)
}

func (w *rworld) run() {
	w.conn = sim.NewConn()
	w.conn.OnRead, w.conn.OnWrite = w.onRead, w.onWrite
	w.cl = mqtt.NewClient(w.conn)
	w.inUse, w.q2 = map[uint16]*rop{}, map[uint16]*rop{}
	i := uint32(0)
	w.cl.SetRngFn(func() uint32 {
		i++
		if n := uint32(len(w.c.Rng)); n > 0 {
			return w.c.Rng[(i-1)%n]
		}
		return i * 2654435761 >> 3
	})
	if len(w.c.Plan.Prio) == 0 && w.c.Plan.Switch == 0 {
		w.c.Plan.Switch = 1
	}
	s := sched.New(w.c.Plan)
	w.live = len(w.c.Threads) + 1
	s.Go("manager", w.manager, func(r any) { w.fail("C25", "connecting or disconnecting: %s", prop.PanicText(r)) })
	s.Go("poll", w.poller, func(r any) { w.fail("C25", "poll: %s", prop.PanicText(r)) })
	for th, ops := range w.c.Threads {
		var mine []*rop
		for k, x := range ops {
			o := &rop{COp: x, name: fmt.Sprintf("%s %d.%d", x.Op, th, k)}
			mine = append(mine, o)
			w.ops = append(w.ops, o)
		}
		cur := ""
		s.Go("app", func() {
			defer w.gone()
			for k, o := range mine {
				cur = o.name
				w.exec(o)
				if errors.Is(o.err, mqtt.ErrClientNotConnected) {
					time.Sleep(time.Millisecond)
					for i := 0; i < 20 && k%3 > 0 && !w.cl.IsConnected(); i++ {
						time.Sleep(2 * time.Millisecond)
					}
				}
			}
		}, func(r any) { w.fail("C25 C14 C15 C21", "%s: %s", cur, prop.PanicText(r)) })
	}
	res := s.Run(300 * time.Second)
	defer func() {
		w.conn.Close()
		synctest.Wait()
	}()
	if w.err != nil {
		return
	}
	if res.Overrun {
		w.info.Add("overrun")
		return
	}
	if res.Stuck {
		tags, l := "C25 ", []string{}
		for _, o := range w.ops {
			if o.start > 0 && !o.done {
				l = append(l, o.name)
				tags += opTag[o.Op] + " "
			}
		}
		w.fail(tags, "still not returned: %s", strings.Join(l, ", "))
		return
	}
	w.check()
	if w.err == nil {
		w.probe()
	}
}

func (w *rworld) check() {
	w.mu.Lock()
	defer w.mu.Unlock()
	over := func(o *rop) (hard bool, spans int) {
		for e, u := range w.up {
			d := forever
			if e < len(w.down) {
				d = w.down[e]
			}
			if o.start > u && o.end < d {
				hard = true
			}
			if o.start < u && e > 0 && o.end > u {
				spans++
			}
		}
		return
	}
	for _, o := range w.ops {
		if o.Op == "sleep" {
			continue
		}
		tag := map[string]string{"pub": "C15 C14", "sub": "C21", "unsub": "C21"}[o.Op]
		hard, spans := over(o)
		if spans > 0 {
			w.info.Add("call spans a reconnection")
			w.info.NonTrivial = true
		}
		switch {
		case o.err == nil:
			if o.wired != 1 {
				w.fail(tag+" C31", "%s succeeded and was sent %d times", o.name, o.wired)
			}
			if o.Op != "pub" && (o.acked == 0 || o.acked > o.end) {
				w.fail(tag, "%s succeeded without its acknowledgement", o.name)
			}
		case isDeadline(o.err) && o.T > 0:
			w.info.Add("%s expired", o.Op)
		case hard:
			w.fail(tag+" C20", "%s failed although the client was connected all the time: %v", o.name, o.err)
		default:
			w.info.Add("%s failed around a reconnection", o.Op)
		}
		if o.Op == "pub" && o.err != nil && o.wired > 0 {
			w.fail("C15 C31", "%s returned %v but was sent", o.name, o.err)
		}
	}
	if w.flight != 0 {
		w.info.Add("messages left in flight")
	}
	if w.maxFl >= 1 {
		w.info.Add("quota used")
	}
}

// probe: the last connection has its whole quota and no more.
func (w *rworld) probe() {
	w.mu.Lock()
	n := w.rm() - w.flight
	w.hold = true
	w.mu.Unlock()
	if n > 100 || !w.cl.IsConnected() {
		return
	}
	for i := 0; i <= n && w.err == nil; i++ {
		o := &rop{COp: COp{Op: "pub", QoS: 1, T: 1000}, name: fmt.Sprintf("probe %d", i)}
		w.mu.Lock()
		w.ops = append(w.ops, o)
		w.mu.Unlock()
		w.exec(o)
		if i < n && o.err != nil {
			w.fail("C14 C15", "afterwards %d of %d messages are in flight and a publish fails: %v", w.rm()-n+i, w.rm(), o.err)
		}
		if i == n && (o.err == nil || o.wired > 0) {
			w.fail("C14", "afterwards a publish does not wait although %d messages are in flight", w.rm())
		}
	}
}

func genRe(t *rapid.T) (c ReCase) {
	lats := []int{0, 0, 1, 3, 10, 30}
	for n := gen.Int(t, "epochs", 2, 4); n > 0; n-- {
		e := Epoch{RM: gen.Pick(t, "rm", []int{1, 1, 2, 2, 3, 0}), Life: gen.Pick(t, "life", []int{0, 1, 4, 8, 20}), App: rapid.Bool().Draw(t, "app")}
		for k := gen.Int(t, "nlat", 1, 3); k > 0; k-- {
			e.Lat = append(e.Lat, gen.Pick(t, "lat", lats))
		}
		e.Ack = genAck(t)
		c.Epochs = append(c.Epochs, e)
	}
	c.PollMs = gen.Pick(t, "poll", []int{1, 2, 5, 20})
	if gen.Chance(t, "rng", 40) {
		c.Rng = []uint32{uint32(gen.Int(t, "r", 0, 3))}
	}
	// requests with one identifier before and after a reconnection, calls that notice it late
	late := gen.Chance(t, "late", 25)
	weights := w{"pub": 8, "sub": 3, "unsub": 1, "sleep": 3}
	if late {
		c.Rng = []uint32{uint32(gen.Int(t, "r", 0, 3))}
		weights = w{"pub": 2, "sub": 8, "unsub": 2, "sleep": 4}
		c.Epochs = c.Epochs[:gen.Pick(t, "nepochs", []int{2, 2, len(c.Epochs)})]
		for i := range c.Epochs {
			c.Epochs[i].Lat = []int{gen.Pick(t, "lat", []int{10, 30})}
			c.Epochs[i].Life = gen.Pick(t, "life", []int{2, 4, 8})
		}
	}
	n := gen.Int(t, "threads", 1, 4)
	if late {
		n = max(n, 2)
	}
	for th := 0; th < n; th++ {
		var ops []COp
		for k := gen.Int(t, "nops", 1, 8); k > 0; k-- {
			if late && len(ops) < 2 {
				ops = append(ops, COp{Op: "sub"})
				continue
			}
			o := COp{Op: pickW(t, weights, []string{"pub", "sub", "unsub", "sleep"})}
			switch o.Op {
			case "pub":
				o.QoS = gen.Pick(t, "qos", []int{1, 1, 2, 0})
			case "sleep":
				o.N = gen.Pick(t, "ms", []int{1, 4, 11, 40})
			}
			if o.Op != "sleep" && gen.Chance(t, "timeout", 20) {
				o.T = gen.Pick(t, "t", []int{1, 8, 30, 8000})
			}
			ops = append(ops, o)
		}
		c.Threads = append(c.Threads, ops)
	}
	c.Plan = genPlan(t, n+2)
	for late && c.Plan.Switch > 0 {
		c.Plan = genPlan(t, n+2)
	}
	if late {
		c.Plan.Wait, c.Plan.Hold = gen.Pick(t, "wait", []int{30, 60}), gen.Pick(t, "hold", []int{4, 6, 9, 20})
	}
	return c
}

func reconn(t *testing.T, id string, quick, thorough int) {
	prop.Check(t, prop.Spec[ReCase]{Crashy: true, ID: id, Part: "reconnect", Quick: quick, Thorough: thorough, Retry: 5, Gen: genRe,
		Rule: "a call is under way while the client is connected again",
		Run: func(c ReCase) (info prop.Info, err error) {
			w := &rworld{c: c, info: &info}
			perr := Bubble(t, w.run)
			if w.err == nil && perr != nil {
				w.err = &mism{"C25", "calls never return: " + perr.Error()}
			}
			if w.err != nil {
				if has(w.err.tags, id) {
					return info, w.err
				}
				info.NonTrivial = false
				info.Add("%s", "diverged "+w.err.tags)
			}
			return info, nil
		}})
}

var _ = lib.S("")
