// Package client decides the properties of the client. seq.go is the sequential engine: a case is a list
// of steps (application calls, packets from the server, polls, time passing); after every step the system
// is quiescent and everything observable is compared with a reference model.
package client

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"slices"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"github.com/waj334/tinygo-mqtt/mqtt/storage"
	"github.com/waj334/tinygo-mqtt/mqtt/storage/memory"

	"tinyverif/codec"
	"tinyverif/gen"
	"tinyverif/lib"
	"tinyverif/prop"
	"tinyverif/sched"
	"tinyverif/sim"
	"tinyverif/vsync"
	"tinyverif/wire"
)

type Cfg struct {
	ServerRM int       `json:",omitempty"` // 0: not announced
	ClientRM int       `json:",omitempty"`
	KA       int       `json:",omitempty"` // keep alive asked for
	SKA      int       `json:",omitempty"` // server keep alive
	Expiry   uint32    `json:",omitempty"`
	Store    int       `json:",omitempty"` // 0 none, 1 recording, 2 the library's memory storage
	Held     []uint16  `json:",omitempty"` // identifiers the storage holds beforehand
	Free     []uint16  `json:",omitempty"` // if set, the storage holds every identifier but these
	Rng      []uint32  `json:",omitempty"` // values of the random source, cycled
	Caps     []int     `json:",omitempty"` // channels created before connecting
	Chunk    []int     `json:",omitempty"`
	CloseErr bool      `json:",omitempty"`
	Twin     bool      `json:",omitempty"` // another client is in use at the same time
	Ack      *codec.In `json:",omitempty"` // what else the CONNACK says
	AckDelay int       `json:",omitempty"` // ms before the CONNACK
}

type SubT struct {
	Ops []codec.TopicOp `json:",omitempty"`
	F   string
	Ch  int // channel index, -1 none
}

type Step struct {
	Op     string
	N      int                `json:",omitempty"` // target
	QoS    int                `json:",omitempty"`
	ID     int                `json:",omitempty"`
	Topic  string             `json:",omitempty"`
	Bad    bool               `json:",omitempty"`
	Pub    *codec.PublishCase `json:",omitempty"`
	Subs   []SubT             `json:",omitempty"`
	Fs     []string           `json:",omitempty"`
	T      int                `json:",omitempty"` // ms
	Reason int                `json:",omitempty"`
	Codes  []int              `json:",omitempty"`
	Kind   string             `json:",omitempty"` // of an inbound packet
	In     *codec.In          `json:",omitempty"`
	Will   bool               `json:",omitempty"`
	Delay  []int              `json:",omitempty"` // ms before each piece
	NoPoll bool               `json:",omitempty"`
	Again  bool               `json:",omitempty"` // publish the struct of the last message that failed
	Re     *Re                `json:",omitempty"` // of a new connection
	Near   int                `json:",omitempty"` // a stray acknowledgement almost like the one a request waits for
}

// Re describes a further connection of the same client.
type Re struct {
	ServerRM int       `json:",omitempty"`
	ClientRM int       `json:",omitempty"`
	KA       int       `json:",omitempty"`
	SKA      int       `json:",omitempty"`
	Expiry   uint32    `json:",omitempty"`
	Refuse   int       `json:",omitempty"` // reason code; 1: the connection ends without an answer
	Ack      *codec.In `json:",omitempty"` // what else the CONNACK says
	AckDelay int       `json:",omitempty"` // ms before the CONNACK
}

type Case struct {
	Cfg   Cfg
	Steps []Step
}

// mism is a difference between the client and the model; tags are the properties it breaks ("*": all).
type mism struct {
	tags string
	msg  string
}

func (m *mism) Error() string { return "[" + m.tags + "] " + m.msg }

var errStop = errors.New("stop") // the case left the specified domain

type exp struct {
	p    *wire.Packet
	tags string
}

type chanM struct {
	ch      mqtt.EventChannel
	q       []exp
	cap     int
	open    bool
	general bool
	drained bool
}

type opM struct {
	kind    string
	done    chan struct{}
	err     error
	pan     string
	cancel  context.CancelFunc
	dl      time.Time
	waiting bool // per model
	ended   bool // the model says it failed
	acked   bool // its acknowledgement arrived

	pub    *packets.Publish
	want   *wire.Packet
	auto   bool
	id     uint16
	step   Step
	stored bool
	again  bool // published again
}

func (o *opM) finished() bool {
	select {
	case <-o.done:
		return true
	default:
		return false
	}
}

type flight struct {
	qos  byte
	rec  bool // PUBREC received
	want *wire.Packet
}

type inPkt struct {
	p           *wire.Packet
	first, last time.Time
	hook        func() *mism
	kind        string
}

type world struct {
	cfg  Cfg
	conn *sim.Conn
	st   storage.Storage
	rec  *sim.Store
	c    *mqtt.Client
	info *prop.Info

	connected, closed bool
	closeTag          string
	k                 time.Duration
	pingLo, pingHi    time.Time
	serverRM, clRM    int
	inflight          map[uint16]*flight
	order             []uint16
	unrel             map[uint16]bool // value: PUBREC stored
	relOrder          []uint16
	chans             []*chanM
	bind              map[string]int
	store             map[uint16]byte
	storeWant         map[uint16]*wire.Packet
	storeSkip         map[uint16]bool
	resync            []uint16 // an acknowledgement without an exchange may drop an entry from before the connection
	ops               []*opM
	queue             []inPkt
	outPos            int
	wexp              []wexp
	faults            int
	expiry            uint32
	subs              bool // something was subscribed
	reconns           int
	sfault            bool
	over              bool // the application left the specified domain
	nd                int
	stepDesc          string
	twin              *twin
}

type wexp struct {
	tags string
	what string
	f    func(*wire.Packet) string
}

func (w *world) miss(tags, f string, a ...any) *mism {
	return &mism{tags, w.stepDesc + ": " + fmt.Sprintf(f, a...)}
}

func (w *world) settle() {
	time.Sleep(10 * time.Microsecond)
	synctest.Wait()
}

func has(tags, id string) bool { return anyTag || tags == "*" || strings.Contains(tags, id) }

var anyTag = os.Getenv("VERIF_ANYTAG") != "" // for development: report every difference

// RunSeq runs a case in a fresh bubble and reports differences that concern property id.
func RunSeq(t *testing.T, id string, c Case) (info prop.Info, err error) {
	var mm error
	perr := Bubble(t, func() {
		mm = runSeq(c, &info)
	})
	if m, ok := mm.(*mism); ok {
		if has(m.tags, id) {
			return info, m
		}
		info.NonTrivial = false
		info.Add("%s", "diverged "+m.tags)
		return info, nil
	}
	if mm != nil && !errors.Is(mm, errStop) {
		return info, mm
	}
	if perr != nil {
		txt := perr.Error()
		switch {
		case strings.Contains(txt, "deadlock") && (anyTag || has("C15 C20 C21 C25", id)): // calls left behind that never return
			return info, perr
		case strings.HasPrefix(txt, "panic") && strings.Contains(txt, "tinygo-mqtt") && (anyTag || has("C17 C25", id)):
			return info, perr
		case strings.HasPrefix(txt, "panic") && anyTag:
			return info, perr
		}
		info.NonTrivial = false
		info.Add("%s", "diverged: "+strings.SplitN(txt, "\n", 2)[0])
	}
	return info, nil
}

// Bubble runs f in a synctest bubble; a deadlock of the bubble is an error.
func Bubble(t *testing.T, f func()) (err error) {
	finished := false
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
			if finished && sched.Running.Load() == 0 {
				err = nil // every call returned; only goroutines of the library's own are left
			}
		}
	}()
	vsync.Reset()
	sched.Running.Store(0)
	synctest.Test(t, func(*testing.T) {
		defer func() {
			if r := recover(); r != nil {
				err = errors.New(prop.PanicText(r))
			}
		}()
		f()
		finished = true
	})
	return err
}

func runSeq(c Case, info *prop.Info) (err error) {
	w := &world{cfg: c.Cfg, info: info, inflight: map[uint16]*flight{}, unrel: map[uint16]bool{}, bind: map[string]int{},
		store: map[uint16]byte{}, storeWant: map[uint16]*wire.Packet{}, storeSkip: map[uint16]bool{}, closeTag: "C16 C19 C20 C31"}
	defer func() {
		// leave nothing behind in the bubble
		for _, o := range w.ops {
			o.cancel()
		}
		if w.conn != nil {
			w.conn.Close()
		}
		w.settle()
	}()
	w.stepDesc = "connect"
	if c.Cfg.Twin {
		tw := newTwin()
		defer tw.stop()
		w.twin = tw
		info.Add("another client meanwhile")
	}
	if m := w.start(); m != nil {
		return m
	}
	for i, s := range c.Steps {
		if w.twin != nil {
			w.twin.step()
		}
		w.stepDesc = fmt.Sprintf("step %d %s", i, s.Op)
		if s.Kind != "" {
			w.stepDesc += " " + s.Kind
		}
		m, stop := w.do(s)
		stop = stop || w.over
		if m == nil && !stop {
			m = w.check()
		}
		if m != nil {
			return m
		}
		if stop {
			return errStop
		}
	}
	// waiting calls return once their context is done
	w.stepDesc = "end"
	for _, o := range w.ops {
		if o.waiting {
			o.cancel()
			w.opEnds(o)
		}
	}
	w.settle()
	if m := w.check(); m != nil {
		return m
	}
	for i := range w.chans {
		if m := w.drain(i); m != nil {
			return m
		}
	}
	if w.rec != nil && w.conn != nil {
		w.info.Add("with storage")
	}
	return nil
}

func (w *world) start() *mism {
	c := w.cfg
	w.conn = sim.NewConn()
	w.conn.Chunk = c.Chunk
	if c.CloseErr {
		w.conn.CloseErr = sim.ErrFault
	}
	w.c = mqtt.NewClient(w.conn)
	switch c.Store {
	case 1:
		w.rec = sim.NewStore()
		w.st = w.rec
	case 2:
		w.st = memory.NewStorage()
	}
	if w.st != nil {
		w.c.SetStorage(w.st)
		if w.rec != nil && len(c.Free) > 0 {
			for i := 1; i < 65536; i++ {
				if !slices.Contains(c.Free, uint16(i)) {
					w.st.Store(uint16(i), &packets.Pubrel{})
					w.store[uint16(i)] = wire.PUBREL
				}
			}
		}
		for _, id := range c.Held {
			if w.st.Store(id, &packets.Pubrel{}) == nil {
				w.store[id] = wire.PUBREL
			}
		}
	}
	n := uint32(len(c.Rng))
	i := uint32(0)
	w.c.SetRngFn(func() uint32 {
		i++
		if n == 0 {
			return i * 2654435761 >> 3
		}
		return c.Rng[(i-1)%n]
	})
	for _, k := range c.Caps {
		w.newChan(k)
	}
	return w.connect(Re{ServerRM: c.ServerRM, ClientRM: c.ClientRM, KA: c.KA, SKA: c.SKA, Expiry: c.Expiry, Ack: c.Ack, AckDelay: c.AckDelay})
}

func (w *world) connect(c Re) *mism {
	ack := &wire.Packet{Type: wire.CONNACK}
	delay := time.Duration(c.AckDelay) * time.Millisecond
	if c.AckDelay > 0 {
		w.info.Add("slow CONNACK")
	}
	if c.Ack != nil {
		ack = c.Ack.Packet()
		w.info.Add("CONNACK says more")
	}
	if c.ServerRM > 0 {
		ack.Props = append(ack.Props, wire.Prop{ID: 0x21, Num: uint32(c.ServerRM)})
	}
	if c.SKA > 0 {
		ack.Props = append(ack.Props, wire.Prop{ID: 0x13, Num: uint32(c.SKA)})
	}
	w.closeTag = "C18 C20"
	w.expect("C18 C31", "CONNECT", func(p *wire.Packet) string {
		if p.Type != wire.CONNECT {
			return "not a CONNECT"
		}
		return ""
	})
	switch {
	case c.Refuse == 1:
		w.conn.EOF()
	case c.Refuse > 1:
		ack.Reason, ack.SessionPresent, ack.Props = byte(c.Refuse), 0, nil
		w.conn.Push(delay, ack.Encode())
	default:
		w.conn.Push(delay, ack.Encode())
	}
	cp := &packets.Connect{ClientId: "c", KeepAlive: lib.U16(c.KA), ReceiveMaximum: lib.U16(c.ClientRM), SessionExpiryInterval: lib.U32(c.Expiry)}
	o := w.run("connect", 0, func(ctx context.Context) error { return w.c.Connect(ctx, cp) })
	if m := w.mustReturn(o, "C18"); m != nil {
		return m
	}
	if c.Refuse > 0 {
		w.info.Add("connection refused")
		if o.err == nil {
			return w.miss("C18", "connected although the server refused")
		}
		var rc mqtt.ReasonCode
		if c.Refuse > 1 && (!errors.As(o.err, &rc) || int(rc) != c.Refuse) {
			return w.miss("C18 C30", "refused with 0x%02x: Connect returned %v", c.Refuse, o.err)
		}
		if c.Refuse == 1 {
			w.conn.Close()
		}
		w.closed = true
		return nil
	}
	if o.err != nil {
		tags := "C18"
		if w.reconns > 0 {
			tags += " C20"
		}
		return w.miss(tags, "connecting failed: %v", o.err)
	}
	w.connected, w.closed = true, false
	w.closeTag = "C16 C19 C20 C31"
	w.expiry = c.Expiry
	w.k = time.Duration(c.KA) * time.Second
	if c.SKA > 0 {
		w.k = time.Duration(c.SKA) * time.Second
	}
	now := time.Now()
	w.pingLo, w.pingHi = now.Add(2*w.k-time.Millisecond), now.Add(2*w.k)
	w.serverRM, w.clRM = c.ServerRM, c.ClientRM
	if w.serverRM == 0 {
		w.serverRM = 65535
	}
	if w.clRM == 0 {
		w.clRM = 65535
	}
	w.event(ack, "C17 C18")
	return w.check()
}

// reconnect uses the client for a new connection.
func (w *world) reconnect(c Re) *mism {
	w.reconns++
	w.faults = 0
	w.storeOK()
	w.conn.Reopen()
	w.closed = false
	w.queue, w.order, w.relOrder, w.resync = nil, nil, nil, nil
	clear(w.inflight)
	clear(w.unrel)
	for _, o := range w.ops {
		o.acked, o.id = true, 0
	}
	if m := w.connect(c); m != nil {
		return m
	}
	if w.connected {
		w.info.Add("connected again")
	}
	return nil
}

func (w *world) newChan(n int) int {
	cap := n
	if cap <= 0 {
		cap = 1
	}
	w.chans = append(w.chans, &chanM{ch: w.c.CreateEventChannel(n), cap: cap, open: true, general: true})
	return len(w.chans) - 1
}

// run starts an application call.
func (w *world) run(kind string, ms int, f func(context.Context) error) *opM {
	o := &opM{kind: kind, done: make(chan struct{})}
	ctx := context.Background()
	if ms > 0 {
		d := time.Duration(ms) * time.Millisecond
		o.dl = time.Now().Add(d)
		ctx, o.cancel = context.WithDeadline(ctx, o.dl)
	} else {
		ctx, o.cancel = context.WithCancel(ctx)
	}
	sched.App(func() {
		defer close(o.done)
		defer func() {
			if r := recover(); r != nil {
				o.pan = prop.PanicText(r)
			}
		}()
		o.err = f(ctx)
	})
	w.settle()
	w.ops = append(w.ops, o)
	return o
}

func (w *world) mustReturn(o *opM, tags string) *mism {
	if !o.finished() {
		tm := time.NewTimer(90 * time.Second)
		select {
		case <-o.done:
			tm.Stop()
		case <-tm.C:
			return w.miss(tags+" C25", "%s does not return", o.kind)
		}
	}
	if o.pan != "" {
		return w.miss(tags+" C25", "%s: %s", o.kind, o.pan)
	}
	return nil
}

// opEnds: the model says a waiting call returns an error now.
func (w *world) opEnds(o *opM) { o.waiting, o.ended = false, true }

func (w *world) expect(tags, what string, f func(*wire.Packet) string) {
	w.wexp = append(w.wexp, wexp{tags, what, f})
}

func (w *world) expectAck(typ byte, id uint16, tags string) {
	w.expect(tags, fmt.Sprintf("%s %d", wire.Names[typ], id), func(p *wire.Packet) string {
		if p.Type != typ || p.ID != id {
			return fmt.Sprintf("got %s %d", wire.Names[p.Type], p.ID)
		}
		// the codes that mean success: no matching subscribers, identifier not found
		if ok := map[byte]byte{wire.PUBACK: 0x10, wire.PUBREC: 0x10, wire.PUBREL: 0x92, wire.PUBCOMP: 0x92}[typ]; p.Reason != 0 && p.Reason != ok {
			return fmt.Sprintf("reason %02x", p.Reason)
		}
		return ""
	})
}

// event is signalled on every open general channel with room.
func (w *world) event(p *wire.Packet, tags string) {
	for _, c := range w.chans {
		if c.open && c.general && len(c.q) < c.cap {
			c.q = append(c.q, exp{p, tags})
		}
	}
}

// maybe adjusts the expectation of an event that may or may not be signalled on a channel.
func (w *world) maybe(c *chanM, p *wire.Packet, max int, tags string) {
	for i := 0; i < max && len(c.q) < c.cap && len(c.ch.C) > len(c.q); i++ {
		c.q = append(c.q, exp{p, tags})
	}
}

func (w *world) disconnectedNow(tag string) {
	w.connected, w.closed, w.closeTag = false, true, tag
	for _, o := range w.ops {
		if o.waiting {
			w.opEnds(o)
		}
	}
}

func (w *world) inUse(id uint16) string {
	if w.inflight[id] != nil {
		return "a PUBLISH in flight"
	}
	for _, o := range w.ops {
		if !o.acked && (o.kind == "sub" || o.kind == "unsub") && o.id == id {
			return "an unacknowledged " + o.kind
		}
	}
	if _, ok := w.store[id]; ok && !w.storeSkip[id] {
		return "an entry of the storage"
	}
	return ""
}

// exhausted: no identifier is left to choose.
func (w *world) exhausted() bool {
	if len(w.inflight)+len(w.store) < 65000 {
		return false
	}
	for id := 1; id <= 65535; id++ {
		if (w.store[uint16(id)] == 0 || w.storeSkip[uint16(id)]) && w.inUse(uint16(id)) == "" {
			return false
		}
	}
	return true
}

func (w *world) checkID(id uint16) string {
	if len(w.inflight)+len(w.store) > 0 {
		w.info.Add("identifier chosen with others in use")
	}
	if id == 0 {
		return "identifier 0"
	}
	if u := w.inUse(id); u != "" {
		return fmt.Sprintf("identifier %d is already used by %s", id, u)
	}
	return ""
}

// interval asks for the keep-alive interval; a lock left held shows here.
func (w *world) interval() (d time.Duration, m *mism) {
	done := make(chan struct{})
	sched.App(func() {
		defer close(done)
		d = w.c.KeepAliveInterval()
	})
	synctest.Wait()
	select {
	case <-done:
		return d, nil
	default:
		tags := "C25"
		if !w.connected {
			tags += " C20"
		}
		return 0, w.miss(tags, "afterwards KeepAliveInterval does not return")
	}
}

// check compares everything observable after a step.
func (w *world) check() *mism {
	// calls
	for _, o := range w.ops {
		f := o.finished()
		if f && o.pan != "" {
			return w.miss(map[string]string{"sub": "C21 C25", "unsub": "C21 C25", "publish": "C13 C15 C25"}[o.kind], "%s: %s", o.kind, o.pan)
		}
		if o.kind == "sub" || o.kind == "unsub" || o.kind == "publish" {
			tag := map[string]string{"sub": "C21 C25", "unsub": "C21 C25", "publish": "C15 C25"}[o.kind]
			if !w.connected {
				tag += " C20"
			}
			if f && o.err == nil && o.kind == "publish" {
				tag += " C13 C31"
				if o.waiting {
					tag += " C14"
				}
			}
			if o.waiting && f {
				return w.miss(tag, "%s returned (%v) although nothing completed it", o.kind, o.err)
			}
			if !o.waiting && !f {
				return w.miss(tag, "%s did not return", o.kind)
			}
			if o.ended && o.err == nil {
				return w.miss(tag, "%s reports success although it was not completed", o.kind)
			}
		}
	}
	if len(w.ops) > 64 { // forget what is done
		w.ops = slices.DeleteFunc(w.ops, func(o *opM) bool {
			return o.kind == "publish" && !o.waiting && !o.ended && o.finished() && o.err == nil
		})
	}
	// wire
	out := w.conn.Out[w.outPos:]
	ps, rest, err := wire.DecodeAll(out)
	if err != nil {
		tags := "C31 C11 C13 C16 C20 C21"
		if strings.Contains(err.Error(), "identifier 0") {
			tags = "C22 C31"
		}
		return w.miss(tags, "bytes on the wire are not a well-formed packet: %v: % x", err, out)
	}
	if len(rest) > 0 {
		return w.miss("C31 C13 C11 C20 C21", "incomplete packet on the wire: % x", rest)
	}
	w.outPos = len(w.conn.Out)
	for i, e := range w.wexp {
		if i >= len(ps) {
			return w.miss(e.tags, "%s was not sent", e.what)
		}
		if d := e.f(ps[i]); d != "" {
			return w.miss(w.wexp[i].tags, "expected %s on the wire: %s", e.what, d)
		}
	}
	if len(ps) > len(w.wexp) {
		p := ps[len(w.wexp)]
		tags := "C13 C31"
		switch p.Type {
		case wire.PUBACK, wire.PUBREC, wire.PUBCOMP:
			tags = "C11 C31"
		case wire.PUBLISH:
			tags = "C13 C14 C15 C31"
		case wire.DISCONNECT:
			tags = "C16 C20 C31"
		case wire.PINGREQ:
			tags = "C19 C31"
		case wire.SUBSCRIBE, wire.UNSUBSCRIBE:
			tags = "C21 C31"
		}
		if !w.connected {
			tags += " C20"
		}
		return w.miss(tags, "unexpected %s %d on the wire", wire.Names[p.Type], p.ID)
	}
	w.wexp = nil
	// state
	if g := w.conn.Closed(); g != w.closed {
		return w.miss(w.closeTag, "network connection closed: %v, want %v", g, w.closed)
	}
	if g := w.c.IsConnected(); g != w.connected {
		return w.miss(w.closeTag, "connected: %v, want %v", g, w.connected)
	}
	g, m := w.interval()
	if m != nil {
		return m
	}
	if g != w.k {
		return w.miss("C18 C19", "keep-alive interval %v, want %v", g, w.k)
	}
	// events
	for i, c := range w.chans {
		if n := len(c.ch.C); n != len(c.q) {
			tags := "C17"
			if n < len(c.q) {
				tags = c.q[len(c.q)-1].tags
			} else if !c.general {
				tags = "C17 C10 C28 C12"
			} else {
				tags = "C17 C12 C13 C28"
			}
			if w.subs {
				tags += " C21"
			}
			if !w.connected {
				tags += " " + w.closeTag
			}
			return w.miss(tags, "channel %d (open %v, general %v) holds %d events, want %d (last expected: %s)", i, c.open, c.general, n, len(c.q), lastDesc(c.q))
		}
		fired := false
		select {
		case <-c.ch.Done:
			fired = true
		default:
		}
		if fired != !c.open {
			return w.miss("C17 C21", "channel %d: Done fired: %v, want %v", i, fired, !c.open)
		}
	}
	return w.checkStore()
}

func lastDesc(q []exp) string {
	if len(q) == 0 {
		return "none"
	}
	p := q[len(q)-1].p
	return fmt.Sprintf("%s %d", wire.Names[p.Type], p.ID)
}

func (w *world) checkStore() *mism {
	if w.st == nil {
		return nil
	}
	for _, id := range w.resync {
		if _, err := w.st.Get(id); err != nil {
			delete(w.store, id)
		}
	}
	w.resync = nil
	ids := map[uint16]bool{}
	if w.rec != nil {
		for id := range w.rec.Snapshot() {
			ids[id] = true
		}
	} else {
		for i := 1; i < 300; i++ {
			ids[uint16(i)] = true
		}
		for id := range w.inflight {
			ids[id] = true
		}
	}
	for id := range w.store {
		ids[id] = true
	}
	for id := range ids {
		if w.storeSkip[id] {
			continue
		}
		p, err := w.st.Get(id)
		want, ok := w.store[id]
		if (err == nil) != ok {
			if ok {
				return w.miss("C23", "storage lost the %s with identifier %d", wire.Names[want], id)
			}
			return w.miss("C23", "storage holds %T with identifier %d, which belongs to no unfinished exchange", p, id)
		}
		if !ok {
			continue
		}
		if k := sim.Kind(p); k != want {
			return w.miss("C23", "storage holds %T with identifier %d, want a %s", p, id, wire.Names[want])
		}
		if pw := w.storeWant[id]; pw != nil {
			if d := lib.Diff(lib.Convert(p), pw); d != "" {
				return w.miss("C23", "stored message %d: %s", id, d)
			}
		}
	}
	return nil
}

// drain empties a channel and compares the events.
func (w *world) drain(i int) *mism {
	c := w.chans[i]
	for k, e := range c.q {
		var ev *mqtt.Event
		var ok bool
		select {
		case ev, ok = <-c.ch.C:
		default:
		}
		if !ok || ev == nil {
			return w.miss(e.tags, "channel %d: event %d (%s) is missing", i, k, wire.Names[e.p.Type])
		}
		if byte(ev.PacketType) != e.p.Type {
			return w.miss(e.tags+" C17", "channel %d: event %d is a %s, want %s", i, k, wire.Names[byte(ev.PacketType)], wire.Names[e.p.Type])
		}
		if d := lib.Diff(lib.Convert(ev.Data), e.p); d != "" {
			return w.miss(e.tags+" C17", "channel %d: event %d: %s", i, k, d)
		}
	}
	c.q = nil
	return nil
}

// ---------------------------------------------------------------- steps

func (w *world) do(s Step) (m *mism, stop bool) {
	switch s.Op {
	case "publish":
		return w.publish(s), false
	case "burst": // many messages, published one after another
		for i := 0; i < s.N; i++ {
			m := w.publish(Step{Op: "publish", QoS: s.QoS, Topic: s.Topic})
			if m == nil && !w.over {
				m = w.check()
			}
			if m != nil || w.over {
				return m, w.over
			}
		}
	case "inburst": // many messages of the server
		for i := 0; i < s.N; i++ {
			m, stop := w.inbound(Step{Op: "in", Kind: "publish", QoS: s.QoS, ID: 1 + (s.ID+i)%65535, Topic: s.Topic, Bad: true})
			if m == nil && !stop {
				m = w.check()
			}
			if m != nil || stop {
				return m, stop
			}
		}
	case "sub":
		return w.subscribe(s), false
	case "unsub":
		return w.unsubscribe(s), false
	case "ka":
		o := w.run("ka", 0, func(context.Context) error { return w.c.KeepAlive() })
		if m := w.mustReturn(o, "C19"); m != nil {
			return m, false
		}
		if !w.connected {
			return w.notConnected(o), false
		}
		if w.faults > 0 {
			return w.faulted(o, nil)
		}
		if o.err != nil {
			return w.miss("C19", "keep-alive failed: %v", o.err), false
		}
		w.expect("C19", "PINGREQ", func(p *wire.Packet) string {
			if p.Type != wire.PINGREQ {
				return "got " + wire.Names[p.Type]
			}
			return ""
		})
	case "disc":
		return w.disconnect(s)
	case "conn":
		if !w.connected && s.Re != nil {
			return w.reconnect(*s.Re), false
		}
	case "chan":
		if len(w.chans) < 60 {
			w.newChan(s.N)
		}
	case "churn": // channels come and go
		var m0 string
		o := w.run("churn", 0, func(context.Context) error {
			for i := 0; i < s.N; i++ {
				ch := w.c.CreateEventChannel(1)
				w.c.CloseEventChannel(ch)
				select {
				case <-ch.Done:
				default:
					m0 = fmt.Sprintf("channel %d of a series is not done after it was closed", i)
				}
			}
			return nil
		})
		if m := w.mustReturn(o, "C17"); m != nil {
			return m, false
		}
		if m0 != "" {
			return w.miss("C17", "%s", m0), false
		}
		w.info.Add("channels come and go")
	case "close":
		if len(w.chans) == 0 {
			return nil, false
		}
		c := w.chans[s.N%len(w.chans)]
		o := w.run("close", 0, func(context.Context) error { w.c.CloseEventChannel(c.ch); return nil })
		if m := w.mustReturn(o, "C17"); m != nil {
			return m, false
		}
		w.closeChan(c)
	case "drain":
		if len(w.chans) == 0 {
			return nil, false
		}
		return w.drain(s.N % len(w.chans)), false
	case "sleep", "sleepk":
		d := time.Duration(s.T) * time.Millisecond
		if s.Op == "sleepk" { // part of the keep-alive interval
			d = w.k / 1000 * time.Duration(s.N)
		}
		time.Sleep(d)
		w.settle()
		w.expire()
	case "cancel":
		var ws []*opM
		for _, o := range w.ops {
			if o.waiting {
				ws = append(ws, o)
			}
		}
		if len(ws) > 0 {
			o := ws[s.N%len(ws)]
			o.cancel()
			w.opEnds(o)
			w.settle()
		}
	case "wfail":
		if w.connected && w.faults == 0 {
			n := s.N
			w.faults = n + 1
			w.conn.WriteErr = func(_, size int) (int, error) {
				w.conn.WriteErr = nil
				return min(n, size-1), sim.ErrFault
			}
		}
	case "sfail": // the storage refuses the next message
		if w.rec != nil && w.connected {
			w.sfault = true
			w.rec.Fail = func(_ int, op byte, _ uint16) error {
				if op == 'S' {
					return sim.ErrFault
				}
				return nil
			}
		}
	case "in":
		return w.inbound(s)
	case "poll":
		return w.poll(s.T)
	case "end":
		return w.endStream(s), true
	}
	return nil, false
}

// how a connection ends
var endErrs = []error{io.EOF, sim.ErrFault, &net.OpError{Op: "read", Net: "tcp", Err: syscall.ETIMEDOUT}, &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}, io.ErrUnexpectedEOF}

// endStream ends the inbound stream, perhaps inside a packet. The poll that meets the end says so.
func (w *world) endStream(s Step) *mism {
	for len(w.queue) > 0 && w.connected {
		if m, stop := w.poll(20); m != nil || stop {
			return m
		}
		if m := w.check(); m != nil {
			return m
		}
	}
	if !w.connected || w.k > 0 {
		return nil
	}
	for i := range w.chans {
		if m := w.drain(i); m != nil {
			return m
		}
	}
	w.faults, w.conn.WriteErr = 0, nil
	w.storeOK()
	what := "between packets"
	var part []byte
	if p := w.resolve(s); p != nil && s.N > 0 {
		b := p.Encode()
		part = b[:s.N*(len(b)-1)/1000]
		if len(part) > 0 {
			what = fmt.Sprintf("after %d of the %d bytes of a %s", len(part), len(b), wire.Names[p.Type])
			w.conn.Push(0, part)
			w.info.Add("the stream ends inside a packet")
		}
	}
	if len(part) == 0 {
		w.info.Add("the stream ends between packets")
	}
	end := endErrs[s.Reason%len(endErrs)]
	after := time.Duration(s.T) * time.Millisecond
	w.conn.End(after, end)
	for n := 0; n < 2; n++ {
		o := w.run("poll", 0, func(ctx context.Context) error {
			if s.Will {
				return w.c.Poll(ctx)
			}
			ctx, cancel := context.WithTimeout(ctx, after+50*time.Millisecond)
			defer cancel()
			return w.c.Poll(ctx)
		})
		if m := w.mustReturn(o, "C27 C25"); m != nil {
			return m
		}
		w.settle()
		if o.err == nil {
			return w.miss("C27 C07", "the stream ends %s (%v): poll %d reports no error", what, end, n)
		}
		if n == 0 && end != io.EOF && end != io.ErrUnexpectedEOF && !errors.Is(o.err, end) {
			return w.miss("C27", "the stream ends %s (%v): the poll reports %v", what, end, o.err)
		}
	}
	ps, _, _ := wire.DecodeAll(w.conn.Out[w.outPos:])
	for _, p := range ps {
		if p.Type != wire.DISCONNECT {
			return w.miss("C27 C07 C11", "the stream ends %s: the client sends %s %d", what, wire.Names[p.Type], p.ID)
		}
	}
	for i, c := range w.chans {
		for len(c.ch.C) > 0 {
			ev, ok := <-c.ch.C
			if !ok {
				break
			}
			if ev != nil && byte(ev.PacketType) != wire.DISCONNECT {
				return w.miss("C27 C07 C17", "the stream ends %s: channel %d is signalled a %s", what, i, wire.Names[byte(ev.PacketType)])
			}
		}
	}
	return nil
}

func (w *world) closeChan(c *chanM) {
	c.open, c.general = false, false
	for f, i := range w.bind {
		if w.chans[i] == c {
			delete(w.bind, f)
		}
	}
}

// expire ends the waiting calls whose deadline passed.
func (w *world) expire() {
	now := time.Now()
	for _, o := range w.ops {
		if o.waiting && !o.dl.IsZero() && !now.Before(o.dl) {
			w.opEnds(o)
		}
	}
}

func (w *world) notConnected(o *opM) *mism {
	w.info.Add("%s not connected", o.kind)
	if !errors.Is(o.err, mqtt.ErrClientNotConnected) {
		return w.miss("C20", "%s on a client that is not connected: %v", o.kind, o.err)
	}
	return nil
}

// faulted handles a call whose write failed.
func (w *world) faulted(o *opM, refused func(partial bool)) (*mism, bool) {
	partial := w.faults > 1
	w.faults = 0
	w.conn.WriteErr = nil
	if o.err == nil {
		return w.miss("C31 C25", "%s reports success although its write failed", o.kind), false
	}
	if refused != nil {
		refused(partial)
	}
	// the part that was written is no packet
	recs := w.conn.Writes
	n := len(recs[len(recs)-1].Data)
	if n > 0 {
		w.info.Add("partial write")
		w.outPos += n
		w.disconnectedNow("C31")
	} else {
		w.info.Add("failed write")
		if !w.c.IsConnected() {
			return nil, true
		}
	}
	w.settle()
	return nil, false
}

// tooLong does not fit into an MQTT string.
var tooLong = strings.Repeat("x", 65536)

// spoil makes a message impossible to encode.
func spoil(p *packets.Publish, kind int) {
	switch kind {
	case 0:
		p.Topic, p.TopicAlias = "", 0
	case 1:
		p.Topic = lib.S(tooLong)
	case 2:
		p.ContentType = lib.S(tooLong)
	case 3:
		p.UserProperties = primitives.PrimitiveStringMap{"a": "b", "k": lib.S(tooLong)}
	case 4:
		p.ResponseTopic = lib.S(tooLong)
	case 5:
		p.CorrelationData = lib.S(tooLong)
	}
}

func (w *world) publish(s Step) *mism {
	if s.Near > 0 && s.QoS > 0 { // the application picks the identifier of an unacknowledged request
		for _, x := range w.ops {
			if (x.kind == "sub" || x.kind == "unsub") && !x.acked && x.id != 0 && w.inflight[x.id] == nil && w.store[x.id] == 0 {
				s.ID = int(x.id)
				w.info.Add("identifier of a request used for a message")
			}
		}
	}
	var pc codec.PublishCase
	if s.Pub != nil {
		pc = *s.Pub
	} else {
		w.nd++
		pc = codec.PublishCase{Topic: gen.Lit(s.Topic), Payload: gen.Lit(fmt.Sprintf("m%d", w.nd))}
	}
	pc.QoS, pc.ID = byte(s.QoS), uint16(s.ID)
	if s.QoS == 0 {
		pc.ID, pc.Dup = 0, false
	}
	if s.Bad && s.N == 0 {
		pc.Topic, pc.Alias = gen.Lit(""), 0
	} else if pc.Topic.String() == "" && pc.Alias == 0 {
		pc.Topic = gen.Lit("t")
	}
	if s.QoS > 0 && s.ID != 0 && w.st == nil && w.inflight[pc.ID] != nil {
		return nil // the application reuses an identifier in flight: outside the domain
	}
	if s.ID != 0 && w.st != nil && w.store[pc.ID] == 0 && w.inflight[pc.ID] != nil {
		return nil
	}
	if s.QoS > 0 && s.ID != 0 {
		for _, x := range w.ops {
			if x.waiting && x.kind == "publish" && x.want.ID == pc.ID {
				return nil
			}
		}
	}
	var pub *packets.Publish
	var want *wire.Packet
	if s.Again {
		var f *opM
		for _, o := range w.ops {
			if o.kind == "publish" && o.auto && !o.again && !o.waiting && o.finished() && o.err != nil {
				f = o
			}
		}
		if f == nil {
			return nil
		}
		f.again = true
		w.info.Add("published again after a failure")
		t := s.T
		pub, s = f.pub, f.step
		s.T = t
		x := *f.want
		want = &x
	} else {
		pub, want = pc.Lib(), pc.Expect()
		if s.Bad {
			spoil(pub, s.N)
		}
		want.ID = pc.ID
	}
	writes := len(w.conn.Writes)
	o := w.run("publish", s.T, func(ctx context.Context) error { return w.c.Publish(ctx, pub) })
	o.pub, o.want, o.auto, o.step = pub, want, s.QoS > 0 && s.ID == 0, s
	if !w.connected {
		if m := w.mustReturn(o, "C20"); m != nil {
			return m
		}
		return w.notConnected(o)
	}
	if s.QoS > 0 && len(w.inflight) >= w.serverRM {
		w.info.Add("publish waits")
		w.info.NonTrivial = true
		o.waiting = true
		w.storeOK()
		return nil
	}
	if m := w.mustReturn(o, "C14"); m != nil {
		return m
	}
	if s.QoS > 0 && s.ID != 0 && w.store[pc.ID] != 0 && !w.storeSkip[pc.ID] {
		w.info.Add("identifier held by storage")
		if o.err == nil {
			return w.miss("C23", "published with identifier %d, which the storage holds", pc.ID)
		}
		return nil
	}
	if o.auto && w.exhausted() {
		w.info.Add("no identifier left")
		if o.err == nil {
			return w.miss("C22", "a message was published although every identifier is in use")
		}
		return nil
	}
	if s.QoS > 0 && o.err != nil && (w.faults == 0 || len(w.conn.Writes) == writes) && (w.storeSkip[uint16(s.ID)] || s.ID == 0 && len(w.cfg.Free) > 0 && len(w.storeSkip) > 0) {
		w.storeOK() // whether an entry is left from a write that failed part-way is unspecified
		return nil
	}
	if w.sfault && s.QoS > 0 {
		w.storeOK()
		w.info.Add("storage refuses a publish")
		if o.err == nil {
			return w.miss("C23", "a message that the storage refused was published")
		}
		return nil
	}
	if s.Bad {
		if o.err == nil {
			return w.miss("C13 C23", "a message that cannot be encoded (kind %d) was accepted", s.N)
		}
		w.info.Add("refused publish")
		if s.N > 0 {
			w.info.Add("publish that cannot be encoded")
		}
		return nil
	}
	if w.faults > 0 {
		m, _ := w.faulted(o, func(partial bool) {
			if partial && o.want.ID != 0 {
				w.storeSkip[uint16(pub.PacketIdentifier)] = true
			}
			if partial && o.auto {
				for id := range w.recIDs() {
					if _, ok := w.store[id]; !ok {
						w.storeSkip[id] = true
					}
				}
			}
		})
		return m
	}
	if o.err != nil {
		tags := "C14 C13"
		if o.auto {
			tags += " C22"
		}
		if w.st != nil && s.QoS > 0 {
			tags += " C23"
		}
		if w.reconns > 0 {
			tags += " C20"
		}
		return w.miss(tags, "publishing (QoS %d, %d of %d in flight) failed: %v", s.QoS, len(w.inflight), w.serverRM, o.err)
	}
	w.published(o)
	return nil
}

func (w *world) storeOK() {
	if w.sfault {
		w.sfault, w.rec.Fail = false, nil
	}
}

func (w *world) recIDs() map[uint16]any {
	if w.rec != nil {
		return w.rec.Snapshot()
	}
	r := map[uint16]any{}
	if w.st != nil {
		for i := 1; i < 65536; i++ {
			if p, err := w.st.Get(uint16(i)); err == nil {
				r[uint16(i)] = p
			}
		}
	}
	return r
}

// published: the message of o is on the wire now.
func (w *world) published(o *opM) {
	w.expect("C13 C31", "PUBLISH", func(p *wire.Packet) string { return w.onPublish(o, p) })
}

func (w *world) onPublish(o *opM, p *wire.Packet) string {
	if p.Type != wire.PUBLISH {
		return "got " + wire.Names[p.Type]
	}
	want := *o.want
	if o.auto {
		if d := w.checkID(p.ID); d != "" {
			w.wexp[0].tags = "C22"
			for i := range w.wexp {
				w.wexp[i].tags = "C22"
			}
			return d
		}
		want.ID = p.ID
	} else if p.QoS() > 0 && p.ID != want.ID {
		for i := range w.wexp {
			w.wexp[i].tags += " C22"
		}
	}
	if d := lib.Diff(p, &want); d != "" {
		return d
	}
	if p.QoS() > 0 {
		if uint16(o.pub.PacketIdentifier) != p.ID {
			return fmt.Sprintf("identifier %d on the wire, %d in the struct", p.ID, o.pub.PacketIdentifier)
		}
		w.inflight[p.ID] = &flight{qos: p.QoS(), want: &want}
		w.order = append(w.order, p.ID)
		if w.st != nil {
			w.store[p.ID] = wire.PUBLISH
			w.storeWant[p.ID] = &want
			delete(w.storeSkip, p.ID)
		}
	}
	return ""
}

// slot: an exchange ended; a waiting publish may go ahead.
func (w *world) slot() {
	var ws []*opM
	for _, o := range w.ops {
		if o.waiting && o.kind == "publish" {
			ws = append(ws, o)
		}
	}
	if len(ws) == 0 {
		return
	}
	w.info.Add("waiting publish resumes")
	// a message that cannot be sent, or whose identifier the storage holds
	refused := func(o *opM) bool {
		if o.err == nil || !o.finished() {
			return false
		}
		same := false
		for _, x := range ws {
			same = same || x != o && x.finished() && x.err == nil && x.want.ID == o.want.ID
		}
		return o.step.Bad || o.want.ID != 0 && w.st != nil && (w.store[o.want.ID] != 0 || same)
	}
	// any of them; the one that returned says which
	var got *opM
	for _, o := range ws {
		if !o.finished() {
			continue
		}
		// one that cannot be sent leaves the slot to another one, in whatever order they woke
		if r := refused(o); got == nil || r {
			got = o
			if r {
				break
			}
		}
	}
	if got == nil {
		w.expect("C15 C14", "the PUBLISH of a waiting call", func(*wire.Packet) string { return "none returned" })
		return
	}
	got.waiting = false
	if got.want.ID != 0 && w.inflight[got.want.ID] != nil {
		w.over = true // the identifier it chose was taken meanwhile
		return
	}
	if got.step.Bad || (got.want.ID != 0 && w.store[got.want.ID] != 0) || refused(got) {
		// refused at this point: the slot stays free for the next one
		if got.err == nil {
			w.expect("C13 C23", "an error", func(*wire.Packet) string { return "a message that cannot be sent was accepted" })
		}
		w.slot()
		return
	}
	if got.err != nil {
		w.expect("C15 C14", "a resumed PUBLISH", func(*wire.Packet) string { return fmt.Sprint(got.err) })
		return
	}
	w.expect("C15 C13 C31", "the PUBLISH of the call that returned", func(p *wire.Packet) string { return w.onPublish(got, p) })
}

func (w *world) finish(id uint16) {
	delete(w.inflight, id)
	for i, x := range w.order {
		if x == id {
			w.order = append(w.order[:i:i], w.order[i+1:]...)
			break
		}
	}
	if _, ok := w.unrel[id]; !ok || !w.unrel[id] {
		delete(w.store, id)
		delete(w.storeWant, id)
	}
}

func (w *world) resyncID(id uint16) {
	if !w.unrel[id] {
		w.resync = append(w.resync, id)
	}
}

func (w *world) subscribe(s Step) *mism {
	var topics []mqtt.Topic
	var want []wire.Filter
	var either []byte
	s.Subs = slices.Clone(s.Subs)
	for i, st := range s.Subs {
		if st.Ch >= 0 && len(w.chans) > 0 {
			st.Ch %= len(w.chans)
		} else {
			st.Ch = -1
		}
		s.Subs[i] = st
		var t mqtt.Topic
		ops := append(append([]codec.TopicOp(nil), st.Ops...), codec.TopicOp{F: gen.Lit(st.F)})
		f, e := codec.Apply(ops, &t.Topic)
		if st.Ch >= 0 {
			t.SetEventChannel(w.chans[st.Ch].ch)
		}
		if s.Bad && i == s.N%len(s.Subs) {
			t.SetFilter(tooLong)
		}
		topics, want, either = append(topics, t), append(want, f), append(either, e)
	}
	o := w.run("sub", s.T, func(ctx context.Context) error { return w.c.Subscribe(ctx, topics) })
	o.step = s
	if len(topics) == 0 {
		if m := w.mustReturn(o, "C21"); m != nil {
			return m
		}
		if o.err == nil {
			return w.miss("C21", "subscribing to nothing succeeded")
		}
		return nil
	}
	if !w.connected {
		if m := w.mustReturn(o, "C20"); m != nil {
			return m
		}
		return w.notConnected(o)
	}
	if w.exhausted() {
		if m := w.mustReturn(o, "C22 C25"); m != nil {
			return m
		}
		if o.err == nil {
			return w.miss("C22", "%s succeeded although every identifier is in use", o.kind)
		}
		w.info.Add("no identifier left")
		return nil
	}
	if s.Bad {
		if m := w.mustReturn(o, "C21 C25"); m != nil {
			return m
		}
		if o.err == nil {
			return w.miss("C21 C03", "subscribing with a filter that cannot be encoded succeeded")
		}
		w.info.Add("filter that cannot be encoded")
		return nil
	}
	if w.faults > 0 {
		if m := w.mustReturn(o, "C21"); m != nil {
			return m
		}
		m, _ := w.faulted(o, nil)
		return m
	}
	o.waiting = true
	w.expect("C21 C31", "SUBSCRIBE", func(p *wire.Packet) string {
		if p.Type != wire.SUBSCRIBE {
			return "got " + wire.Names[p.Type]
		}
		return w.onSub(o, p, want, either)
	})
	return nil
}

func (w *world) onSub(o *opM, p *wire.Packet, want []wire.Filter, either []byte) string {
	if d := w.checkID(p.ID); d != "" {
		for i := range w.wexp {
			w.wexp[i].tags = "C21 C22"
		}
		return d
	}
	if len(p.Props) != 0 {
		return "unexpected properties"
	}
	if len(p.Filters) != len(want) {
		return fmt.Sprintf("%d filters, want %d", len(p.Filters), len(want))
	}
	for i, f := range p.Filters {
		if f.Filter != want[i].Filter || (either != nil && (f.Opts^want[i].Opts)&^either[i] != 0) {
			return fmt.Sprintf("filter %d: %+v, want %+v", i, f, want[i])
		}
	}
	o.id = p.ID
	return ""
}

func (w *world) unsubscribe(s Step) *mism {
	if s.Bad && len(s.Fs) > 0 {
		s.Fs = slices.Clone(s.Fs)
		s.Fs[s.N%len(s.Fs)] = tooLong
	}
	o := w.run("unsub", s.T, func(ctx context.Context) error { return w.c.Unsubscribe(ctx, s.Fs) })
	o.step = s
	if len(s.Fs) == 0 {
		if m := w.mustReturn(o, "C21"); m != nil {
			return m
		}
		if o.err == nil {
			return w.miss("C21", "unsubscribing from nothing succeeded")
		}
		return nil
	}
	if !w.connected {
		if m := w.mustReturn(o, "C20"); m != nil {
			return m
		}
		return w.notConnected(o)
	}
	if w.exhausted() {
		if m := w.mustReturn(o, "C22 C25"); m != nil {
			return m
		}
		if o.err == nil {
			return w.miss("C22", "%s succeeded although every identifier is in use", o.kind)
		}
		w.info.Add("no identifier left")
		return nil
	}
	if s.Bad {
		if m := w.mustReturn(o, "C21 C25"); m != nil {
			return m
		}
		if o.err == nil {
			return w.miss("C21 C03", "unsubscribing with a filter that cannot be encoded succeeded")
		}
		w.info.Add("filter that cannot be encoded")
		return nil
	}
	if w.faults > 0 {
		if m := w.mustReturn(o, "C21"); m != nil {
			return m
		}
		m, _ := w.faulted(o, nil)
		return m
	}
	o.waiting = true
	var want []wire.Filter
	for _, f := range s.Fs {
		want = append(want, wire.Filter{Filter: f})
	}
	w.expect("C21", "UNSUBSCRIBE", func(p *wire.Packet) string {
		if p.Type != wire.UNSUBSCRIBE {
			return "got " + wire.Names[p.Type]
		}
		return w.onSub(o, p, want, nil)
	})
	return nil
}

func (w *world) disconnect(s Step) (*mism, bool) {
	o := w.run("disconnect", 0, func(ctx context.Context) error {
		if s.N > 0 {
			return w.c.DisconnectWithSessionExpiry(ctx, s.Will, s.N)
		}
		return w.c.Disconnect(ctx, s.Will)
	})
	if m := w.mustReturn(o, "C20"); m != nil {
		return m, false
	}
	if !w.connected {
		return w.notConnected(o), false
	}
	if w.faults > 0 {
		m, stop := w.faulted(o, nil)
		if w.connected {
			stop = true // whether a failed disconnect may be repeated is unspecified
		}
		return m, stop
	}
	if o.err != nil && !w.cfg.CloseErr {
		return w.miss("C20", "disconnecting failed: %v", o.err), false
	}
	reason := byte(0)
	if s.Will {
		reason = 4
	}
	want := &wire.Packet{Type: wire.DISCONNECT, Reason: reason}
	if w.expiry != 0 && s.N > 0 {
		want.Props = []wire.Prop{{ID: 0x11, Num: uint32(s.N)}}
	}
	w.expect("C20", "DISCONNECT", func(p *wire.Packet) string { return lib.Diff(p, want) })
	w.settle()
	if w.cfg.CloseErr {
		for _, c := range w.chans {
			if c.open && c.general {
				w.maybe(c, want, 1, "C20 C17")
			}
		}
	} else {
		w.event(want, "C20 C17")
	}
	w.disconnectedNow("C20")
	return nil, false
}

// ---------------------------------------------------------------- inbound

func (w *world) pending(kind string) (r []*opM) {
	for _, o := range w.ops {
		if o.kind == kind && o.waiting {
			r = append(r, o)
		}
	}
	return
}

func codes(c []int, def int) []byte {
	var b []byte
	for _, x := range c {
		b = append(b, byte(x))
	}
	for len(b) < def {
		b = append(b, 0)
	}
	return b
}

// resolve turns an inbound step into a packet, using the model's state; nil: not applicable.
func (w *world) resolve(s Step) *wire.Packet {
	base := func(p *wire.Packet) *wire.Packet {
		if s.In != nil && s.In.Type == p.Type {
			q := s.In.Packet()
			p.Props, p.HasProps, p.HasReason = q.Props, q.HasProps, q.HasReason
			if p.Type == wire.PUBLISH {
				p.Payload = q.Payload
				p.Flags |= q.Flags & 9
			}
		}
		if p.Reason != 0 {
			p.HasReason = true
		}
		return p
	}
	switch s.Kind {
	case "publish":
		p := &wire.Packet{Type: wire.PUBLISH, Flags: byte(s.QoS) << 1, Topic: s.Topic}
		if s.QoS > 0 {
			p.ID = uint16(s.ID)
		}
		w.nd++
		p.Payload = fmt.Sprintf("in%d", w.nd)
		p = base(p)
		if s.QoS == 0 {
			p.Flags &^= 8
		}
		if _, un := w.unrel[p.ID]; !s.Bad && len(w.queue) == 0 && p.QoS() > 0 && len(w.unrel) >= w.clRM && !(un && p.QoS() == 2) {
			p.Flags &^= 0xE // the server respects the Receive Maximum
			p.ID = 0
		}
		// a topic alias without topic is outside the domain
		return p
	case "redeliver": // the server sends an unreleased QoS 2 message again
		if len(w.relOrder) == 0 {
			return nil
		}
		w.nd++
		return &wire.Packet{Type: wire.PUBLISH, Flags: 4 | 8, Topic: s.Topic, ID: w.relOrder[s.N%len(w.relOrder)], Payload: fmt.Sprintf("in%d", w.nd)}
	case "pubrel":
		id := uint16(s.ID)
		if s.ID == 0 {
			if len(w.relOrder) == 0 {
				return nil
			}
			id = w.relOrder[s.N%len(w.relOrder)]
		}
		return base(&wire.Packet{Type: wire.PUBREL, Flags: 2, ID: id, Reason: byte(s.Reason)})
	case "ack": // the next step of an exchange in flight
		if len(w.order) == 0 {
			return nil
		}
		id := w.order[s.N%len(w.order)]
		f := w.inflight[id]
		p := &wire.Packet{Type: wire.PUBACK, ID: id, Reason: byte(s.Reason)}
		if f.qos == 2 {
			p.Type = wire.PUBREC
			if f.rec {
				p.Type = wire.PUBCOMP
				if p.Reason == 0x10 {
					p.Reason = 0x92
				}
			}
		}
		return base(p)
	case "rerec": // PUBREC again
		for i := range w.order {
			id := w.order[(i+s.N)%len(w.order)]
			if f := w.inflight[id]; f.qos == 2 && f.rec {
				return base(&wire.Packet{Type: wire.PUBREC, ID: id})
			}
		}
		return nil
	case "stray": // an acknowledgement nobody waits for
		typ := []byte{wire.PUBACK, wire.PUBREC, wire.PUBCOMP, wire.SUBACK, wire.UNSUBACK}[s.N%5]
		id := uint16(s.ID)
		if s.Near > 0 {
			ps := append(w.pending("sub"), w.pending("unsub")...)
			if len(ps) == 0 {
				return nil
			}
			o := ps[(s.N/5)%len(ps)]
			id = o.id
			if s.Near <= 16 {
				id ^= 1 << (s.Near - 1)
			}
			if s.Near <= 16 && !s.Bad {
				typ = map[string]byte{"sub": wire.SUBACK, "unsub": wire.UNSUBACK}[o.kind]
			}
			if id == 0 {
				return nil
			}
			w.info.Add("acknowledgement almost like the awaited one")
		}
		if w.inflight[id] != nil && (typ == wire.PUBACK || typ == wire.PUBREC || typ == wire.PUBCOMP) {
			return nil
		}
		p := &wire.Packet{Type: typ, ID: id, Reason: byte(s.Reason)}
		if typ == wire.SUBACK || typ == wire.UNSUBACK {
			p.Reasons = codes(s.Codes, 1)
			p.Reason = 0
			want := map[byte]string{wire.SUBACK: "sub", wire.UNSUBACK: "unsub"}[typ]
			for _, o := range w.ops {
				if o.kind == want && o.id == id {
					return nil
				}
			}
		}
		return base(p)
	case "suback", "unsuback":
		ps := w.pending(strings.TrimSuffix(s.Kind, "ack"))
		if len(ps) == 0 {
			return nil
		}
		o := ps[s.N%len(ps)]
		typ := byte(wire.SUBACK)
		n := len(o.step.Subs)
		if s.Kind == "unsuback" {
			typ, n = wire.UNSUBACK, len(o.step.Fs)
		}
		p := &wire.Packet{Type: typ, ID: o.id}
		if s.Bad { // any number of reason codes
			p.Reasons = codes(s.Codes, 1)
		} else {
			p.Reasons = codes(s.Codes, n)[:n]
		}
		return base(p)
	case "lateack": // for a request that is finished or timed out
		var ps []*opM
		for _, o := range w.ops {
			if (o.kind == "sub" || o.kind == "unsub") && !o.waiting && o.id != 0 {
				ps = append(ps, o)
			}
		}
		if len(ps) == 0 {
			return nil
		}
		o := ps[s.N%len(ps)]
		for _, x := range w.ops {
			if x != o && x.kind == o.kind && x.id == o.id && !x.acked {
				return nil
			}
		}
		o.acked = true
		p := &wire.Packet{Type: wire.SUBACK, ID: o.id, Reasons: codes(s.Codes, 1)}
		if o.kind == "unsub" {
			p.Type = wire.UNSUBACK
		}
		w.info.Add("late or duplicate acknowledgement")
		return base(p)
	case "pingresp":
		return &wire.Packet{Type: wire.PINGRESP}
	case "disconnect":
		return base(&wire.Packet{Type: wire.DISCONNECT, Reason: byte(s.Reason)})
	case "auth":
		return base(&wire.Packet{Type: wire.AUTH, Reason: byte(s.Reason)})
	}
	return nil
}

func (w *world) inbound(s Step) (*mism, bool) {
	if w.closed {
		return nil, false
	}
	if s.Kind != "publish" && len(w.queue) > 0 {
		// targets are resolved against a state that earlier packets change first
		for len(w.queue) > 0 && w.connected {
			if m, stop := w.poll(20); m != nil || stop {
				return m, stop
			}
			if m := w.check(); m != nil {
				return m, false
			}
		}
		if w.closed {
			return nil, false
		}
	}
	p := w.resolve(s)
	if p == nil {
		return nil, false
	}
	b := p.Encode()
	now := time.Now()
	q := inPkt{p: p, kind: s.Kind, first: now, last: now}
	if n := len(s.Delay); n > 0 {
		at := time.Duration(0)
		if len(w.queue) > 0 {
			if d := w.queue[len(w.queue)-1].last.Sub(now); d > 0 {
				at = d
			}
		}
		if n > len(b) {
			n = len(b)
		}
		for i := 0; i < n; i++ {
			at += time.Duration(s.Delay[i]) * time.Millisecond
			lo, hi := i*len(b)/n, (i+1)*len(b)/n
			w.conn.Push(at, b[lo:hi])
			if i == 0 {
				q.first = now.Add(at)
			}
			q.last = now.Add(at)
		}
	} else {
		w.conn.Push(0, b)
		if len(w.queue) > 0 {
			if l := w.queue[len(w.queue)-1].last; l.After(now) {
				q.first, q.last = l, l
			}
		}
	}
	w.queue = append(w.queue, q)
	if s.NoPoll {
		return nil, false
	}
	t := s.T
	if t == 0 {
		t = 20
	}
	return w.poll(t)
}

func (w *world) poll(ms int) (*mism, bool) {
	// failing writes inside a poll are the business of other checks
	w.faults, w.conn.WriteErr = 0, nil
	w.storeOK()
	forever := ms < 0 && len(w.queue) > 0 && w.connected
	if ms <= 0 {
		ms = 20
	}
	t0 := time.Now()
	if w.connected && w.k > 0 {
		// too close to call, or a ping response waits to be read
		if !t0.Before(w.pingLo) && !t0.After(w.pingHi.Add(time.Millisecond)) {
			time.Sleep(w.pingHi.Sub(t0) + 2*time.Millisecond)
			t0 = time.Now()
		}
		for _, q := range w.queue {
			if q.kind == "pingresp" && (t0.After(w.pingHi) || !q.last.Before(w.pingLo)) {
				return nil, true
			}
		}
	}
	dl := t0.Add(time.Duration(ms) * time.Millisecond)
	if len(w.queue) > 0 {
		if d := w.queue[0].first.Sub(dl); d > -100*time.Microsecond && d < 100*time.Microsecond {
			dl = dl.Add(500 * time.Microsecond)
		}
	}
	if forever {
		dl = t0.Add(time.Hour)
	}
	before := w.conn.ReadTotal()
	o := w.run("poll", 0, func(ctx context.Context) error {
		if forever {
			return w.c.Poll(ctx)
		}
		ctx, cancel := context.WithDeadline(ctx, dl)
		defer cancel()
		return w.c.Poll(ctx)
	})
	tags := "C25 C20"
	if len(w.queue) > 0 && w.connected {
		tags = "C25 C27 C07 " + map[byte]string{wire.PUBLISH: "C10 C11 C12 C16 C17", wire.PUBREL: "C11 C12 C17", wire.PUBACK: "C13 C14 C15 C17", wire.PUBREC: "C13 C14 C15 C17", wire.PUBCOMP: "C13 C14 C15 C17",
			wire.SUBACK: "C21 C17", wire.UNSUBACK: "C21 C17", wire.DISCONNECT: "C20 C17", wire.AUTH: "C17", wire.PINGRESP: "C19"}[w.queue[0].p.Type]
	}
	if m := w.mustReturn(o, tags); m != nil {
		return m, false
	}
	w.settle()
	w.ops = w.ops[:len(w.ops)-1] // polls are not kept
	defer w.expire()
	switch {
	case !w.connected:
		return w.notConnected(o), false
	case w.k > 0 && t0.After(w.pingHi):
		w.info.Add("keep-alive timeout")
		var rc mqtt.ReasonCode
		if !w.cfg.CloseErr && (!errors.As(o.err, &rc) || rc != 0x8D) {
			return w.miss("C19", "poll %v after the ping deadline: %v, want keep-alive timeout", t0.Sub(w.pingHi), o.err), false
		}
		if w.conn.ReadTotal() != before {
			return w.miss("C19", "poll after the keep-alive timeout read data"), false
		}
		w.disconnectedNow("C19")
		return nil, false
	case len(w.queue) == 0 || !w.queue[0].first.Before(dl):
		w.info.Add("poll without data")
		if o.err != nil {
			tags := "C27"
			if w.k > 0 || w.cfg.KA+w.cfg.SKA == 0 {
				tags = "C27 C19"
			}
			return w.miss(tags, "poll whose deadline passed without data: %v", o.err), false
		}
		if w.conn.ReadTotal() != before {
			return w.miss("C27", "poll read data although it returned at its deadline"), false
		}
		return nil, false
	}
	q := w.queue[0]
	w.queue = w.queue[1:]
	if q.last.After(dl) {
		w.info.Add("deadline passes inside a packet")
	}
	for _, x := range w.ops {
		if x.waiting && !x.dl.IsZero() {
			if d := x.dl.Sub(q.last); d < -200*time.Microsecond {
				w.opEnds(x)
			} else if d < 200*time.Microsecond {
				return nil, true // too close to call
			}
		}
	}
	if len(w.queue) == 0 && w.conn.Pending() > 0 && w.k == 0 {
		return w.miss("C27 C17", "%s was not consumed completely: %d bytes left (poll: %v)", wire.Names[q.p.Type], w.conn.Pending(), o.err), false
	}
	return w.process(q, o)
}

func (w *world) process(q inPkt, o *opM) (*mism, bool) {
	p := q.p
	ok := func(tags string) *mism {
		if o.err != nil {
			return w.miss(tags+" C27 C25", "polling a %s failed: %v", wire.Names[p.Type], o.err)
		}
		return nil
	}
	w.info.Add("%s", "in "+wire.Names[p.Type])
	switch p.Type {
	case wire.PUBLISH:
		return w.inPublish(p, o, ok)
	case wire.PUBACK, wire.PUBCOMP:
		f := w.inflight[p.ID]
		w.event(p, "C17 C13")
		if f != nil {
			w.finish(p.ID)
			w.slot()
			return ok("C13"), false
		}
		w.info.Add("stray ack")
		w.resyncID(p.ID)
	case wire.PUBREC:
		f := w.inflight[p.ID]
		w.event(p, "C17 C13")
		if p.Reason >= 0x80 {
			w.info.Add("failing PUBREC")
			if f != nil {
				w.finish(p.ID)
				w.slot()
				return ok("C13"), false
			}
			w.resyncID(p.ID)
			return nil, false
		}
		w.expectAck(wire.PUBREL, p.ID, "C13")
		if f == nil {
			w.info.Add("stray ack")
			w.resyncID(p.ID)
			return nil, false
		}
		f.rec = true
		if w.st != nil {
			w.store[p.ID] = wire.PUBREC
			delete(w.storeWant, p.ID)
		}
		return ok("C13"), false
	case wire.PUBREL:
		w.expectAck(wire.PUBCOMP, p.ID, "C11")
		w.event(p, "C17")
		if stored, un := w.unrel[p.ID]; un {
			delete(w.unrel, p.ID)
			for i, x := range w.relOrder {
				if x == p.ID {
					w.relOrder = append(w.relOrder[:i:i], w.relOrder[i+1:]...)
					break
				}
			}
			if stored {
				delete(w.store, p.ID)
			}
			w.info.Add("released")
		}
		return ok("C11"), false
	case wire.SUBACK:
		for _, s := range w.pending("sub") {
			if s.id == p.ID {
				return w.onSuback(s, p), false
			}
		}
		w.event(p, "C17")
	case wire.UNSUBACK:
		for _, s := range w.pending("unsub") {
			if s.id == p.ID {
				if m := w.onUnsuback(s, p); m != nil {
					return m, false
				}
			}
		}
		w.event(p, "C17")
	case wire.PINGRESP:
		now := time.Now()
		w.pingLo, w.pingHi = q.last.Add(2*w.k-time.Millisecond), now.Add(2*w.k)
		return ok("C19"), false
	case wire.DISCONNECT:
		w.event(p, "C17 C20")
		w.disconnectedNow("C20")
		w.settle()
	case wire.AUTH:
		w.event(p, "C17")
		return ok("C17"), false
	}
	return nil, false
}

func (w *world) inPublish(p *wire.Packet, o *opM, ok func(string) *mism) (*mism, bool) {
	qos := p.QoS()
	_, again := w.unrel[p.ID]
	again = again && qos == 2
	if qos > 0 && !again && len(w.unrel) >= w.clRM {
		// the server exceeds the Receive Maximum
		w.info.Add("receive maximum exceeded")
		w.info.NonTrivial = true
		want := &wire.Packet{Type: wire.DISCONNECT, Reason: 0x93}
		w.expect("C16", "DISCONNECT 0x93", func(g *wire.Packet) string { return lib.Diff(g, want) })
		for _, c := range w.chans {
			if c.open && c.general {
				w.maybe(c, want, 1, "C16 C17")
			}
		}
		w.disconnectedNow("C16")
		return nil, false
	}
	switch qos {
	case 1:
		w.expectAck(wire.PUBACK, p.ID, "C11 C16")
	case 2:
		tags := "C11 C16"
		if again {
			tags = "C11 C12 C16"
			w.info.Add("retransmission")
			w.info.NonTrivial = true
		}
		w.expectAck(wire.PUBREC, p.ID, tags)
	}
	if again {
		return ok("C12 C11 C16"), false
	}
	if qos == 2 {
		stored := false
		if w.st != nil {
			if _, busy := w.store[p.ID]; !busy {
				w.store[p.ID] = wire.PUBREC
				delete(w.storeWant, p.ID)
				stored = true
			} else {
				w.info.Add("inbound and outbound share an identifier")
			}
		}
		w.unrel[p.ID] = stored
		w.relOrder = append(w.relOrder, p.ID)
	}
	w.deliver(p, qos)
	return ok("C11 C10 C16"), false
}

func (w *world) deliver(p *wire.Packet, qos byte) {
	tags := "C17 C28"
	if qos == 2 {
		tags += " C12"
	}
	n := map[*chanM]int{}
	var order []*chanM
	for f, i := range w.bind {
		if Match(p.Topic, f) {
			c := w.chans[i]
			if n[c] == 0 {
				order = append(order, c)
			}
			n[c]++
		}
	}
	for _, c := range order {
		if len(c.q) < c.cap {
			c.q = append(c.q, exp{p, tags + " C10 C21"})
			w.maybe(c, p, n[c]-1, tags)
			w.info.Add("routed")
		}
	}
	if len(w.bind) > 0 && len(order) == 0 {
		w.info.Add("matches no filter")
	}
	w.event(p, tags)
}

func (w *world) onSuback(o *opM, p *wire.Packet) *mism {
	o.waiting, o.acked, w.subs = false, true, true
	if !o.finished() {
		return w.miss("C21 C25", "SUBACK %d does not complete the subscription", p.ID)
	}
	fail := byte(0)
	for _, c := range p.Reasons {
		if c >= 0x80 {
			fail = c
			break
		}
	}
	bound := map[*chanM]bool{}
	for i, st := range o.step.Subs {
		if i >= len(p.Reasons) || p.Reasons[i] >= 0x80 || st.Ch < 0 {
			continue
		}
		c := w.chans[st.Ch]
		if !c.open {
			continue
		}
		w.bind[st.F] = st.Ch
		if c.general {
			bound[c] = true
			c.general = false
		}
	}
	if fail != 0 {
		w.info.Add("subscription refused")
		var rc mqtt.ReasonCode
		if !errors.As(o.err, &rc) || byte(rc) < 0x80 || !contains(p.Reasons, byte(rc)) {
			return w.miss("C21 C30", "SUBACK with reason codes % x: Subscribe returned %v", p.Reasons, o.err)
		}
	} else if len(p.Reasons) >= len(o.step.Subs) && o.err != nil {
		return w.miss("C21", "all filters granted (% x): Subscribe returned %v", p.Reasons, o.err)
	}
	if len(p.Reasons) != len(o.step.Subs) {
		w.info.Add("wrong number of reason codes")
	}
	w.event(p, "C17")
	for c := range bound {
		w.maybe(c, p, 1, "C17")
	}
	return nil
}

func contains(b []byte, x byte) bool {
	for _, c := range b {
		if c == x {
			return true
		}
	}
	return false
}

func (w *world) onUnsuback(o *opM, p *wire.Packet) *mism {
	o.waiting, o.acked = false, true
	if !o.finished() {
		return w.miss("C21 C25", "UNSUBACK %d does not complete the call", p.ID)
	}
	fail := byte(0)
	for _, c := range p.Reasons {
		if c >= 0x80 && fail == 0 {
			fail = c
		}
	}
	for i, f := range o.step.Fs {
		if i < len(p.Reasons) && p.Reasons[i] >= 0x80 {
			continue
		}
		if k, ok := w.bind[f]; ok {
			w.info.Add("bound channel closed by unsubscribing")
			w.closeChan(w.chans[k])
		}
	}
	if fail != 0 {
		w.info.Add("unsubscription refused")
		var rc mqtt.ReasonCode
		if !errors.As(o.err, &rc) || !contains(p.Reasons, byte(rc)) {
			return w.miss("C21", "UNSUBACK with reason codes % x: Unsubscribe returned %v", p.Reasons, o.err)
		}
	} else if len(p.Reasons) >= len(o.step.Fs) && o.err != nil {
		return w.miss("C21", "UNSUBACK with reason codes % x: Unsubscribe returned %v", p.Reasons, o.err)
	}
	return nil
}
