package client

import (
	"context"
	"errors"
	"fmt"
	"runtime/pprof"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/storage"
	"github.com/waj334/tinygo-mqtt/mqtt/storage/memory"

	"tinyverif/lib"
	"tinyverif/prop"
	"tinyverif/sched"
	"tinyverif/sim"
	"tinyverif/vsync/vy"
	"tinyverif/wire"
)

// conc.go is the concurrent engine: several application goroutines and a polling goroutine run under a
// scheduler that decides every interleaving, against a simulated server, in fake time. Afterwards the
// history (calls, bytes on the wire, packets consumed, events received) is checked.

// COp is one call of an application goroutine.
type COp struct {
	Op     string
	QoS    int      `json:",omitempty"`
	Topic  string   `json:",omitempty"`
	Subs   []SubT   `json:",omitempty"`
	Fs     []string `json:",omitempty"`
	N      int      `json:",omitempty"` // channel, capacity, milliseconds
	T      int      `json:",omitempty"` // context timeout in ms
	Cancel int      `json:",omitempty"` // context cancelled after ms
	ID     int      `json:",omitempty"`
	Size   int      `json:",omitempty"` // payload size
	Bad    bool     `json:",omitempty"` // a message that cannot be encoded
}

// CPush is something the server does on its own at a time.
type CPush struct {
	At    int
	Kind  string // publish, disc, eof, stray, auth, pingresp
	QoS   int    `json:",omitempty"`
	Topic string `json:",omitempty"`
	Dup   int    `json:",omitempty"` // retransmissions of a QoS 2 message
	N     int    `json:",omitempty"`
}

// CFault is a fault of the network or of the storage.
type CFault struct {
	Kind string // write, wpart, stall, read, set, close, store
	N    int    // which call
	Part int    `json:",omitempty"`
	All  bool   `json:",omitempty"` // this and all later calls
}

type ConcCase struct {
	Cfg     Cfg
	Plan    sched.Plan
	Early   bool `json:",omitempty"` // the calls run concurrently with Connect
	Threads [][]COp
	PollMs  int
	Lat     []int    // latencies of the server's answers in ms
	Codes   []int    // reason codes of PUBACK and PUBREC
	Sub     []int    // reason codes of SUBACK and UNSUBACK
	Push    []CPush  `json:",omitempty"`
	Faults  []CFault `json:",omitempty"`
}

const forever = int(1) << 60

type cop struct {
	COp
	th, idx    int
	start, end int
	t0, t1     time.Time
	done       bool
	err        error
	pan        string

	pub    *packets.Publish
	body   string
	wired  []int // sequence numbers of its packets on the wire
	wireAt []time.Time
	id     uint16
	subs   []SubT
	ch     *cchan
	ack    *carr // acknowledgement the server sent
	answer []byte
	expiry bool // has a context that ends
}

func (o *cop) String() string {
	s := fmt.Sprintf("goroutine %d op %d %s", o.th, o.idx, o.Op)
	if o.pub != nil {
		s += fmt.Sprintf(" qos %d", o.QoS)
	}
	return s
}

type cchan struct {
	ch           mqtt.EventChannel
	made0, made1 int
	closes       []*cop
}

// carr is an inbound packet.
type carr struct {
	idx   int
	p     *wire.Packet
	tag   string
	end   int64 // offset of its end in the stream
	read  int   // consumed at
	done  int   // the poll that consumed it returned at
	op    *cop  // it answers
	dup   bool  // it is retransmitted
	class string
}

type cexch struct { // an outbound exchange at the server
	op   *cop
	qos  byte
	rec  bool
	over int // index of the inbound packet that ends it (+1)
}

type cworld struct {
	mu    sync.Mutex
	c     ConcCase
	info  *prop.Info
	cl    *mqtt.Client
	conn  *sim.Conn
	rec   *sim.Store
	st    storage.Storage
	s     *sched.S
	seqNo atomic.Int64

	ops   []*cop
	chans []*cchan
	arr   []*carr
	total int64
	nread int

	inbuf  []byte // what the client sent and is not parsed yet
	outPk  []*wire.Packet
	outSeq []int
	bad    error // stream of the client is not well formed
	exch   map[uint16]*cexch
	pushed map[uint16]*cpush
	nextID uint16
	pend   int // timers of the server
	latI   int
	codeI  int
	subI   int
	hold   bool
	flight int // client's view: sent and not known to be finished
	maxFl  int
	freeAt time.Time      // since then the quota is not exhausted
	free   [][2]time.Time // earlier times in which it was not

	lenientV atomic.Int64 // sequence number from which faults or a disconnect may show
	fired    atomic.Bool
	ready    atomic.Bool
	broken   int  // index of the write that failed part-way (+1)
	heals    bool // later writes would be accepted
	discAt   int  // a DISCONNECT was sent at
	appLive  int
	polls    [][2]int
	connEnd  int
	id       string // the property
	final    bool   // the history is complete
	err      *mism
	foreign  *mism // breaks other properties
}

type cpush struct {
	qos       byte
	id        uint16
	acks      map[byte]int
	rel, comp bool
	sends     int
}

func (w *cworld) seq() int { return int(w.seqNo.Add(1)) }

func (w *cworld) fail(tags, f string, a ...any) {
	if w.err != nil {
		return
	}
	m := &mism{tags, fmt.Sprintf(f, a...)}
	if w.final && !has(tags, w.id) { // the history is complete: look for what concerns the property
		if w.foreign == nil {
			w.foreign = m
		}
		return
	}
	w.err = m
}

// soft: from now on faults or a disconnect may show.
func (w *cworld) soft() {
	n := w.seqNo.Add(1)
	for {
		x := w.lenientV.Load()
		if n >= x || w.lenientV.CompareAndSwap(x, n) {
			return
		}
	}
}

func (w *cworld) lenient() int { return int(w.lenientV.Load()) }

// after runs f at the server after ms.
func (w *cworld) after(ms int, f func()) { // w.mu held
	w.pend++
	vy.Woke()
	g := func() {
		pprof.SetGoroutineLabels(context.Background())
		w.mu.Lock()
		f()
		w.pend--
		w.mu.Unlock()
	}
	if ms == 0 {
		go g() // a timer would wait until every goroutine is blocked
		return
	}
	time.AfterFunc(time.Duration(ms)*time.Millisecond, g)
}

func (w *cworld) lat() int {
	if len(w.c.Lat) == 0 {
		return 0
	}
	w.latI++
	return w.c.Lat[(w.latI-1)%len(w.c.Lat)]
}

// push sends a packet to the client. w.mu held.
func (w *cworld) push(p *wire.Packet, op *cop, class string) *carr {
	a := &carr{idx: len(w.arr), p: p, op: op, class: class, read: forever, done: forever}
	switch p.Type {
	case wire.PUBLISH:
		a.tag = "m" + p.Payload
	case wire.CONNACK, wire.PUBACK, wire.PUBREC, wire.PUBREL, wire.PUBCOMP, wire.SUBACK, wire.UNSUBACK, wire.DISCONNECT, wire.AUTH:
		r := "r" + strconv.Itoa(a.idx)
		p.Props = append(p.Props, wire.Prop{ID: 0x1F, S: r})
		a.tag = r
	}
	if p.Type == wire.AUTH {
		p.Reason = 0x18
		p.Props = append(p.Props, wire.Prop{ID: 0x15, S: "m"})
	}
	p.HasReason, p.HasProps = true, true
	if p.Type == wire.PUBREL {
		p.Flags = 2
	}
	b := p.Encode()
	w.total += int64(len(b))
	a.end = w.total
	w.arr = append(w.arr, a)
	w.conn.Push(0, b)
	return a
}

// onRead follows what the client has consumed.
func (w *cworld) onRead(total int64) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for w.nread < len(w.arr) && w.arr[w.nread].end <= total {
		a := w.arr[w.nread]
		w.seqNo.Add(1)
		a.read = int(w.seqNo.Load())
		w.nread++
		if a.p.Type == wire.DISCONNECT {
			w.soft()
		}
		if e := w.exch[a.p.ID]; e != nil && e.over == a.idx+1 {
			if e.qos > 0 {
				if w.flight--; w.flight == w.rm()-1 {
					w.freeAt = time.Now()
				}
			}
			delete(w.exch, a.p.ID)
		}
	}
}

// onWrite is the server receiving bytes.
func (w *cworld) onWrite(b []byte) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.inbuf = append(w.inbuf, b...)
	for w.bad == nil {
		hdr, body, n, err := wire.Frame(w.inbuf)
		if err != nil {
			if !incomplete(w.inbuf) {
				w.bad = err
			}
			return
		}
		p, err := wire.DecodeBody(hdr, body)
		if err != nil {
			w.bad = fmt.Errorf("%v (%.60x)", err, w.inbuf[:n])
			return
		}
		w.inbuf = w.inbuf[n:]
		w.seqNo.Add(1)
		w.outPk = append(w.outPk, p)
		w.outSeq = append(w.outSeq, int(w.seqNo.Load()))
		w.serve(p)
	}
}

// incomplete tells whether b could be the beginning of a packet.
func incomplete(b []byte) bool {
	n, sh := 0, 0
	for i := 1; ; i++ {
		if i >= len(b) {
			return true
		}
		if i > 4 {
			return false
		}
		n |= int(b[i]&0x7f) << sh
		sh += 7
		if b[i]&0x80 == 0 {
			return len(b) < i+1+n
		}
	}
}

func (w *cworld) findPub(payload string) *cop {
	for _, o := range w.ops {
		if o.Op == "pub" && o.body == payload {
			return o
		}
	}
	return nil
}

func (w *cworld) useID(o *cop, p *wire.Packet, what string) {
	o.id = p.ID
	if p.ID == 0 {
		w.fail("C22", "%s was sent with identifier 0", what)
	}
	if e := w.exch[p.ID]; e != nil && !(o.Op == "pub" && o.ID > 0) {
		w.fail("C22", "%v: %s was sent with identifier %d, which is in use by %v", o, what, p.ID, e.op)
	}
	if slices.Contains(w.c.Cfg.Held, p.ID) && w.lenient() == forever && !(o.Op == "pub" && o.ID > 0) {
		w.fail("C22", "%v: %s was sent with identifier %d, which the storage holds", o, what, p.ID)
	}
}

func (w *cworld) wired(o *cop) {
	o.wired = append(o.wired, int(w.seqNo.Load()))
	o.wireAt = append(o.wireAt, time.Now())
	if len(o.wired) > 1 {
		w.fail("C31 C13", "%v: sent %d times", o, len(o.wired))
	}
	if o.start == 0 || (o.done && o.end < int(w.seqNo.Load())) {
		w.fail("C31 C15", "%v: sent after the call returned", o)
	}
}

func sameFilters(a []wire.Filter, s []SubT) bool {
	if len(a) != len(s) {
		return false
	}
	for i := range a {
		if a[i].Filter != s[i].F {
			return false
		}
	}
	return true
}

// serve reacts to a packet of the client. w.mu held.
func (w *cworld) serve(p *wire.Packet) {
	if w.discAt > 0 {
		w.fail("C20 C31", "%s was sent after DISCONNECT", wire.Names[p.Type])
		return
	}
	if len(w.outPk) == 1 && p.Type != wire.CONNECT {
		w.fail("C31 C20", "%s was sent before CONNECT", wire.Names[p.Type])
	}
	switch p.Type {
	case wire.CONNECT:
		ack := &wire.Packet{Type: wire.CONNACK}
		if w.c.Cfg.Ack != nil {
			ack = w.c.Cfg.Ack.Packet()
			ack.Props = slices.DeleteFunc(ack.Props, func(p wire.Prop) bool { return p.ID == 0x1F }) // see push
		}
		if w.c.Cfg.ServerRM > 0 {
			ack.Props = append(ack.Props, wire.Prop{ID: 0x21, Num: uint32(w.c.Cfg.ServerRM)})
		}
		w.after(w.lat(), func() {
			w.push(ack, nil, "connack")
			if w.c.Early {
				w.pushAll()
			}
		})
	case wire.PUBLISH:
		o := w.findPub(p.Payload)
		if o == nil {
			w.fail("C31 C13", "a message nobody published was sent: %.40q", p.Payload)
			return
		}
		w.wired(o)
		if p.Topic != o.Topic || int(p.QoS()) != o.QoS || p.Flags&^6 != 0 {
			w.fail("C13 C31", "%v: sent as topic %q flags %x", o, p.Topic, p.Flags)
		}
		if o.QoS == 0 {
			return
		}
		w.useID(o, p, "PUBLISH")
		if o.ID > 0 && int(p.ID) != o.ID {
			w.fail("C22 C13", "%v: sent with identifier %d, set by the application %d", o, p.ID, o.ID)
		}
		if w.flight++; w.flight == w.rm() {
			w.free = append(w.free, [2]time.Time{w.freeAt, time.Now()})
		}
		w.maxFl = max(w.maxFl, w.flight)
		if w.flight > w.rm() {
			w.fail("C14", "%v: %d messages in flight, the server's Receive Maximum is %d", o, w.flight, w.rm())
		}
		e := &cexch{op: o, qos: byte(o.QoS)}
		w.exch[p.ID] = e
		if w.hold {
			return
		}
		code := 0
		if len(w.c.Codes) > 0 {
			code = w.c.Codes[w.codeI%len(w.c.Codes)]
			w.codeI++
		}
		id := p.ID
		w.after(w.lat(), func() { w.ackPub(o, e, id, byte(code)) })
	case wire.PUBREL:
		e := w.exch[p.ID]
		if e == nil || e.qos != 2 || !e.rec {
			w.fail("C13", "PUBREL %d without a PUBREC", p.ID)
			return
		}
		if e.over > 0 {
			w.fail("C13", "second PUBREL %d", p.ID)
			return
		}
		e.over = forever
		id := p.ID
		w.after(w.lat(), func() {
			a := w.push(&wire.Packet{Type: wire.PUBCOMP, ID: id}, e.op, "ack")
			e.over = a.idx + 1
		})
	case wire.SUBSCRIBE, wire.UNSUBSCRIBE:
		var o *cop
		for _, x := range w.ops {
			if x.start > 0 && len(x.wired) == 0 && (x.Op == "sub" && p.Type == wire.SUBSCRIBE && sameFilters(p.Filters, x.subs) ||
				x.Op == "unsub" && p.Type == wire.UNSUBSCRIBE && sameFilters(p.Filters, x.subs)) && !(x.done && x.end < int(w.seqNo.Load())) {
				o = x
				break
			}
		}
		if o == nil {
			w.fail("C31 C21", "a %s nobody asked for was sent: %v", wire.Names[p.Type], p.Filters)
			return
		}
		w.wired(o)
		w.useID(o, p, wire.Names[p.Type])
		e := &cexch{op: o}
		w.exch[p.ID] = e
		var codes []byte
		for range p.Filters {
			k := 0
			if len(w.c.Sub) > 0 {
				k = w.c.Sub[w.subI%len(w.c.Sub)]
				w.subI++
			}
			if p.Type == wire.UNSUBSCRIBE && (k == 1 || k == 2) {
				k = 0x11
			}
			codes = append(codes, byte(k))
		}
		id, typ := p.ID, byte(wire.SUBACK)
		if p.Type == wire.UNSUBSCRIBE {
			typ = wire.UNSUBACK
		}
		o.answer = codes
		w.after(w.lat(), func() {
			a := w.push(&wire.Packet{Type: typ, ID: id, Reasons: codes}, o, "suback")
			e.over = a.idx + 1
			o.ack = a
		})
	case wire.PINGREQ:
		w.after(w.lat(), func() { w.push(&wire.Packet{Type: wire.PINGRESP}, nil, "pingresp") })
	case wire.DISCONNECT:
		w.discAt = int(w.seqNo.Load())
		w.soft()
		w.conn.EOF()
	case wire.PUBACK, wire.PUBREC, wire.PUBCOMP:
		x := w.pushed[p.ID]
		if x == nil {
			w.fail("C11", "%s for identifier %d, which no message had", wire.Names[p.Type], p.ID)
			return
		}
		x.acks[p.Type]++
		if x.qos == 1 && p.Type != wire.PUBACK || x.qos == 2 && p.Type == wire.PUBACK {
			w.fail("C11", "QoS %d message %d was answered with %s", x.qos, p.ID, wire.Names[p.Type])
		}
		if x.acks[p.Type] > x.sends && p.Type != wire.PUBCOMP || p.Type == wire.PUBCOMP && (!x.rel || x.comp) {
			w.fail("C11", "message %d was answered with %s more often than it was sent", p.ID, wire.Names[p.Type])
		}
		if p.Type == wire.PUBCOMP {
			x.comp = true
		}
		if p.Type == wire.PUBREC && x.acks[wire.PUBREC] == x.sends && !x.rel {
			x.rel = true
			id := p.ID
			w.after(w.lat(), func() { w.push(&wire.Packet{Type: wire.PUBREL, ID: id}, nil, "pubrel") })
		}
	default:
		w.fail("C31", "the client sent a %s", wire.Names[p.Type])
	}
}

func (w *cworld) ackPub(o *cop, e *cexch, id uint16, code byte) {
	if e.qos == 1 {
		a := w.push(&wire.Packet{Type: wire.PUBACK, ID: id, Reason: code}, o, "ack")
		e.over = a.idx + 1
		return
	}
	e.rec = code < 0x80
	a := w.push(&wire.Packet{Type: wire.PUBREC, ID: id, Reason: code}, o, "ack")
	if code >= 0x80 {
		e.over = a.idx + 1
	}
}

func (w *cworld) pushAll() {
	for _, x := range w.c.Push {
		w.after(x.At, func() { w.serverPush(x) })
	}
}

// serverPush is an action of the server.
func (w *cworld) serverPush(x CPush) {
	switch x.Kind {
	case "publish":
		id := uint16(0)
		if x.QoS > 0 {
			w.nextID++
			id = w.nextID
			w.pushed[id] = &cpush{qos: byte(x.QoS), id: id, acks: map[byte]int{}, sends: 1}
		}
		p := &wire.Packet{Type: wire.PUBLISH, Flags: byte(x.QoS) << 1, Topic: x.Topic, ID: id, Payload: fmt.Sprintf("push %d", len(w.arr))}
		w.push(p, nil, "publish").dup = x.QoS == 2 && x.Dup > 0
		if x.QoS == 2 {
			for i := 0; i < x.Dup; i++ {
				q := *p
				q.Flags |= 8
				w.pushed[id].sends++
				a := w.push(&q, nil, "dup")
				a.tag = ""
			}
		}
	case "disc":
		w.push(&wire.Packet{Type: wire.DISCONNECT, Reason: 0x8B}, nil, "disc")
	case "eof":
		w.soft()
		w.conn.EOF()
	case "stray":
		id := uint16(50000 + x.N%100)
		t := []byte{wire.PUBACK, wire.PUBCOMP, wire.SUBACK, wire.UNSUBACK}[x.N%4]
		p := &wire.Packet{Type: t, ID: id}
		if t == wire.SUBACK || t == wire.UNSUBACK {
			p.Reasons = []byte{0}
		}
		w.push(p, nil, "stray")
	case "auth":
		w.push(&wire.Packet{Type: wire.AUTH}, nil, "auth")
	case "pingresp":
		w.push(&wire.Packet{Type: wire.PINGRESP}, nil, "pingresp")
	}
}

// stalls tells whether writes may block.
func (w *cworld) stalls() bool {
	for _, f := range w.c.Faults {
		if f.Kind == "stall" {
			return true
		}
	}
	return false
}

func (w *cworld) isFault(kind string, n int) (CFault, bool) {
	for _, f := range w.c.Faults {
		if f.Kind == kind && (f.N == n || f.All && n >= f.N) {
			return f, true
		}
	}
	return CFault{}, false
}

// setup builds the client and its surroundings.
func (w *cworld) setup() {
	c := &w.c
	w.conn = sim.NewConn()
	w.conn.Chunk = c.Cfg.Chunk
	w.conn.OnRead = w.onRead
	w.conn.OnWrite = w.onWrite
	// faults are counted from the moment the client is connected
	calls := map[string]int{}
	var fmu sync.Mutex
	fault := func(kinds ...string) (f CFault, ok bool) {
		fmu.Lock()
		defer fmu.Unlock()
		if !w.ready.Load() && !c.Early {
			return
		}
		calls[kinds[0]]++
		for _, k := range kinds {
			if f, ok = w.isFault(k, calls[kinds[0]]); ok {
				w.fired.Store(true)
				w.soft()
				return
			}
		}
		return
	}
	w.conn.WriteErr = func(n, size int) (int, error) {
		if w.broken > 0 {
			if w.heals {
				return size, nil
			}
			return 0, sim.ErrFault
		}
		f, ok := fault("write", "wpart", "stall")
		switch {
		case !ok:
			return size, nil
		case f.Kind == "stall" && f.Part%3 == 0:
			return 0, sim.ErrStall
		case f.Kind == "stall":
			w.broken, w.heals = n+1, f.Part%2 == 1
			return min(size-1, f.Part), sim.ErrStall
		case f.Kind == "write":
			return 0, sim.ErrFault
		}
		w.broken, w.heals = n+1, f.Part%2 == 1
		return max(1, min(size-1, 1+f.Part%max(1, size-1))), sim.ErrFault
	}
	w.conn.SetErr = func(n int) error {
		if _, ok := fault("set"); ok {
			return sim.ErrFault
		}
		return nil
	}
	w.conn.ReadErr = func(n int) error {
		if _, ok := fault("read"); ok {
			return sim.ErrFault
		}
		return nil
	}
	if _, ok := w.isFault("close", 1); ok {
		w.conn.CloseErr = sim.ErrFault
	}
	w.cl = mqtt.NewClient(w.conn)
	switch c.Cfg.Store {
	case 1:
		w.rec = sim.NewStore()
		w.st = w.rec
	case 2:
		w.st = memory.NewStorage()
	}
	if w.st != nil {
		for _, id := range c.Cfg.Held {
			w.st.Store(id, &packets.Pubrel{})
		}
		w.cl.SetStorage(w.st)
	}
	if w.rec != nil {
		w.rec.Fail = func(n int, op byte, id uint16) error {
			if _, ok := fault("store"); ok {
				return sim.ErrFault
			}
			return nil
		}
	}
	n, i := uint32(len(c.Cfg.Rng)), uint32(0)
	w.cl.SetRngFn(func() uint32 {
		i++
		if n == 0 {
			return i * 2654435761 >> 3
		}
		return c.Cfg.Rng[(i-1)%n]
	})
	for range c.Cfg.Caps {
		w.addChan(2000)
	}
}

func (w *cworld) addChan(n int) *cchan {
	ch := &cchan{made0: w.seq()}
	ch.ch = w.cl.CreateEventChannel(n)
	ch.made1 = w.seq()
	w.mu.Lock()
	w.chans = append(w.chans, ch)
	w.mu.Unlock()
	return ch
}

func (w *cworld) pickChan(n int) *cchan {
	w.mu.Lock()
	defer w.mu.Unlock()
	if n < 0 || len(w.chans) == 0 {
		return nil
	}
	return w.chans[n%len(w.chans)]
}

func (w *cworld) connect() error {
	cp := &packets.Connect{Version: packets.MQTT5, ClientId: "c", KeepAlive: lib.U16(w.c.Cfg.KA), ReceiveMaximum: lib.U16(w.c.Cfg.ClientRM)}
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	return w.cl.Connect(ctx, cp)
}

// exec performs one call of the application.
func (w *cworld) exec(o *cop) {
	o.t0 = time.Now()
	ctx, cancel := context.Background(), context.CancelFunc(func() {})
	if o.T > 0 {
		ctx, cancel = context.WithTimeout(ctx, time.Duration(o.T)*time.Millisecond)
		o.expiry = true
	}
	if o.Cancel > 0 {
		var c2 context.CancelFunc
		ctx, c2 = context.WithCancel(ctx)
		time.AfterFunc(time.Duration(o.Cancel)*time.Millisecond, c2)
		o.expiry = true
	}
	defer cancel()
	var topics []mqtt.Topic
	switch o.Op {
	case "pub":
		o.pub = &packets.Publish{Topic: lib.S(o.Topic), QoS: packets.QoS(o.QoS), PacketIdentifier: lib.U16(o.ID), Payload: []byte(o.body)}
		if o.Bad {
			spoil(o.pub, o.N)
		}
	case "sub":
		o.subs = slices.Clone(o.Subs)
		for i, s := range o.subs {
			var t mqtt.Topic
			t.SetFilter(s.F)
			if ch := w.pickChan(s.Ch); ch != nil {
				t.SetEventChannel(ch.ch)
				o.subs[i].Ch = slices.Index(w.chans, ch)
			} else {
				o.subs[i].Ch = -1
			}
			topics = append(topics, t)
		}
	case "unsub":
		for _, f := range o.Fs {
			o.subs = append(o.subs, SubT{F: f})
		}
	case "close":
		if o.ch = w.pickChan(o.N); o.ch == nil {
			return
		}
		w.mu.Lock()
		o.ch.closes = append(o.ch.closes, o)
		w.mu.Unlock()
	case "disc":
		w.soft()
	}
	o.start = w.seq()
	switch o.Op {
	case "pub":
		o.err = w.cl.Publish(ctx, o.pub)
	case "sub":
		o.err = w.cl.Subscribe(ctx, topics)
	case "unsub":
		o.err = w.cl.Unsubscribe(ctx, o.Fs)
	case "ka":
		o.err = w.cl.KeepAlive()
	case "kai":
		w.cl.KeepAliveInterval()
	case "isconn":
		w.cl.IsConnected()
	case "chan":
		w.addChan(2000)
	case "close":
		w.cl.CloseEventChannel(o.ch.ch)
	case "disc":
		o.err = w.cl.DisconnectWithSessionExpiry(ctx, o.N&1 == 1, o.N)
	case "sleep":
		time.Sleep(time.Duration(o.N) * time.Millisecond)
	}
	o.end = w.seq()
	o.t1 = time.Now()
	o.done = true
}

// poller polls until the application is done and the server is idle.
func (w *cworld) poller() {
	for n := 0; ; n++ {
		d := time.Duration(w.c.PollMs) * time.Millisecond
		if n > 250 {
			d = max(d, 250*time.Millisecond)
		}
		ctx, cancel := context.WithTimeout(context.Background(), d)
		i := w.seq()
		first := w.nread
		err := w.cl.Poll(ctx)
		cancel()
		w.mu.Lock()
		j := w.seq()
		w.polls = append(w.polls, [2]int{i, j})
		for k := first; k < w.nread; k++ {
			w.arr[k].done = j
		}
		idle := w.appLive == 0 && w.pend == 0
		early := w.connEnd == 0 || w.connEnd > i
		w.mu.Unlock()
		idle = idle && w.conn.Pending() == 0
		switch {
		case err == nil:
		case errors.Is(err, mqtt.ErrClientNotConnected):
			if early && w.c.Early {
				time.Sleep(2 * time.Millisecond)
				continue
			}
			return
		case strings.Contains(err.Error(), "injected") && w.cl.IsConnected() && !w.readFault():
			// a storage or deadline fault: polling goes on
		default:
			if w.lenient() > j {
				w.fail("C25 C27 C11", "poll failed: %v", err)
			}
			w.soft()
			dctx, dc := context.WithTimeout(context.Background(), time.Second)
			w.cl.Disconnect(dctx, false)
			dc()
			w.conn.Close() // the application gives the connection up
			return
		}
		if idle && w.conn.Pending() == 0 {
			return
		}
		if n > 3000 {
			return
		}
	}
}

func (w *cworld) readFault() bool {
	for _, f := range w.c.Faults {
		if f.Kind == "read" || f.Kind == "set" { // the rest of a packet may be left in the stream
			return true
		}
	}
	return false
}

// RunConc runs one case and reports what breaks the property.
func RunConc(t *testing.T, id string, c ConcCase) (info prop.Info, err error) {
	w := &cworld{c: c, id: id, info: &info, exch: map[uint16]*cexch{}, pushed: map[uint16]*cpush{}, nextID: 1000}
	w.lenientV.Store(int64(forever))
	perr := Bubble(t, w.run)
	if w.err == nil && perr != nil {
		w.err = &mism{"C25", "calls never return: " + perr.Error()}
	}
	if w.err == nil {
		w.err = w.foreign
	}
	if w.err != nil {
		if has(w.err.tags, id) {
			return info, w.err
		}
		info.NonTrivial = false
		info.Add("%s", "diverged "+w.err.tags)
	}
	return info, nil
}

var opTag = map[string]string{"pub": "C25 C14 C15", "sub": "C25 C21", "unsub": "C25 C21", "close": "C25 C17 C28", "chan": "C25 C17", "disc": "C25 C20", "ka": "C25 C19", "poll": "C25 C28 C17 C21"}

func (w *cworld) run() {
	c := &w.c
	w.setup()
	if len(c.Plan.Prio) == 0 && c.Plan.Switch == 0 {
		c.Plan.Switch = 1
	}
	if !c.Early {
		if err := w.connect(); err != nil {
			w.fail("C18 C25", "connect failed: %v", err)
			w.conn.Close()
			return
		}
		w.connEnd = w.seq()
		w.ready.Store(true)
		for _, a := range w.arr {
			a.done = w.connEnd
		}
	}
	w.s = sched.New(c.Plan)
	for th, ops := range c.Threads {
		for i, x := range ops {
			o := &cop{COp: x, th: th, idx: i}
			if x.Op == "pub" {
				o.body = fmt.Sprintf("message %d.%d", th, i)
				if k := x.Size - len(o.body); k > 0 {
					o.body += strings.Repeat(".", k)
				}
			}
			// a filter of its own makes the request recognisable
			if mark := fmt.Sprintf("~%d.%d", th, i); x.Op == "sub" {
				o.Subs = append(slices.Clone(o.Subs), SubT{F: mark, Ch: -1})
			} else if x.Op == "unsub" {
				o.Fs = append(slices.Clone(o.Fs), mark)
			}
			w.ops = append(w.ops, o)
		}
	}
	w.mu.Lock()
	if !c.Early {
		w.pushAll()
	}
	w.mu.Unlock()
	w.appLive = len(c.Threads)
	if c.Early {
		w.appLive++
		w.s.Go("connect", func() {
			defer w.live()
			err := w.connect()
			w.mu.Lock()
			w.seqNo.Add(1)
			w.connEnd = int(w.seqNo.Load())
			if err != nil && w.lenient() == forever {
				w.fail("C18 C25", "connect failed: %v", err)
			}
			for k := 0; k < w.nread && w.arr[k].p.Type == wire.CONNACK; k++ {
				w.arr[k].done = int(w.seqNo.Load())
			}
			w.mu.Unlock()
		}, func(r any) { w.fail("C25 C18", "connect: %s", prop.PanicText(r)) })
	}
	w.s.Go("poll", w.poller, func(r any) { w.fail(opTag["poll"], "poll: %s", prop.PanicText(r)) })
	k := 0
	for th := range c.Threads {
		n := len(c.Threads[th])
		mine := w.ops[k : k+n]
		k += n
		cur := 0
		w.s.Go("app", func() {
			defer w.live()
			for i, o := range mine {
				cur = i
				w.exec(o)
				if w.err != nil {
					return
				}
			}
		}, func(r any) {
			tag := opTag[mine[cur].Op]
			if tag == "" {
				tag = "C25"
			}
			mine[cur].pan = "panic"
			w.fail(tag, "%v: %s", mine[cur], prop.PanicText(r))
		})
	}
	horizon := 150 * time.Second
	for _, ms := range c.Lat {
		if ms > 1000 {
			horizon += time.Duration(ms*(len(w.ops)+5)) * time.Millisecond
		}
	}
	if w.stalls() {
		horizon += 200 * time.Second
	}
	res := w.s.Run(horizon)
	defer func() {
		w.conn.Close()
		synctest.Wait()
	}()
	w.info.Add("steps%d", mag(res.Steps))
	if w.err != nil {
		return
	}
	if res.Overrun {
		w.info.Add("overrun")
		w.fail("none", "too many steps")
		return
	}
	if res.Stuck {
		var l []string
		tags := ""
		for _, o := range w.ops {
			if o.start > 0 && !o.done {
				l = append(l, o.String())
				if o.Op == "pub" && o.QoS > 0 || o.Op == "sub" || o.Op == "unsub" {
					tags += opTag[o.Op] + " "
					if w.lenient() != forever {
						tags += "C20 "
					}
				}
			}
		}
		w.fail("C25 "+tags, "still not returned after %v: %s; the polling goroutine polled %d times", horizon, strings.Join(l, ", "), len(w.polls))
		return
	}
	w.final = true
	w.classes()
	w.checkWire()
	w.checkOps()
	w.checkEvents()
	w.checkEnd()
	if w.err == nil && w.foreign == nil {
		w.probe()
	}
}

func mag(n int) int {
	m := 1
	for m*10 <= n {
		m *= 10
	}
	return m
}

func (w *cworld) live() {
	w.mu.Lock()
	w.appLive--
	w.mu.Unlock()
}

func (w *cworld) classes() {
	over := 0
	for i, a := range w.ops {
		for _, b := range w.ops[:i] {
			if a.th != b.th && a.start > 0 && b.start > 0 && a.start < b.end && b.start < a.end {
				over++
			}
		}
	}
	if over > 0 {
		w.info.NonTrivial = true
		w.info.Add("overlapping calls")
	}
	if w.maxFl > 0 && w.maxFl == w.c.Cfg.ServerRM {
		w.info.Add("quota exhausted")
	}
	if w.fired.Load() {
		w.info.Add("fault hit")
	}
	if w.discAt > 0 {
		w.info.Add("disconnected by the client")
	}
	for _, o := range w.ops {
		if o.done && (o.Op == "pub" || o.Op == "sub" || o.Op == "unsub") {
			switch {
			case o.err == nil && o.t1.Sub(o.t0) > 0:
				w.info.Add("%s waited", o.Op)
			case o.err != nil && errors.Is(o.err, mqtt.ErrClientNotConnected):
				w.info.Add("%s released by disconnect", o.Op)
			case o.err != nil && o.expiry:
				w.info.Add("%s expired", o.Op)
			}
		}
	}
}

func (w *cworld) checkWire() {
	if w.err != nil {
		return
	}
	if w.bad != nil {
		w.fail("C31 C13 C11", "the bytes on the wire are not MQTT packets: %v", w.bad)
		return
	}
	// A packet may be cut short only by a write that failed, and is the last.
	var buf []byte
	cut := -1
	for i, x := range w.conn.Writes {
		if cut >= 0 && len(x.Data) > 0 {
			w.fail("C31", "%d bytes (%.60x) were written after write %d had left a packet incomplete", len(x.Data), x.Data, cut)
			return
		}
		buf = append(buf, x.Data...)
		for {
			_, _, n, err := wire.Frame(buf)
			if err != nil {
				break
			}
			buf = buf[n:]
		}
		if x.Err != nil && len(buf) > 0 {
			cut = i
		}
	}
	if len(buf) > 0 {
		if cut < 0 {
			w.fail("C31", "the last packet on the wire is incomplete (%.60x) although no write failed", buf)
		} else if w.cl.IsConnected() {
			w.fail("C31", "still connected after a packet was written only in part")
		}
	}
	if w.discAt > 0 && (w.cl.IsConnected() || !w.conn.Closed()) {
		w.fail("C20", "DISCONNECT was sent; connected: %v, connection closed: %v", w.cl.IsConnected(), w.conn.Closed())
	}
}

func (w *cworld) checkOps() {
	discs := 0
	for _, o := range w.ops {
		if o.start == 0 || w.err != nil {
			continue
		}
		hard := o.end < w.lenient() && o.start > w.connEnd // neither faults nor a disconnect could show
		early := o.start < w.connEnd
		notConn := errors.Is(o.err, mqtt.ErrClientNotConnected)
		late := o.T > 0 && o.t1.Sub(o.t0) >= time.Duration(o.T)*time.Millisecond || o.Cancel > 0 && o.t1.Sub(o.t0) >= time.Duration(o.Cancel)*time.Millisecond
		switch o.Op {
		case "pub":
			if o.Bad {
				if o.err == nil {
					w.fail("C02 C31", "%v: a message that cannot be encoded was published", o)
				}
				continue
			}
			if o.err == nil && len(o.wired) != 1 {
				w.fail("C31 C15 C13", "%v: reported success but was sent %d times", o, len(o.wired))
			}
			if o.err != nil && len(o.wired) != 0 {
				w.fail("C15 C31", "%v: returned %v but the message was sent", o, o.err)
			}
			if o.err == nil && o.QoS > 0 && uint16(o.pub.PacketIdentifier) != o.id {
				w.fail("C22", "%v: sent with identifier %d but the packet says %d", o, o.id, o.pub.PacketIdentifier)
			}
			if hard && o.QoS > 0 && o.done {
				end := o.t1
				if len(o.wired) > 0 {
					end = o.wireAt[0]
				}
				w.starved(o, end)
			}
			if hard && o.err != nil {
				if notConn {
					w.fail("C15 C20", "%v: returned %v although the client is connected", o, o.err)
				} else if !o.expiry || !late {
					w.fail("C15 C14", "%v: returned %v after %v", o, o.err, o.t1.Sub(o.t0))
				}
			}
		case "sub", "unsub":
			if len(o.subs) == 0 {
				if o.err == nil {
					w.fail("C21", "%v: nothing was asked for, and it succeeded", o)
				}
				continue
			}
			if o.err == nil || isReason(o.err) {
				if o.ack == nil || o.ack.read > o.end {
					w.fail("C21", "%v: completed (%v) before its acknowledgement was received", o, o.err)
					continue
				}
				want := byte(0)
				for _, k := range o.answer {
					if k >= 0x80 && want == 0 {
						want = k
					}
				}
				okc := want == 0 && o.err == nil
				if want != 0 && o.err != nil {
					for _, k := range o.answer {
						okc = okc || k >= 0x80 && o.err == mqtt.ReasonCode(k)
					}
				}
				if !okc {
					w.fail("C21", "%v: returned %v, the server answered %x", o, o.err, o.answer)
				}
				continue
			}
			if hard {
				if notConn {
					w.fail("C21 C20", "%v: returned %v although the client is connected", o, o.err)
				} else if !o.expiry || !late {
					w.fail("C21", "%v: returned %v after %v", o, o.err, o.t1.Sub(o.t0))
				} else if o.ack != nil && o.ack.done < o.start {
					w.fail("C21", "%v: returned %v", o, o.err)
				}
			}
		case "ka":
			if hard && o.err != nil {
				w.fail("C19 C25", "%v: %v", o, o.err)
			}
		case "disc":
			if o.err == nil {
				discs++
			}
		}
		if early && o.err == nil && o.Op != "sleep" && o.Op != "chan" && o.Op != "close" && o.Op != "isconn" && o.Op != "kai" && len(w.arr) == 0 {
			w.fail("C20", "%v: succeeded before the client was connected", o)
		}
	}
	if discs > 1 {
		w.fail("C20", "%d disconnect calls succeeded", discs)
	}
	if discs == 1 && w.discAt == 0 {
		w.fail("C20 C31", "a disconnect call succeeded without a DISCONNECT packet")
	}
	// keep alive calls
	n, m := 0, 0
	for _, o := range w.ops {
		if o.Op == "ka" && o.start > 0 && o.err == nil {
			n++
		}
	}
	for _, p := range w.outPk {
		if p.Type == wire.PINGREQ {
			m++
		}
	}
	if n != m && w.err == nil {
		w.fail("C31 C19", "%d keep-alive calls succeeded, %d PINGREQ were sent", n, m)
	}
}

func isReason(err error) bool {
	var r mqtt.ReasonCode
	return errors.As(err, &r)
}

func (w *cworld) rm() int {
	if w.c.Cfg.ServerRM == 0 {
		return 65535
	}
	return w.c.Cfg.ServerRM
}

// starved: a publish must not wait for long while there is a free slot.
func (w *cworld) starved(o *cop, end time.Time) {
	const limit = 10 * time.Second
	free := w.free
	if w.flight < w.rm() {
		free = append(slices.Clone(free), [2]time.Time{w.freeAt, time.Now().Add(time.Hour)})
	}
	for _, f := range free {
		from, to := f[0], f[1]
		if from.Before(o.t0) {
			from = o.t0
		}
		if to.After(end) {
			to = end
		}
		if d := to.Sub(from); d > limit {
			w.fail("C15", "%v: waited %v although fewer than %d messages were in flight", o, d, w.rm())
			return
		}
	}
}

// window of an arrival in which its event is signalled: (read, done)

func (w *cworld) checkEvents() {
	if w.err != nil {
		return
	}
	byTag := map[string]*carr{}
	for _, a := range w.arr {
		if a.tag != "" {
			byTag[a.tag] = a
		}
	}
	for ci, ch := range w.chans {
		got := map[*carr]int{}
		last := -1
		closed := false
		disc := 0
		n := 0
	drain:
		for {
			select {
			case e, ok := <-ch.ch.C:
				if !ok {
					closed = true
					break drain
				}
				n++
				if e == nil {
					w.fail("C17", "channel %d: nil event", ci)
					return
				}
				p := lib.Convert(e.Data)
				if p == nil || byte(e.PacketType) != p.Type {
					w.fail("C17", "channel %d: event of type %v carries %T", ci, e.PacketType, e.Data)
					return
				}
				tag := ""
				if p.Type == wire.PUBLISH {
					tag = "m" + p.Payload
				} else if r := p.Get(0x1F); r != nil {
					tag = r.S
				}
				if p.Type == wire.DISCONNECT && tag == "" {
					if disc++; disc > 1 {
						w.fail("C17 C20", "channel %d: the disconnect was signalled twice", ci)
						return
					}
					continue
				}
				a := byTag[tag]
				if a == nil {
					w.fail("C17 C28", "channel %d: event for a %s the server did not send", ci, wire.Names[p.Type])
					return
				}
				if a.dup && p.Flags&8 != 0 && w.lenient() != forever {
					p.Flags &^= 8 // the first one was not acknowledged, a retransmission is delivered
				}
				if d := lib.Diff(p, a.p); d != "" {
					w.fail("C17", "channel %d: %s", ci, d)
					return
				}
				if a.idx < last {
					w.fail("C17 C28", "channel %d: %s (arrival %d) was signalled after arrival %d", ci, wire.Names[p.Type], a.idx, last)
					return
				}
				last = a.idx
				got[a]++
			default:
				break drain
			}
		}
		w.checkChan(ci, ch, got, closed)
		if w.err != nil {
			return
		}
	}
}

func (w *cworld) checkChan(ci int, ch *cchan, got map[*carr]int, closed bool) {
	// closing: by the application, or by unsubscribing from a filter bound to it
	closeStart, closeEnd := forever, forever
	for _, o := range ch.closes {
		if o.start > 0 {
			closeStart = min(closeStart, o.start)
			if o.done {
				closeEnd = min(closeEnd, o.end)
			}
		}
	}
	type bindT struct {
		o *cop
		f string
		g bool // granted
	}
	var binds []bindT
	fs := map[string]bool{}
	for _, o := range w.ops {
		if o.Op == "sub" && o.start > 0 {
			for i, s := range o.subs {
				if s.Ch == ci {
					binds = append(binds, bindT{o, s.F, o.answer != nil && i < len(o.answer) && o.answer[i] < 0x80})
					fs[s.F] = true
				}
			}
		}
	}
	unsubStart := forever
	for _, o := range w.ops {
		if o.Op == "unsub" && o.start > 0 {
			for _, s := range o.subs {
				if fs[s.F] {
					unsubStart = min(unsubStart, o.start)
				}
			}
		}
	}
	var sureBind, mayBind = forever, forever // arrival index of the first acknowledgement that binds the channel
	for _, b := range binds {
		if !b.g || b.o.ack == nil || b.o.ack.read == forever {
			continue
		}
		mayBind = min(mayBind, b.o.ack.idx)
		if b.o.err == nil || isReason(b.o.err) {
			if b.o.done && b.o.ack.done < min(closeStart, unsubStart) {
				sureBind = min(sureBind, b.o.ack.idx)
			}
		}
	}
	for _, a := range w.arr {
		if a.tag == "" || a.read == forever {
			if got[a] > 0 {
				w.fail("C17", "channel %d: event for a packet that was not read", ci)
				return
			}
			continue
		}
		// a faulty or interrupted poll may not signal
		soft := a.done >= w.lenient()
		if a.dup && w.lenient() != forever && got[a] <= 1 {
			continue
		}
		opened := ch.made1 < a.read
		if ch.made0 > a.done {
			if got[a] > 0 {
				w.fail("C17", "channel %d: got an event that was signalled before the channel was created", ci)
			}
			continue
		}
		stays := min(closeStart, unsubStart) > a.done
		gone := closeEnd < a.read
		general := opened && stays && a.idx < mayBind
		bound := a.idx > sureBind
		lo, hi := 0, 0
		if general {
			lo = 1
		}
		if !bound {
			hi = 1
		}
		if a.op != nil && a.op.Op == "sub" || a.p.Type == wire.UNSUBACK {
			if a.idx >= mayBind || a.p.Type == wire.UNSUBACK && unsubStart < a.done {
				lo, hi = 0, 1
			}
		}
		if a.p.Type == wire.PUBLISH {
			seen := map[string]bool{}
			for _, b := range binds {
				if !Match(a.p.Topic, b.f) || b.o.start > a.done {
					continue
				}
				if !seen[b.f] {
					seen[b.f] = true
					hi++
				}
				if b.g && b.o.ack != nil && b.o.ack.idx < a.idx && (b.o.err == nil || isReason(b.o.err)) && b.o.done && stays && opened && w.sure(b.o, b.f, ci, a) {
					lo = 1
				}
			}
		}
		if gone {
			lo, hi = 0, 0
		}
		if soft || w.c.Early && a.p.Type != wire.CONNACK && a.read < w.connEnd {
			lo = 0
		}
		n := got[a]
		if n < lo || n > hi {
			tags := "C17 C28"
			if a.p.Type == wire.PUBLISH && len(binds) > 0 {
				tags = "C28 C21 C10"
				if n > 1 {
					tags += " C17"
				}
				if a.idx < mayBind {
					tags = "C17 C28"
				}
			}
			if a.p.QoS() == 2 && a.p.Type == wire.PUBLISH {
				tags += " C12"
			}
			if n < lo && (a.p.Type == wire.SUBACK || a.p.Type == wire.UNSUBACK) {
				tags += " C21"
			}
			w.fail(tags, "channel %d: %s (arrival %d, topic %q) was signalled %d times, want %d..%d; general until arrival %d, bound for sure after %d, closed during %d..%d, unsubscribed from %d, signalled during %d..%d",
				ci, wire.Names[a.p.Type], a.idx, a.p.Topic, n, lo, hi, mayBind, sureBind, closeStart, closeEnd, unsubStart, a.read, a.done)
			return
		}
	}
	if closeEnd < forever {
		if !closed {
			w.fail("C17", "channel %d: it was closed but is still open", ci)
			return
		}
	}
	if closed {
		if closeStart == forever && unsubStart == forever {
			w.fail("C17 C21 C28", "channel %d: it is closed but nobody closed it", ci)
			return
		}
		select {
		case <-ch.ch.Done:
		default:
			w.fail("C17", "channel %d: it is closed but Done did not fire", ci)
		}
	}
	// a completed unsubscription closes the channel bound to the filter
	if !closed {
		for _, u := range w.ops {
			if u.Op != "unsub" || u.start == 0 || !u.done || u.err != nil || u.ack == nil || u.end > w.lenient() {
				continue
			}
			for _, s := range u.subs {
				for _, b := range binds {
					if b.f == s.F && b.g && b.o.ack != nil && b.o.done && (b.o.err == nil || isReason(b.o.err)) && b.o.ack.idx < u.ack.idx && w.sure(b.o, b.f, ci, u.ack) && w.noOtherUnsub(u, fs, u.ack.done) {
						w.fail("C21 C28", "channel %d: it is open although %v from filter %q bound to it completed", ci, u, s.F)
						return
					}
				}
			}
		}
	}
}

func (w *cworld) noOtherUnsub(u *cop, fs map[string]bool, end int) bool {
	for _, o := range w.ops {
		if o == u || o.Op != "unsub" || o.start == 0 || o.start > end {
			continue
		}
		for _, s := range o.subs {
			if fs[s.F] {
				return false
			}
		}
	}
	return true
}

// sure: the binding of f to channel ci made by subscription o is still in force when a is signalled.
func (w *cworld) sure(o *cop, f string, ci int, a *carr) bool {
	ch := w.chans[ci]
	for _, x := range ch.closes {
		if x.start > 0 && x.start < a.done {
			return false
		}
	}
	for _, x := range w.ops {
		if x == o || x.start == 0 || x.start > a.done {
			continue
		}
		switch x.Op {
		case "sub":
			for _, s := range x.subs {
				if s.F == f && s.Ch >= 0 && s.Ch != ci {
					if x.ack != nil && x.ack.idx < o.ack.idx {
						continue
					}
					return false
				}
			}
		case "unsub":
			if a.op == x {
				continue // asked about this very unsubscription
			}
			for _, s := range x.subs {
				if s.F == f && !(x.done && x.end < o.start) {
					return false
				}
			}
		}
	}
	// the same call may name the filter twice
	last := -2
	for _, s := range o.subs {
		if s.F == f {
			if last != -2 && last != s.Ch {
				return false
			}
			last = s.Ch
		}
	}
	// an earlier unsubscription may have closed the channel
	for _, x := range w.ops {
		if x.Op == "unsub" && x.start > 0 && x.start < a.done && a.op != x {
			for _, s := range x.subs {
				for _, y := range w.ops {
					if y.Op == "sub" && y.start > 0 {
						for _, z := range y.subs {
							if z.Ch == ci && z.F == s.F {
								return false
							}
						}
					}
				}
			}
		}
	}
	return true
}

// checkEnd looks at the quiescent end.
func (w *cworld) checkEnd() {
	if w.err != nil || w.lenient() != forever {
		return
	}
	if !w.cl.IsConnected() {
		w.fail("C25 C20", "the client is not connected any more")
		return
	}
	for id, x := range w.pushed {
		n := x.acks[wire.PUBACK] + x.acks[wire.PUBREC]
		if n != x.sends || x.qos == 2 && !x.comp {
			w.fail("C11", "QoS %d message %d was sent %d times and acknowledged %d times (completed: %v)", x.qos, id, x.sends, n, x.comp)
			return
		}
	}
	for _, e := range w.exch {
		if e.op.Op == "pub" && e.qos == 2 && e.rec && e.over == 0 {
			w.fail("C13", "%v: the PUBREC was not answered", e.op)
			return
		}
	}
	if w.rec != nil {
		m := w.rec.Snapshot()
		for _, id := range w.c.Cfg.Held {
			delete(m, id)
		}
		if len(m) > 0 && len(w.exch) == 0 {
			w.fail("C23", "the storage holds %v although every exchange is finished", m)
		}
	}
}

// probe makes further calls on the client, without a scheduler.
func (w *cworld) probe() {
	stop := false
	pollDone := make(chan struct{})
	sched.App(func() {
		defer close(pollDone)
		defer func() {
			if r := recover(); r != nil {
				w.fail("C25", "polling afterwards: %s", prop.PanicText(r))
			}
		}()
		for !stop {
			ctx, cancel := context.WithTimeout(context.Background(), 10*time.Millisecond)
			err := w.cl.Poll(ctx)
			cancel()
			if err != nil {
				time.Sleep(10 * time.Millisecond)
			}
		}
	})
	c := &w.c
	w.mu.Lock()
	c.Faults = nil
	c.Lat = []int{1}
	c.Codes, c.Sub = nil, nil
	w.mu.Unlock()
	// what the server still sends or sent arrives first
	for i := 0; i < 200; i++ {
		time.Sleep(10 * time.Millisecond)
		w.mu.Lock()
		idle := w.pend == 0
		w.mu.Unlock()
		if idle && w.conn.Pending() == 0 && i > 1 {
			break
		}
	}
	conn := w.cl.IsConnected()
	clean := w.lenient() == forever && w.conn.CloseErr == nil
	call := func(op COp, wait time.Duration) *cop {
		o := &cop{COp: op, th: 99, idx: len(w.ops)}
		if op.Op == "pub" {
			o.body = fmt.Sprintf("probe %d", len(w.ops))
		}
		w.mu.Lock()
		w.ops = append(w.ops, o)
		w.mu.Unlock()
		done := make(chan struct{})
		sched.App(func() {
			defer close(done)
			defer func() {
				if r := recover(); r != nil {
					o.pan = prop.PanicText(r)
				}
			}()
			w.exec(o)
		})
		t := time.NewTimer(wait)
		defer t.Stop()
		select {
		case <-done:
		case <-t.C:
			tag := opTag[op.Op]
			if !clean && !conn {
				tag += " C20"
			}
			w.fail("C25 "+tag, "afterwards: %s does not return (connected: %v)", op.Op, conn)
		}
		if o.pan != "" {
			w.fail("C25 "+opTag[op.Op], "afterwards: %s: %s", op.Op, o.pan)
		}
		return o
	}
	if conn {
		rm := c.Cfg.ServerRM
		if rm > 0 && rm <= 8 && w.flight == 0 && !w.conn.Closed() {
			w.mu.Lock()
			w.hold = true
			w.mu.Unlock()
			for i := 0; i < rm && w.err == nil; i++ {
				if o := call(COp{Op: "pub", QoS: 1 + i%2, Topic: "t", T: 3000}, 10*time.Second); w.err == nil && o.err != nil {
					tag := "C14 C15"
					w.fail(tag, "afterwards: with %d of %d messages in flight a publish returned %v", i, rm, o.err)
				}
			}
			if w.err == nil {
				if o := call(COp{Op: "pub", QoS: 1, Topic: "t", T: 1000}, 10*time.Second); w.err == nil && o.err == nil {
					w.fail("C14", "afterwards: a publish beyond the Receive Maximum succeeded")
				}
			}
			if w.err == nil {
				if o := call(COp{Op: "pub", QoS: 0, Topic: "t", T: 1000}, 10*time.Second); w.err == nil && o.err != nil {
					w.fail("C14", "afterwards: a QoS 0 publish was held back: %v", o.err)
				}
			}
			// let them finish
			w.mu.Lock()
			w.hold = false
			for id, e := range w.exch {
				if e.op.Op == "pub" && e.over == 0 && !e.rec {
					w.ackPub(e.op, e, id, 0)
				}
			}
			w.mu.Unlock()
		}
		for _, op := range []COp{{Op: "pub", QoS: 2, Topic: "t", T: 5000}, {Op: "sub", Subs: []SubT{{F: "probe", Ch: -1}}, T: 5000}, {Op: "unsub", Fs: []string{"probe"}, T: 5000},
			{Op: "ka"}, {Op: "chan"}, {Op: "close", N: len(w.chans)}, {Op: "isconn"}, {Op: "disc", T: 5000}} {
			if w.err != nil {
				break
			}
			o := call(op, 20*time.Second)
			if w.err == nil && clean && o.err != nil {
				w.fail("C25 "+opTag[op.Op], "afterwards: %s returned %v", op.Op, o.err)
			}
		}
		if w.err == nil && clean && w.bad != nil {
			w.fail("C31", "the bytes on the wire are not MQTT packets: %v", w.bad)
		}
	}
	if w.err == nil && !w.cl.IsConnected() {
		conn = false
		w.mu.Lock()
		n := len(w.conn.Out)
		w.mu.Unlock()
		for _, op := range []COp{{Op: "pub", QoS: 1, Topic: "t"}, {Op: "pub", QoS: 0, Topic: "t"}, {Op: "sub", Subs: []SubT{{F: "probe", Ch: -1}}}, {Op: "unsub", Fs: []string{"probe"}},
			{Op: "ka"}, {Op: "chan"}, {Op: "close", N: len(w.chans)}, {Op: "isconn"}, {Op: "disc"}} {
			if w.err != nil {
				break
			}
			o := call(op, 20*time.Second)
			if w.err == nil && (op.Op == "pub" || op.Op == "sub" || op.Op == "unsub" || op.Op == "ka" || op.Op == "disc") && !errors.Is(o.err, mqtt.ErrClientNotConnected) {
				w.fail("C20", "afterwards: %s on a client that is not connected returned %v", op.Op, o.err)
			}
		}
		if w.err == nil && len(w.conn.Out) != n {
			w.fail("C20", "afterwards: %d bytes were written by a client that is not connected", len(w.conn.Out)-n)
		}
	}
	stop = true
	w.conn.Close()
	if w.err == nil {
		t := time.NewTimer(30 * time.Second)
		select {
		case <-pollDone:
		case <-t.C:
			w.fail("C25", "afterwards: polling does not return")
		}
		t.Stop()
	}
}
