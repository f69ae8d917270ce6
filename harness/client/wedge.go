package client

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/storage"
	"github.com/waj334/tinygo-mqtt/mqtt/storage/memory"

	"tinyverif/gen"
	"tinyverif/lib"
	"tinyverif/prop"
	"tinyverif/sched"
	"tinyverif/sim"
	"tinyverif/wire"
)

// wedge.go: whatever the application, the server, the network and the storage do, every call returns, and
// so does every call that follows, on this connection and on the next one. There is no model: a call has a
// deadline, and must have returned a good while after it.

// WFault makes the Skip+1-th call of a kind fail.
type WFault struct {
	Kind string // write, wpart, stall, read, set, store, drop, get
	Skip int    `json:",omitempty"`
	Part int    `json:",omitempty"`
	All  bool   `json:",omitempty"` // and all later ones, until the next connection
}

type WStep struct {
	Op     string
	N      int     `json:",omitempty"`
	QoS    int     `json:",omitempty"`
	ID     int     `json:",omitempty"`
	T      int     `json:",omitempty"` // deadline of the call in ms
	Bg     bool    `json:",omitempty"` // the case goes on without waiting for the call
	F      *WFault `json:",omitempty"`
	Packet []byte  `json:",omitempty"` // from the server
	Kind   string  `json:",omitempty"`
	Code   int     `json:",omitempty"`
}

type WCase struct {
	Cfg   Cfg
	Steps []WStep
}

type wcall struct {
	name string
	by   time.Time
	done chan struct{}
	pan  string
	err  error
}

type wedge struct {
	c     WCase
	info  *prop.Info
	cl    *mqtt.Client
	conn  *sim.Conn
	calls []*wcall
	chans []mqtt.EventChannel
	fault map[string]*WFault
	fired bool
	ended bool // a connection ended
	ids   []uint16
	pos   int
	step  string
	err   error
}

// slack is how long after its deadline a call may take: packets may take 30 seconds to arrive.
const slack = 90 * time.Second

func (w *wedge) hit(kinds ...string) *WFault {
	for _, k := range kinds {
		f := w.fault[k]
		if f == nil {
			continue
		}
		if f.Skip > 0 {
			f.Skip--
			continue
		}
		if !f.All {
			delete(w.fault, k)
		}
		w.fired = true
		w.info.Add("fault %s", k)
		return f
	}
	return nil
}

// call makes a call of the application and waits for it unless bg is set.
func (w *wedge) call(name string, ms int, bg bool, f func(context.Context) error) *wcall {
	d := time.Duration(ms) * time.Millisecond
	ctx, cancel := context.WithTimeout(context.Background(), d)
	x := &wcall{name: w.step + ": " + name, by: time.Now().Add(d + slack), done: make(chan struct{})}
	sched.App(func() {
		defer close(x.done)
		defer cancel()
		defer func() {
			if r := recover(); r != nil {
				x.pan = prop.PanicText(r)
			}
		}()
		x.err = f(ctx)
	})
	if bg {
		w.calls = append(w.calls, x)
		time.Sleep(10 * time.Microsecond)
		synctest.Wait()
	} else {
		w.await(x)
	}
	return x
}

func (w *wedge) await(x *wcall) {
	if w.err != nil {
		return
	}
	t := time.NewTimer(max(time.Until(x.by), time.Millisecond))
	defer t.Stop()
	select {
	case <-x.done:
	case <-t.C:
		w.err = fmt.Errorf("%s does not return", x.name)
		return
	}
	if x.pan != "" {
		w.err = fmt.Errorf("%s: %s", x.name, x.pan)
	}
}

func (w *wedge) connect(re *Cfg) {
	w.conn.Reopen()
	w.fault = map[string]*WFault{}
	w.arm()
	ack := &wire.Packet{Type: wire.CONNACK}
	if re.ServerRM > 0 {
		ack.Props = append(ack.Props, wire.Prop{ID: 0x21, Num: uint32(re.ServerRM)})
	}
	w.conn.Push(0, ack.Encode())
	x := w.call("Connect", 5000, false, func(ctx context.Context) error {
		return w.cl.Connect(ctx, &packets.Connect{Version: packets.MQTT5, ClientId: "c", KeepAlive: lib.U16(re.KA), ReceiveMaximum: lib.U16(re.ClientRM), SessionExpiryInterval: lib.U32(re.Expiry)})
	})
	if w.err == nil && x.err != nil {
		w.err = fmt.Errorf("%s: connecting failed: %v", w.step, x.err)
	}
	w.pos = len(w.conn.Out)
}

func (w *wedge) arm() {
	w.conn.WriteErr = func(n, size int) (int, error) {
		f := w.hit("write", "wpart", "stall")
		switch {
		case f == nil:
			return size, nil
		case f.Kind == "write":
			return 0, sim.ErrFault
		case f.Kind == "stall":
			return min(size-1, f.Part), sim.ErrStall
		}
		return max(1, min(size-1, f.Part)), sim.ErrFault
	}
	w.conn.ReadErr = func(int) error {
		if w.hit("read") != nil {
			return sim.ErrFault
		}
		return nil
	}
	w.conn.SetErr = func(int) error {
		if w.hit("set") != nil {
			return sim.ErrFault
		}
		return nil
	}
}

// use collects the identifiers the client uses.
func (w *wedge) use() {
	ps, rest, err := wire.DecodeAll(w.conn.Out[w.pos:])
	if err != nil {
		w.pos = len(w.conn.Out)
		return
	}
	w.pos = len(w.conn.Out) - len(rest)
	for _, p := range ps {
		if p.ID != 0 && p.Type != wire.PUBACK && p.Type != wire.PUBREC && p.Type != wire.PUBCOMP {
			w.ids = append(w.ids, p.ID)
		}
	}
}

// id of a packet of the server: mostly one the client used.
func (w *wedge) id(s WStep) uint16 {
	if s.ID > 0 {
		return uint16(s.ID)
	}
	if len(w.ids) == 0 {
		return 1
	}
	return w.ids[max(0, len(w.ids)-1-s.N%8)]
}

func (w *wedge) server(s WStep) *wire.Packet {
	p := &wire.Packet{ID: w.id(s), Reason: byte(s.Code), HasReason: s.Code != 0}
	switch s.Kind {
	case "publish":
		p.Type, p.Flags, p.Topic, p.Payload, p.Reason, p.HasReason = wire.PUBLISH, byte(s.QoS)<<1, "a", "x", 0, false
		if s.QoS == 0 {
			p.ID = 0
		}
	case "puback":
		p.Type = wire.PUBACK
	case "pubrec":
		p.Type = wire.PUBREC
	case "pubrel":
		p.Type, p.Flags = wire.PUBREL, 2
	case "pubcomp":
		p.Type = wire.PUBCOMP
	case "suback", "unsuback":
		p.Type, p.Reasons, p.Reason, p.HasReason = wire.SUBACK, []byte{byte(s.Code), 0, 1}[:1+s.N%3], 0, false
		if s.Kind == "unsuback" {
			p.Type = wire.UNSUBACK
		}
	case "disconnect":
		p = &wire.Packet{Type: wire.DISCONNECT}
	case "auth":
		p = &wire.Packet{Type: wire.AUTH}
	default:
		p = &wire.Packet{Type: wire.PINGRESP}
	}
	return p
}

func (w *wedge) do(s WStep) {
	ms := max(1, s.T)
	switch s.Op {
	case "pub":
		p := &packets.Publish{Topic: "a", QoS: packets.QoS(s.QoS), PacketIdentifier: lib.U16(s.ID), Payload: []byte("x")}
		if s.N > 0 {
			spoil(p, s.N-1)
		}
		w.call("Publish", ms, s.Bg, func(ctx context.Context) error { return w.cl.Publish(ctx, p) })
	case "sub":
		t := mqtt.Topic{}
		t.SetFilter([]string{"a", "b", "#", tooLong}[s.N%4])
		if len(w.chans) > 0 {
			t.SetEventChannel(w.chans[s.ID%len(w.chans)])
		}
		w.call("Subscribe", ms, s.Bg, func(ctx context.Context) error { return w.cl.Subscribe(ctx, []mqtt.Topic{t}) })
	case "unsub":
		f := []string{"a", "b", "#", tooLong}[s.N%4]
		w.call("Unsubscribe", ms, s.Bg, func(ctx context.Context) error { return w.cl.Unsubscribe(ctx, []string{f}) })
	case "ka":
		delete(w.fault, "stall") // without a keep-alive interval it has no deadline
		w.call("KeepAlive", ms, false, func(context.Context) error { return w.cl.KeepAlive() })
	case "kai":
		w.call("KeepAliveInterval", ms, false, func(context.Context) error { w.cl.KeepAliveInterval(); return nil })
	case "chan":
		w.newChan(s.N)
	case "close":
		if len(w.chans) > 0 {
			ch := w.chans[s.N%len(w.chans)]
			w.call("CloseEventChannel", ms, false, func(context.Context) error { w.cl.CloseEventChannel(ch); return nil })
		}
	case "drain":
		for _, ch := range w.chans {
			for len(ch.C) > 0 {
				<-ch.C
			}
		}
	case "disc":
		w.call("Disconnect", ms, s.Bg, func(ctx context.Context) error { return w.cl.DisconnectWithSessionExpiry(ctx, s.N&1 == 1, s.N) })
	case "poll":
		w.poll(ms)
	case "sleep":
		time.Sleep(time.Duration(ms) * time.Millisecond)
	case "eof":
		w.conn.EOF()
	case "break": // the application closes the network connection itself
		w.conn.Close()
	case "in":
		w.use()
		w.conn.Push(0, w.server(s).Encode())
		w.poll(ms)
	case "raw":
		w.conn.Push(0, s.Packet)
		w.poll(ms)
	case "fault":
		f := *s.F
		w.fault[f.Kind] = &f
	case "conn":
		if w.isConnected() || w.err != nil {
			return
		}
		w.reconnect(s)
	}
}

func (w *wedge) reconnect(s WStep) {
	for _, x := range w.calls { // calls of the last connection
		w.await(x)
	}
	w.calls = nil
	if w.err != nil {
		return
	}
	w.conn.Close()
	re := w.c.Cfg
	re.ServerRM, re.ClientRM = s.N%4, s.QoS
	w.connect(&re)
	w.ended = true
}

func (w *wedge) poll(ms int) {
	w.call("Poll", ms, false, func(ctx context.Context) error { return w.cl.Poll(ctx) })
}

func (w *wedge) newChan(n int) {
	w.call("CreateEventChannel", 1, false, func(context.Context) error {
		w.chans = append(w.chans, w.cl.CreateEventChannel(n))
		return nil
	})
}

func (w *wedge) isConnected() (r bool) {
	w.call("IsConnected", 1, false, func(context.Context) error { r = w.cl.IsConnected(); return nil })
	return
}

// all makes every call once.
func (w *wedge) all(when string) {
	for i, op := range []string{"kai", "chan", "pub", "pub", "sub", "unsub", "in", "in", "poll", "ka", "close", "kai"} {
		w.step = when
		w.do(WStep{Op: op, T: 30, QoS: i - 2, N: 0, Kind: "publish"})
		if w.err != nil {
			return
		}
	}
}

func (w *wedge) run() {
	cfg := w.c.Cfg
	w.conn = sim.NewConn()
	w.conn.Chunk = cfg.Chunk
	if cfg.CloseErr {
		w.conn.CloseErr = sim.ErrFault
	}
	w.cl = mqtt.NewClient(w.conn)
	var st storage.Storage
	switch cfg.Store {
	case 1:
		rec := sim.NewStore()
		if len(cfg.Free) > 0 {
			for i := 1; i < 65536; i++ {
				if !slices.Contains(cfg.Free, uint16(i)) {
					rec.Put(uint16(i), &packets.Pubrel{})
				}
			}
		}
		rec.Fail = func(_ int, op byte, _ uint16) error {
			if w.hit(map[byte]string{'S': "store", 'D': "drop", 'G': "get"}[op]) != nil {
				return sim.ErrFault
			}
			return nil
		}
		st = rec
	case 2:
		st = memory.NewStorage()
	}
	if st != nil {
		for _, id := range cfg.Held {
			st.Store(id, &packets.Pubrel{})
		}
		w.cl.SetStorage(st)
	}
	i := uint32(0)
	w.cl.SetRngFn(func() uint32 {
		i++
		if n := uint32(len(cfg.Rng)); n > 0 {
			return cfg.Rng[(i-1)%n]
		}
		return i * 2654435761 >> 3
	})
	defer func() {
		w.conn.Close()
		time.Sleep(time.Millisecond)
		synctest.Wait()
	}()
	w.step = "connect"
	for _, k := range cfg.Caps {
		w.newChan(k)
	}
	w.connect(&cfg)
	for k, s := range w.c.Steps {
		w.step = fmt.Sprintf("step %d %s %s", k, s.Op, s.Kind)
		w.do(s)
		if w.err != nil {
			return
		}
	}
	w.fault = map[string]*WFault{}
	w.all("afterwards")
	for _, x := range w.calls {
		w.await(x)
	}
	w.calls = nil
	w.step = "at the end"
	for k := 0; k < 2 && w.err == nil; k++ {
		w.do(WStep{Op: "disc", T: 100})
	}
	if w.err == nil && !w.isConnected() && w.err == nil {
		w.step = "connecting again"
		w.reconnect(WStep{N: 2, QoS: 3})
		if w.err == nil {
			w.all("on the next connection")
		}
	}
	w.info.NonTrivial = w.fired || w.ended
}

var wOps = []string{"pub", "sub", "unsub", "ka", "kai", "chan", "close", "drain", "disc", "poll", "sleep", "eof", "break", "in", "raw", "fault", "conn"}
var wKinds = []string{"publish", "puback", "pubrec", "pubrel", "pubcomp", "suback", "unsuback", "disconnect", "auth", "pingresp"}

func genWedge(t *rapid.T) (c WCase) {
	c.Cfg.ServerRM = gen.Pick(t, "srm", []int{0, 1, 2, 3})
	c.Cfg.ClientRM = gen.Pick(t, "crm", []int{0, 1, 2, 3})
	c.Cfg.KA = gen.Pick(t, "ka", []int{0, 1, 60})
	c.Cfg.Store = gen.Pick(t, "store", []int{0, 1, 1, 1, 2})
	c.Cfg.CloseErr = gen.Chance(t, "closeerr", 10)
	if gen.Chance(t, "expiry", 30) {
		c.Cfg.Expiry = 100
	}
	if gen.Chance(t, "rng", 30) {
		c.Cfg.Rng = []uint32{uint32(gen.Int(t, "r", 0, 3))}
	}
	if c.Cfg.Store == 1 && gen.Chance(t, "full", 6) {
		for i := gen.Int(t, "nfree", 1, 3); i > 0; i-- {
			c.Cfg.Free = append(c.Cfg.Free, uint16(gen.Pick(t, "free", []int{1, 2, 300, 65535})))
		}
	} else if c.Cfg.Store > 0 && gen.Chance(t, "held", 30) {
		for i := gen.Int(t, "nheld", 1, 4); i > 0; i-- {
			c.Cfg.Held = append(c.Cfg.Held, uint16(gen.Int(t, "id", 1, 6)))
		}
	}
	for i := gen.Int(t, "chans", 0, 3); i > 0; i-- {
		c.Cfg.Caps = append(c.Cfg.Caps, gen.Pick(t, "cap", []int{1, 1, 2, 100}))
	}
	weights := w{"pub": 14, "sub": 5, "unsub": 4, "ka": 3, "kai": 1, "chan": 1, "close": 3, "drain": 1, "disc": 2, "poll": 2, "sleep": 2, "eof": 1, "break": 1, "in": 24, "raw": 1, "fault": 10, "conn": 4}
	for n := gen.Int(t, "len", 3, 40); n > 0; n-- {
		s := WStep{Op: pickW(t, weights, wOps)}
		s.T = gen.Pick(t, "t", []int{1, 5, 20, 200})
		switch s.Op {
		case "pub":
			s.QoS = gen.Pick(t, "qos", []int{0, 1, 1, 2, 2, 2})
			if gen.Chance(t, "explicit", 10) {
				s.ID = gen.Int(t, "id", 1, 6)
			}
			if gen.Chance(t, "bad", 6) {
				s.N = gen.Int(t, "how", 1, 6)
			}
			s.Bg = gen.Chance(t, "bg", 30)
		case "sub", "unsub":
			s.N = gen.Pick(t, "f", []int{0, 0, 0, 0, 1, 1, 1, 2, 2, 3})
			s.ID = gen.Int(t, "ch", 0, 5)
			s.Bg = gen.Chance(t, "bg", 70)
		case "chan", "close":
			s.N = gen.Int(t, "n", 0, 5)
		case "disc":
			s.N = gen.Int(t, "n", 0, 3)
		case "sleep":
			s.T = gen.Pick(t, "ms", []int{1, 20, 300, 2500, 130000})
		case "in":
			s.Kind = gen.Pick(t, "kind", append([]string{"publish", "publish", "publish", "puback", "pubrec", "pubrec", "pubrel", "pubcomp", "suback", "unsuback"}, wKinds...))
			if s.Kind == "disconnect" && gen.Chance(t, "no", 50) {
				s.Kind = "publish"
			}
			s.QoS = gen.Pick(t, "qos", []int{0, 1, 2, 2, 2})
			s.N = gen.Pick(t, "n", []int{0, 0, 0, 1, 2, 3, 7})
			if s.Kind == "publish" || s.Kind == "pubrel" || gen.Chance(t, "anyid", 20) {
				s.ID = gen.Int(t, "id", 1, 6)
			}
			if s.Kind != "publish" && gen.Chance(t, "code", 20) {
				s.Code = gen.Pick(t, "code", []int{0x10, 0x80, 0x87, 0x97})
			}
		case "raw":
			s.Packet = rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "raw")
		case "fault":
			s.F = &WFault{Kind: gen.Pick(t, "kind", []string{"write", "write", "wpart", "wpart", "stall", "read", "set", "store", "store", "drop", "drop", "drop", "get"}),
				Skip: gen.Pick(t, "skip", []int{0, 0, 0, 1, 2}), Part: gen.Int(t, "part", 0, 8), All: gen.Chance(t, "all", 25)}
		case "conn":
			if gen.Chance(t, "end", 70) { // end the connection first
				c.Steps = append(c.Steps, WStep{Op: gen.Pick(t, "how", []string{"disc", "in"}), T: 20, Kind: "disconnect"})
			}
			s.N, s.QoS = gen.Int(t, "srm", 0, 3), gen.Int(t, "crm", 0, 3)
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

// RunWedge runs a case.
func RunWedge(t *testing.T, c WCase) (info prop.Info, err error) {
	w := &wedge{c: c, info: &info, fault: map[string]*WFault{}}
	perr := Bubble(t, w.run)
	if w.err != nil {
		return info, w.err
	}
	if perr != nil {
		return info, errors.New("calls never return: " + perr.Error())
	}
	return info, nil
}

func wedged(t *testing.T, id string, quick, thorough int) {
	prop.Check(t, prop.Spec[WCase]{Crashy: true, ID: id, Part: "usable", Quick: quick, Thorough: thorough, Gen: genWedge,
		Rule: "a fault struck, or the client was connected again",
		Run:  func(c WCase) (prop.Info, error) { return RunWedge(t, c) }})
}
