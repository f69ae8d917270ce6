package client

import (
	"context"
	"errors"
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"

	"pgregory.net/rapid"

	"tinyverif/codec"
	"tinyverif/gen"
	"tinyverif/lib"
	"tinyverif/prop"
	"tinyverif/sched"
	"tinyverif/sim"
	"tinyverif/wire"
)

// ConnCase is one Connect call against one answer.
type ConnCase struct {
	Connect codec.ConnectCase
	DL      int            // deadline in ms, 0: none
	In      *codec.In      `json:",omitempty"` // the answer, well-formed
	Raw     *codec.RawCase `json:",omitempty"` // or arbitrary
	Cut     int            // the stream ends after that many thousandths of the answer (1000: complete)
	Silence bool           // after the cut nothing happens (otherwise end of file)
	Delay   []int          `json:",omitempty"`
	WFail   int            // -1 none, else thousandths of the CONNECT written before the failure
	WStall  bool           `json:",omitempty"` // it is not a failure: the write blocks there until its deadline
	SetFail int            `json:",omitempty"`
	RdFail  int            `json:",omitempty"`
	Caps    []int          `json:",omitempty"`
	More    bool           // further packets follow the answer
	Chunk   []int          `json:",omitempty"`
	Bad     bool           `json:",omitempty"` // a CONNECT that cannot be encoded
}

func genConn(t *rapid.T) (c ConnCase) {
	c.Connect = codec.GenConnect(t)
	c.WFail, c.Cut = -1, 1000
	if gen.Chance(t, "dl?", 60) {
		c.DL = gen.Pick(t, "dl", []int{1, 50, 1000, 5000})
	}
	switch k := gen.Int(t, "answer", 0, 9); {
	case k < 5:
		x := codec.GenIn(t, []byte{wire.CONNACK}, 400)
		if gen.Chance(t, "accept", 60) {
			x.Reason = 0
		}
		c.In = &x
	case k < 6:
		x := codec.GenIn(t, []byte{wire.PUBLISH, wire.PUBACK, wire.SUBACK, wire.DISCONNECT, wire.AUTH, wire.PINGRESP, wire.PUBREL}, 100)
		c.In = &x
	default:
		x := codec.GenRaw([]byte{wire.CONNACK})(t)
		c.Raw = &x
	}
	if gen.Chance(t, "cut?", 15) {
		c.Cut = gen.Int(t, "cut", 0, 999)
	}
	if c.DL > 0 {
		c.Silence = rapid.Bool().Draw(t, "silence")
	}
	if gen.Chance(t, "delay?", 35) {
		c.Delay = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 20, 49, 51, 700, 2500}), 1, 4).Draw(t, "delay")
	}
	if gen.Chance(t, "fault?", 20) {
		switch gen.Int(t, "which", 0, 2) {
		case 0:
			c.WFail = gen.Int(t, "wfail", 0, 999)
			c.WStall = c.DL > 0 && gen.Chance(t, "wstall", 60)
		case 1:
			c.SetFail = gen.Int(t, "setfail", 1, 2)
		default:
			c.RdFail = gen.Int(t, "rdfail", 1, 9)
		}
	}
	for i := gen.Int(t, "nchans", 0, 3); i > 0; i-- {
		c.Caps = append(c.Caps, gen.Int(t, "cap", -1, 3))
	}
	c.More = gen.Chance(t, "more", 30)
	c.Bad = gen.Chance(t, "bad", 2)
	if gen.Chance(t, "chunk?", 40) {
		c.Chunk = codec.GenSizes(t)
	}
	return c
}

func C18(t *testing.T) {
	prop.Check(t, prop.Spec[ConnCase]{Crashy: true, ID: "C18", Part: "connect", Quick: 25000, Thorough: 400000,
		Rule: "the answer is not a plain successful CONNACK, or it negotiates something",
		Gen:  genConn,
		Run: func(c ConnCase) (info prop.Info, err error) {
			if e := Bubble(t, func() { err = runConn(c, &info) }); err == nil && e != nil {
				err = e
			}
			return
		}})
	again(t)
}

func runConn(c ConnCase, info *prop.Info) (err error) {
	conn := sim.NewConn()
	conn.Chunk = c.Chunk
	cl := mqtt.NewClient(conn)
	defer func() { conn.Close(); time.Sleep(time.Millisecond); synctest.Wait() }()
	var chans []mqtt.EventChannel
	for _, n := range c.Caps {
		chans = append(chans, cl.CreateEventChannel(n))
	}
	// the answer
	var full []byte
	var v codec.Verdict
	var typ byte
	if c.In != nil {
		p := c.In.Packet()
		full = p.Encode()
		typ = p.Type
		v = codec.Verdict{Exact: p}
	} else {
		hdr, body, declared, _ := c.Raw.Bytes()
		typ = hdr >> 4
		full = append(wire.AppendVar([]byte{hdr}, uint32(declared)), body...)
		v = codec.Judge(hdr, body, declared)
		if len(body) > declared {
			full = full[:len(full)-len(body)+declared]
		}
	}
	size := len(full)
	short := len(full) * c.Cut / 1000
	cut := c.Cut < 1000 && short < len(full)
	if cut {
		full = full[:short]
		v = codec.Verdict{MustReject: true, Why: errors.New("cut")}
	}
	incomplete := cut || v.MustReject && c.Raw != nil
	start := time.Now()
	var at time.Duration
	if len(c.Delay) > 0 && len(full) > 0 {
		n := min(len(c.Delay), len(full))
		for i := 0; i < n; i++ {
			at += time.Duration(c.Delay[i]) * time.Millisecond
			conn.Push(at, full[i*len(full)/n:(i+1)*len(full)/n])
		}
	} else {
		conn.Push(0, full)
	}
	if c.More && !incomplete {
		conn.Push(at, (&wire.Packet{Type: wire.PUBLISH, Topic: "x"}).Encode())
	}
	if !c.Silence || c.DL == 0 {
		conn.EOF()
	}
	hit := false
	if c.WFail >= 0 {
		conn.WriteErr = func(_, n int) (int, error) {
			hit = true
			if c.WStall {
				return n * c.WFail / 1000, sim.ErrStall
			}
			return n * c.WFail / 1000, sim.ErrFault
		}
	}
	if c.SetFail > 0 {
		conn.SetErr = func(n int) error {
			if n == c.SetFail {
				hit = true
				return sim.ErrFault
			}
			return nil
		}
	}
	if c.RdFail > 0 {
		conn.ReadErr = func(n int) error {
			if n == c.RdFail {
				hit = true
				return sim.ErrFault
			}
			return nil
		}
	}
	ctx := context.Background()
	late := false
	var dl, end time.Time
	if c.DL > 0 {
		dl = start.Add(time.Duration(c.DL) * time.Millisecond)
		if d := dl.Sub(start.Add(at)); d > -time.Millisecond && d < time.Millisecond {
			dl = dl.Add(2 * time.Millisecond)
		}
		late = dl.Before(start.Add(at))
		var cancel context.CancelFunc
		ctx, cancel = context.WithDeadline(ctx, dl)
		defer cancel()
	}
	var cerr error
	pan := ""
	done := make(chan struct{})
	sched.App(func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				pan = prop.PanicText(r)
			}
		}()
		p := c.Connect.Lib()
		if c.Bad {
			p.ClientId = lib.S(tooLong)
		}
		cerr = cl.Connect(ctx, p)
		end = time.Now()
	})
	tm := time.NewTimer(time.Minute)
	defer tm.Stop()
	select {
	case <-done:
	case <-tm.C:
		return errors.New("Connect does not return")
	}
	if pan != "" {
		return errors.New(pan)
	}
	if c.DL > 0 && end.Sub(dl) > 500*time.Millisecond {
		return fmt.Errorf("Connect returned (%v) %v after its deadline", cerr, end.Sub(dl))
	}
	if hit && c.WStall {
		info.Add("write blocks")
		if end.Before(dl) {
			return fmt.Errorf("Connect returned (%v) %v before its deadline while its write was blocked", cerr, dl.Sub(end))
		}
	}
	conn.WriteErr, conn.SetErr, conn.ReadErr = nil, nil, nil
	if c.Bad {
		hit = true
		info.Add("cannot be encoded")
		if len(conn.Out) > 0 {
			return fmt.Errorf("%d bytes written of a CONNECT that cannot be encoded", len(conn.Out))
		}
	}
	// what was sent
	if !hit {
		ps, rest, derr := wire.DecodeAll(conn.Out)
		if derr != nil || len(rest) > 0 || len(ps) != 1 {
			return fmt.Errorf("%d packets sent (%v, %d bytes left), want one CONNECT", len(ps), derr, len(rest))
		}
		if d := codec.DiffConnect(ps[0], c.Connect.Expect()); d != "" {
			return fmt.Errorf("CONNECT on the wire: %s", d)
		}
	}
	refused := v.Exact != nil && typ == wire.CONNACK && v.Exact.Reason >= 0x80 && !late && !hit
	must := v.Exact != nil && typ == wire.CONNACK && v.Exact.Reason < 0x80 && !late && !hit
	mustFail := v.MustReject || late || hit || typ != wire.CONNACK || refused
	info.NonTrivial = !must || len(v.Exact.Props) > 0
	switch {
	case must:
		info.Add("accepted")
	case hit:
		info.Add("fault")
	case late:
		info.Add("late")
	case cut:
		info.Add("cut")
	case refused:
		info.Add("refused")
	case typ != wire.CONNACK:
		info.Add("other packet")
	case v.MustReject:
		info.Add("malformed")
	default:
		info.Add("questionable")
	}
	if must && cerr != nil {
		return fmt.Errorf("answer %v: Connect failed: %v", v.Exact, cerr)
	}
	if mustFail && cerr == nil {
		return fmt.Errorf("Connect succeeded (fault %v, late %v, cut %v, packet type %d, malformed: %v)", hit, late, cut, typ, v.Why)
	}
	if refused {
		var rc mqtt.ReasonCode
		if !errors.As(cerr, &rc) || byte(rc) != v.Exact.Reason {
			return fmt.Errorf("refused with 0x%02x: Connect returned %v", v.Exact.Reason, cerr)
		}
		if !conn.Closed() {
			return errors.New("the connection is open after the server refused it")
		}
	}
	if cl.IsConnected() != (cerr == nil) {
		return fmt.Errorf("Connect returned %v but connected is %v", cerr, cl.IsConnected())
	}
	for i, ch := range chans {
		want := 0
		if cerr == nil {
			want = 1
		}
		if len(ch.C) != want {
			return fmt.Errorf("Connect returned %v: channel %d holds %d events", cerr, i, len(ch.C))
		}
		if want == 1 {
			e := <-ch.C
			if e.PacketType != packets.CONNACK {
				return fmt.Errorf("event of type %d", e.PacketType)
			}
			if v.Exact != nil {
				if d := lib.Diff(lib.Convert(e.Data), v.Exact); d != "" {
					return fmt.Errorf("CONNACK event: %s", d)
				}
			}
		}
	}
	if cerr == nil && must {
		k := time.Duration(c.Connect.KeepAlive) * time.Second
		for _, p := range v.Exact.Props {
			if p.ID == 0x13 && p.Num > 0 {
				k = time.Duration(p.Num) * time.Second
				info.Add("server keep alive")
			}
		}
		if g := cl.KeepAliveInterval(); g != k {
			return fmt.Errorf("keep-alive interval %v, want %v", g, k)
		}
		if conn.Closed() {
			return errors.New("connection closed although Connect succeeded")
		}
		if n := conn.ReadTotal(); n != int64(size) {
			return fmt.Errorf("Connect consumed %d bytes of a CONNACK of %d", n, size)
		}
	}
	if cerr != nil {
		n := len(conn.Out)
		if e := cl.Publish(context.Background(), &packets.Publish{Topic: "t"}); !errors.Is(e, mqtt.ErrClientNotConnected) {
			return fmt.Errorf("after Connect failed with %v Publish returned %v", cerr, e)
		}
		if len(conn.Out) != n {
			return errors.New("written although not connected")
		}
	}
	return nil
}

// ---------------------------------------------------------------- C30: codes through Connect

type CodeCase struct{ Code byte }

func connectCodes(t *testing.T) {
	prop.Check(t, prop.Spec[codec.In]{ID: "C30", Part: "connect", Quick: 6000, Thorough: 30000,
		Rule: "every case: the server refuses the connection",
		Gen: func(t *rapid.T) codec.In {
			x := codec.GenIn(t, []byte{wire.CONNACK}, 60)
			x.Reason, x.SP = byte(gen.Int(t, "code", 0x80, 0xA2)), 0
			return x
		},
		Run: func(in codec.In) (info prop.Info, err error) {
			info.NonTrivial = true
			e := Bubble(t, func() {
				conn := sim.NewConn()
				p := in.Packet()
				conn.Push(0, p.Encode())
				cerr := mqtt.NewClient(conn).Connect(context.Background(), &packets.Connect{ClientId: "c"})
				var rc mqtt.ReasonCode
				if !errors.As(cerr, &rc) || byte(rc) != p.Reason {
					err = fmt.Errorf("refused with 0x%02x: Connect returned %v", p.Reason, cerr)
				} else if p.Reason != 0 {
					err = codec.CheckReason(p.Reason, cerr.Error())
				}
			})
			if err == nil {
				err = e
			}
			return
		}})
}

// ---------------------------------------------------------------- C20: never connected

type NeverCase struct {
	How int // 0 never, 1 refused, 2 wrong packet, 3 end of file, 4 failed write
	Ops []string
	RM  int
}

func neverConnected(t *testing.T) {
	prop.Check(t, prop.Spec[NeverCase]{Crashy: true, ID: "C20", Part: "never connected", Quick: 4000, Thorough: 40000,
		Rule: "every case: operations on a client that never was connected or whose connection attempt failed",
		Gen: func(t *rapid.T) NeverCase {
			return NeverCase{How: gen.Int(t, "how", 0, 4), RM: gen.Int(t, "rm", 1, 3),
				Ops: rapid.SliceOfN(rapid.SampledFrom([]string{"disc", "discexp", "pub0", "pub1", "pub2", "sub", "unsub", "ka", "poll", "close"}), 1, 12).Draw(t, "ops")}
		},
		Run: func(c NeverCase) (info prop.Info, err error) {
			info.NonTrivial = true
			if e := Bubble(t, func() { err = runNever(c, &info) }); err == nil && e != nil {
				err = e
			}
			return
		}})
}

func runNever(c NeverCase, info *prop.Info) error {
	conn := sim.NewConn()
	defer func() { conn.Close(); time.Sleep(time.Millisecond); synctest.Wait() }()
	cl := mqtt.NewClient(conn)
	ch := cl.CreateEventChannel(50)
	bg := context.Background()
	call := func(name string, f func() error) (err error, bad error) {
		done := make(chan struct{})
		pan := ""
		sched.App(func() {
			defer close(done)
			defer func() {
				if r := recover(); r != nil {
					pan = prop.PanicText(r)
				}
			}()
			err = f()
		})
		tm := time.NewTimer(time.Minute)
		defer tm.Stop()
		select {
		case <-done:
		case <-tm.C:
			return nil, fmt.Errorf("%s does not return on a client that is not connected", name)
		}
		if pan != "" {
			return nil, fmt.Errorf("%s: %s", name, pan)
		}
		return err, nil
	}
	var cerr error
	connect := func() error { return cl.Connect(bg, &packets.Connect{ClientId: "c"}) }
	switch c.How {
	case 1:
		conn.Push(0, (&wire.Packet{Type: wire.CONNACK, Reason: 0x87}).Encode())
	case 2:
		conn.Push(0, (&wire.Packet{Type: wire.PINGRESP}).Encode())
	case 3:
		conn.EOF()
	case 4:
		conn.WriteErr = func(_, n int) (int, error) { return n / 2, sim.ErrFault }
	}
	if c.How > 0 {
		var bad error
		if cerr, bad = call("connect", connect); bad != nil {
			return bad
		}
		if cerr == nil {
			return errors.New("Connect succeeded although it failed")
		}
		conn.WriteErr = nil
	}
	n := len(conn.Out)
	for _, op := range c.Ops {
		f := map[string]func() error{
			"disc":    func() error { return cl.Disconnect(bg, true) },
			"discexp": func() error { return cl.DisconnectWithSessionExpiry(bg, false, 5) },
			"pub0":    func() error { return cl.Publish(bg, &packets.Publish{Topic: "t"}) },
			"pub1":    func() error { return cl.Publish(bg, &packets.Publish{Topic: "t", QoS: 1}) },
			"pub2":    func() error { return cl.Publish(bg, &packets.Publish{Topic: "t", QoS: 2}) },
			"sub": func() error {
				var tp mqtt.Topic
				tp.SetFilter("t")
				tp.SetEventChannel(ch)
				return cl.Subscribe(bg, []mqtt.Topic{tp})
			},
			"unsub": func() error { return cl.Unsubscribe(bg, []string{"t"}) },
			"ka":    cl.KeepAlive,
			"poll":  func() error { return cl.Poll(bg) },
			"close": func() error { cl.CloseEventChannel(cl.CreateEventChannel(1)); return mqtt.ErrClientNotConnected },
		}[op]
		err, bad := call(op, f)
		if bad != nil {
			return bad
		}
		if !errors.Is(err, mqtt.ErrClientNotConnected) {
			return fmt.Errorf("%s on a client that is not connected returned %v", op, err)
		}
		if len(conn.Out) != n {
			return fmt.Errorf("%s wrote to the network although not connected", op)
		}
		if cl.IsConnected() || len(ch.C) > 0 {
			return fmt.Errorf("%s: connected %v, %d events", op, cl.IsConnected(), len(ch.C))
		}
	}
	info.Add("how %d", c.How)
	if c.How != 0 {
		return nil
	}
	// the client is still usable: connect and use the whole send quota
	ack := &wire.Packet{Type: wire.CONNACK, Props: []wire.Prop{{ID: 0x21, Num: uint32(c.RM)}}}
	conn.Push(0, ack.Encode())
	err, bad := call("connect", connect)
	if bad != nil {
		return bad
	}
	if err != nil || !cl.IsConnected() {
		return fmt.Errorf("after operations without a connection Connect returned %v", err)
	}
	for i := 0; i < c.RM; i++ {
		err, bad := call("publish", func() error { return cl.Publish(bg, &packets.Publish{Topic: "t", QoS: 1}) })
		if bad != nil || err != nil {
			return fmt.Errorf("publish %d of %d after connecting: %v %v", i+1, c.RM, err, bad)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C07: arbitrary bytes through a connected client

func clientRaw(t *testing.T) {
	g := codec.GenRaw([]byte{wire.PUBLISH, wire.PUBACK, wire.PUBREC, wire.PUBREL, wire.PUBCOMP, wire.SUBACK, wire.UNSUBACK, wire.DISCONNECT, wire.AUTH, wire.PINGRESP})
	prop.Check(t, prop.Spec[codec.RawCase]{Crashy: true, ID: "C07", Part: "client", Quick: 20000, Thorough: 300000,
		Rule: "bytes that are not a well-formed packet",
		Gen:  g,
		Run: func(c codec.RawCase) (info prop.Info, err error) {
			if e := Bubble(t, func() { err = runClientRaw(c, &info) }); err == nil && e != nil {
				err = e
			}
			return
		}})
}

func runClientRaw(c codec.RawCase, info *prop.Info) error {
	hdr, body, declared, _ := c.Bytes()
	v := codec.Judge(hdr, body, declared)
	typ := hdr >> 4
	switch typ {
	case wire.PUBLISH, wire.PUBACK, wire.PUBREC, wire.PUBREL, wire.PUBCOMP, wire.SUBACK, wire.UNSUBACK, wire.DISCONNECT, wire.AUTH, wire.PINGRESP:
	default:
		// packets a server never sends once connected
		v.MustReject, v.Exact = typ != wire.CONNACK, nil
		info.Add("unexpected type")
	}
	conn := sim.NewConn()
	defer func() { conn.Close(); time.Sleep(time.Millisecond); synctest.Wait() }()
	cl := mqtt.NewClient(conn)
	ch := cl.CreateEventChannel(50)
	bound := cl.CreateEventChannel(50)
	conn.Push(0, (&wire.Packet{Type: wire.CONNACK}).Encode())
	if err := cl.Connect(context.Background(), &packets.Connect{ClientId: "c"}); err != nil {
		return nil
	}
	// a bound channel, so that routing is exercised
	sub := make(chan error, 1)
	sched.App(func() {
		var a, b mqtt.Topic
		a.SetFilter("#")
		a.SetEventChannel(bound)
		b.SetFilter("a/+/b")
		b.SetEventChannel(bound)
		sub <- cl.Subscribe(context.Background(), []mqtt.Topic{a, b})
	})
	time.Sleep(time.Millisecond)
	ps, _, _ := wire.DecodeAll(conn.Out)
	if len(ps) != 2 {
		return nil
	}
	conn.Push(0, (&wire.Packet{Type: wire.SUBACK, ID: ps[1].ID, Reasons: []byte{0, 0}}).Encode())
	pctx, pc := context.WithTimeout(context.Background(), 10*time.Millisecond)
	cl.Poll(pctx)
	pc()
	time.Sleep(time.Millisecond)
	for len(ch.C) > 0 {
		<-ch.C
	}
	for len(bound.C) > 0 {
		<-bound.C
	}
	full := append(wire.AppendVar([]byte{hdr}, uint32(declared)), body...)
	hlen := len(full) - len(body)
	next := &wire.Packet{Type: wire.PUBLISH, Topic: "a/next/b", Payload: "the packet after it"}
	whole := len(body) >= declared
	if whole {
		full = append(full[:hlen+declared:hlen+declared], next.Encode()...)
	}
	conn.Push(0, full)
	conn.EOF()
	done := make(chan struct{})
	pan := ""
	var perr error
	sched.App(func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				pan = prop.PanicText(r)
			}
		}()
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Millisecond)
		defer cancel()
		perr = cl.Poll(ctx)
	})
	tm := time.NewTimer(2 * time.Minute)
	defer tm.Stop()
	select {
	case <-done:
	case <-tm.C:
		return fmt.Errorf("Poll does not return on header %02x remaining length %d body % x", hdr, declared, clipB(body))
	}
	if pan != "" {
		return fmt.Errorf("header %02x remaining length %d body % x: %s", hdr, declared, clipB(body), pan)
	}
	name := wire.Names[typ]
	info.Add("%s", name)
	switch {
	case v.Exact != nil:
		info.Add("well-formed")
		for len(ch.C) > 0 {
			e := <-ch.C
			if byte(e.PacketType) == typ {
				if d := lib.Diff(lib.Convert(e.Data), v.Exact); d != "" {
					return fmt.Errorf("%s event: %s", name, d)
				}
			}
		}
	case v.MustReject:
		info.NonTrivial = true
		info.Add("must reject")
		if perr == nil {
			return fmt.Errorf("%s accepted although malformed (%v): header %02x remaining length %d body % x", name, v.Why, hdr, declared, clipB(body))
		}
		for len(ch.C) > 0 {
			if e := <-ch.C; byte(e.PacketType) == typ && typ != wire.DISCONNECT {
				return fmt.Errorf("%s signalled although malformed (%v): header %02x remaining length %d body % x", name, v.Why, hdr, declared, clipB(body))
			}
		}
	default:
		info.NonTrivial = true
		info.Add("may reject")
	}
	if perr == nil && whole && typ != wire.DISCONNECT && cl.IsConnected() {
		// the next packet begins where this one ended
		for len(ch.C) > 0 {
			<-ch.C
		}
		done := make(chan struct{})
		sched.App(func() {
			defer close(done)
			defer func() {
				if r := recover(); r != nil {
					pan = prop.PanicText(r)
				}
			}()
			ctx, cancel := context.WithTimeout(context.Background(), 20*time.Millisecond)
			defer cancel()
			perr = cl.Poll(ctx)
		})
		select {
		case <-done:
		case <-tm.C:
			return fmt.Errorf("Poll does not return on the packet after header %02x remaining length %d body % x", hdr, declared, clipB(body))
		}
		if pan != "" {
			return fmt.Errorf("the packet after header %02x remaining length %d body % x: %s", hdr, declared, clipB(body), pan)
		}
		if perr != nil {
			return fmt.Errorf("the packet after an accepted %s (header %02x remaining length %d body % x): %v", name, hdr, declared, clipB(body), perr)
		}
		select {
		case e := <-ch.C:
			if d := lib.Diff(lib.Convert(e.Data), next); d != "" {
				return fmt.Errorf("the packet after an accepted %s (header %02x remaining length %d body % x): %s", name, hdr, declared, clipB(body), d)
			}
		default:
			return fmt.Errorf("the packet after an accepted %s (header %02x remaining length %d body % x) is not signalled", name, hdr, declared, clipB(body))
		}
	}
	// whatever happened, the client still answers
	sched.App(func() {
		defer func() { recover() }()
		cl.CloseEventChannel(ch)
	})
	time.Sleep(time.Second)
	return nil
}

func clipB(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

func C07(t *testing.T) {
	codec.C07(t)
	clientRaw(t)
}

var _ = lib.S("")
