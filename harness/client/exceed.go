package client

import (
	"context"
	"errors"
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"

	"pgregory.net/rapid"

	"tinyverif/gen"
	"tinyverif/lib"
	"tinyverif/prop"
	"tinyverif/sched"
	"tinyverif/sim"
	"tinyverif/wire"
)

// ExceedCase is a server that exceeds the Receive Maximum while the DISCONNECT meets a broken connection.
type ExceedCase struct {
	RM    int
	QoS   int  // of the message too many
	Part  int  // bytes of the DISCONNECT accepted before the write fails; -1: the write works
	Stall bool // the write blocks until its deadline instead
	Close bool // closing the connection reports an error as well
	Rel   int  // messages released, and replaced, beforehand
	DL    int  // of the polls, ms
}

func exceedFault(t *testing.T) {
	prop.Check(t, prop.Spec[ExceedCase]{Crashy: true, ID: "C16", Part: "broken connection", Quick: 4000, Thorough: 60000,
		Rule: "every case: the Receive Maximum is exceeded and the DISCONNECT or the closing of the connection fails",
		Gen: func(t *rapid.T) (c ExceedCase) {
			c = ExceedCase{RM: gen.Int(t, "rm", 1, 5), QoS: gen.Int(t, "qos", 1, 2), Part: gen.Int(t, "part", -1, 3), Stall: gen.Chance(t, "stall", 30),
				Close: gen.Chance(t, "close", 30), Rel: gen.Int(t, "rel", 0, 4), DL: gen.Pick(t, "dl", []int{20, 500, 5000})}
			if c.Part < 0 {
				c.Close, c.Stall = true, false
			}
			return c
		},
		Run: func(c ExceedCase) (info prop.Info, err error) {
			info.NonTrivial = true
			if e := Bubble(t, func() { err = runExceed(c) }); err == nil && e != nil {
				err = e
			}
			return
		}})
}

func runExceed(c ExceedCase) error {
	conn := sim.NewConn()
	defer func() { conn.Close(); time.Sleep(time.Millisecond); synctest.Wait() }()
	cl := mqtt.NewClient(conn)
	ch := cl.CreateEventChannel(100)
	bg := context.Background()
	call := func(what string, f func() error) (err error, bad error) {
		done, pan := make(chan struct{}), ""
		sched.App(func() {
			defer close(done)
			defer func() {
				if r := recover(); r != nil {
					pan = prop.PanicText(r)
				}
			}()
			err = f()
		})
		tm := time.NewTimer(2 * time.Minute)
		defer tm.Stop()
		select {
		case <-done:
		case <-tm.C:
			return nil, fmt.Errorf("%s does not return", what)
		}
		if pan != "" {
			return nil, fmt.Errorf("%s: %s", what, pan)
		}
		return err, nil
	}
	poll := func() (error, error) {
		return call("poll", func() error {
			ctx, cancel := context.WithTimeout(bg, time.Duration(c.DL)*time.Millisecond)
			defer cancel()
			return cl.Poll(ctx)
		})
	}
	conn.Push(0, (&wire.Packet{Type: wire.CONNACK}).Encode())
	err, bad := call("Connect", func() error {
		return cl.Connect(bg, &packets.Connect{ClientId: "c", ReceiveMaximum: lib.U16(c.RM)})
	})
	if bad != nil || err != nil {
		return fmt.Errorf("connecting failed: %v %v", err, bad)
	}
	id, events := uint16(0), 1
	in := func(p *wire.Packet) error {
		conn.Push(0, p.Encode())
		if err, bad := poll(); bad != nil || err != nil {
			return fmt.Errorf("polling a message within the allowance: %v %v", err, bad)
		}
		events++
		return nil
	}
	pub := func(qos int) *wire.Packet {
		id++
		return &wire.Packet{Type: wire.PUBLISH, Flags: byte(qos) << 1, Topic: "t", ID: id}
	}
	for i := 0; i < c.RM; i++ {
		if e := in(pub(2)); e != nil {
			return e
		}
	}
	for i := 0; i < c.Rel; i++ {
		if e := in(&wire.Packet{Type: wire.PUBREL, ID: uint16(i + 1)}); e != nil {
			return e
		}
		if e := in(pub(2)); e != nil {
			return e
		}
	}
	before := len(conn.Out)
	if c.Part >= 0 {
		conn.WriteErr = func(_, n int) (int, error) {
			if c.Stall {
				return min(c.Part, n-1), sim.ErrStall
			}
			return min(c.Part, n-1), sim.ErrFault
		}
	}
	if c.Close {
		conn.CloseErr = sim.ErrFault
	}
	conn.Push(0, pub(c.QoS).Encode())
	err, bad = poll()
	if bad != nil {
		return bad
	}
	if !conn.Closed() {
		return fmt.Errorf("the Receive Maximum was exceeded (poll: %v): the network connection is open", err)
	}
	if cl.IsConnected() {
		return fmt.Errorf("the Receive Maximum was exceeded (poll: %v): the client is connected", err)
	}
	got := conn.Out[before:]
	ps, rest, derr := wire.DecodeAll(got)
	switch {
	case derr == nil && len(ps) == 1 && len(rest) == 0 && ps[0].Type == wire.DISCONNECT && ps[0].Reason == 0x93:
	case derr == nil && len(ps) == 0 && c.Part >= 0 && (len(rest) == 0 || rest[0] == wire.DISCONNECT<<4):
	default:
		return fmt.Errorf("written % x after the Receive Maximum was exceeded", got)
	}
	n := len(conn.Out)
	conn.WriteErr = nil
	for what, f := range map[string]func() error{
		"poll":    func() error { return cl.Poll(bg) },
		"publish": func() error { return cl.Publish(bg, &packets.Publish{Topic: "t", QoS: packets.QoS2}) },
		"ka":      func() error { return cl.KeepAlive() },
		"disc":    func() error { return cl.Disconnect(bg, false) },
	} {
		err, bad := call(what, f)
		if bad != nil {
			return bad
		}
		if !errors.Is(err, mqtt.ErrClientNotConnected) {
			return fmt.Errorf("%s after the Receive Maximum was exceeded returned %v", what, err)
		}
	}
	if len(conn.Out) != n {
		return errors.New("written after the Receive Maximum was exceeded")
	}
	for k := 0; len(ch.C) > 0; k++ {
		e := <-ch.C
		if k >= events && e.PacketType != packets.DISCONNECT {
			return fmt.Errorf("event %d is of type %d although only %d packets were within the allowance", k+1, e.PacketType, events)
		}
	}
	return nil
}
