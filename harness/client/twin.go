package client

import (
	"context"
	"testing/synctest"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"

	"tinyverif/sim"
	"tinyverif/wire"
)

// twin is another client of the same process with a connection of its own. What it does must not show on
// the client under test. Nothing it does is checked.
type twin struct {
	c      *mqtt.Client
	conn   *sim.Conn
	n      int
	ctx    context.Context
	cancel context.CancelFunc
}

func newTwin() *twin {
	t := &twin{conn: sim.NewConn()}
	t.ctx, t.cancel = context.WithCancel(context.Background())
	t.c = mqtt.NewClient(t.conn)
	t.c.CreateEventChannel(1)
	t.connect()
	return t
}

func (t *twin) goDo(f func(context.Context)) {
	ctx, cancel := context.WithTimeout(t.ctx, time.Second)
	go func() {
		defer cancel()
		defer func() { recover() }()
		f(ctx)
	}()
	synctest.Wait()
}

func (t *twin) connect() {
	t.conn.Push(0, (&wire.Packet{Type: wire.CONNACK, Props: []wire.Prop{{ID: 0x21, Num: 3}, {ID: 0x13, Num: 7}}}).Encode())
	t.goDo(func(ctx context.Context) {
		t.c.Connect(ctx, &packets.Connect{Version: packets.MQTT5, ClientId: "twin", KeepAlive: 11, ReceiveMaximum: 2, SessionExpiryInterval: 77})
	})
}

func (t *twin) in(p *wire.Packet) {
	t.conn.Push(0, p.Encode())
	t.goDo(func(ctx context.Context) { t.c.Poll(ctx) })
}

func (t *twin) step() {
	t.n++
	id := uint16(t.n/3%4 + 1)
	switch t.n * 7 % 13 {
	case 0:
		t.in(&wire.Packet{Type: wire.PUBLISH, Flags: 4, ID: id, Topic: "t", Payload: "twin"})
	case 1:
		t.goDo(func(ctx context.Context) {
			t.c.Publish(ctx, &packets.Publish{Topic: "t", QoS: 1, Payload: []byte("twin")})
		})
	case 2:
		t.goDo(func(ctx context.Context) {
			var x mqtt.Topic
			x.SetFilter("a")
			x.SetEventChannel(t.c.CreateEventChannel(1))
			t.c.Subscribe(ctx, []mqtt.Topic{x})
		})
	case 3:
		t.in(&wire.Packet{Type: wire.PUBREL, Flags: 2, ID: id})
	case 4:
		t.goDo(func(ctx context.Context) { t.c.KeepAlive() })
		t.in(&wire.Packet{Type: wire.PINGRESP})
	case 5:
		t.in(&wire.Packet{Type: wire.PUBACK, ID: id})
	case 6:
		t.goDo(func(ctx context.Context) {
			t.c.Publish(ctx, &packets.Publish{Topic: "t", QoS: 2, PacketIdentifier: 3, Payload: []byte("twin")})
		})
	case 7, 8:
		ps, _, _ := wire.DecodeAll(t.conn.Out)
		for k := len(ps) - 1; k >= 0; k-- {
			if ps[k].Type == wire.SUBSCRIBE {
				t.in(&wire.Packet{Type: wire.SUBACK, ID: ps[k].ID, Reasons: []byte{0}})
				break
			}
		}
	case 9:
		t.in(&wire.Packet{Type: wire.PUBREC, ID: id})
	case 10:
		t.goDo(func(ctx context.Context) { t.c.Unsubscribe(ctx, []string{"a"}) })
	case 11:
		t.in(&wire.Packet{Type: wire.PUBLISH, Flags: 2, ID: id, Topic: "a", Payload: "twin"})
	case 12:
		t.goDo(func(ctx context.Context) { t.c.Disconnect(ctx, false) })
		t.conn.Reopen()
		t.connect()
	}
}

func (t *twin) stop() {
	t.cancel()
	t.conn.Close()
}
