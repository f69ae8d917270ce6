package codec

import (
	"bytes"
	"io"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"

	"tinyverif/lib"
	"tinyverif/wire"
)

// noise encodes and decodes unrelated packets in the middle of an encoder's or a decoder's calls of the
// network, as another goroutine or another client of the same process may do: what one packet needs on
// its way must not be shared with others.
type noise struct{ i int }

var noiseIn = func() (bs [][]byte) {
	up := wire.Prop{ID: 0x26, S: "nk", S2: "noise"}
	for _, p := range []*wire.Packet{
		{Type: wire.PUBLISH, Flags: 5, ID: 0xA5A5, Topic: "noise/topic", Payload: "noise payload", Props: []wire.Prop{{ID: 2, Num: 0xA5A5A5A5}, {ID: 0x0B, Num: 0xA5A5}, {ID: 0x23, Num: 0xA5A5}, up}},
		{Type: wire.CONNACK, Props: []wire.Prop{{ID: 0x21, Num: 0xA5A5}, {ID: 0x27, Num: 0xA5A5A5A5}, {ID: 0x12, S: "noise"}, {ID: 0x24, Num: 1}, up}},
		{Type: wire.PUBACK, ID: 0xA5A5, Reason: 0x10, HasReason: true, HasProps: true, Props: []wire.Prop{{ID: 0x1F, S: "noisy reason"}, up}},
		{Type: wire.SUBACK, ID: 0xA5A5, Reasons: []byte{0x87, 1, 0x87}, Props: []wire.Prop{{ID: 0x1F, S: "noisy reason"}, up}},
		{Type: wire.PUBREL, Flags: 2, ID: 0xA5A5, Reason: 0x92, HasReason: true},
		{Type: wire.DISCONNECT, Reason: 0x8B, HasReason: true, HasProps: true, Props: []wire.Prop{{ID: 0x1F, S: "noisy reason"}}},
	} {
		bs = append(bs, p.Encode())
	}
	return
}()

func (n *noise) run() {
	n.i++
	up := primitives.PrimitiveStringMap{"nk": "noise"}
	k := n.i % 10
	if k < len(noiseIn) {
		lib.DecodeOne(bytes.NewReader(noiseIn[k]))
		return
	}
	var p io.WriterTo
	switch k {
	case 6:
		p = &packets.Publish{Topic: "noise/topic", QoS: 2, PacketIdentifier: 0xA5A5, MessageExpiryInterval: 0xA5A5A5A5, SubscriptionIdentifier: 0xA5A5, UserProperties: up, Payload: []byte("noise payload")}
	case 7:
		p = &packets.Connect{ClientId: "noise", KeepAlive: 0xA5A5, ReceiveMaximum: 0xA5A5, Username: "noise", Password: "noise", UserProperties: up, SessionExpiryInterval: 0xA5A5A5A5}
	case 8:
		var t packets.Topic
		t.SetFilter("noise/#")
		t.SetQoS(2)
		p = &packets.Subscribe{PacketIdentifier: 0xA5A5, SubscriptionIdentifier: 0xA5A5, UserProperties: up, Topics: []packets.Topic{t}}
	default:
		p = &packets.Puback{PacketIdentifier: 0xA5A5, ReasonCode: 0x87, ReasonString: "noisy reason", UserProperties: up}
	}
	p.WriteTo(io.Discard)
}

func (n *noise) all() {
	for i := 0; i < 10; i++ {
		n.run()
	}
}

type noisyReader struct {
	io.Reader
	noise
}

func (r *noisyReader) Read(p []byte) (int, error) {
	n, err := r.Reader.Read(p)
	r.run()
	return n, err
}

type noisyWriter struct {
	bytes.Buffer
	noise
}

func (w *noisyWriter) Write(p []byte) (int, error) {
	w.run()
	return w.Buffer.Write(p)
}
