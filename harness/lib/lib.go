// Package lib adapts the library's packet types to the reference model.
package lib

import (
	"fmt"
	"io"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"

	"tinyverif/wire"
)

type S = primitives.PrimitiveString
type U16 = primitives.PrimitiveUint16
type U32 = primitives.PrimitiveUint32
type B = primitives.PrimitiveByte

// New returns a zero library packet of an inbound type with its header set, or nil.
func New(h packets.FixedHeader) io.ReaderFrom {
	switch byte(h.GetType()) {
	case wire.CONNACK:
		return &packets.Connack{Header: h}
	case wire.PUBLISH:
		return &packets.Publish{Header: h}
	case wire.PUBACK:
		return &packets.Puback{Header: h}
	case wire.PUBREC:
		p := &packets.Pubrec{}
		p.Header = h
		return p
	case wire.PUBREL:
		p := &packets.Pubrel{}
		p.Header = h
		return p
	case wire.PUBCOMP:
		p := &packets.Pubcomp{}
		p.Header = h
		return p
	case wire.SUBACK:
		return &packets.Suback{Header: h}
	case wire.UNSUBACK:
		return &packets.Unsuback{Header: h}
	case wire.DISCONNECT:
		return &packets.Disconnect{Header: h}
	case wire.AUTH:
		return &packets.Auth{Header: h}
	}
	return nil
}

// Inbound lists the packet types with a decoder.
var Inbound = []byte{wire.CONNACK, wire.PUBLISH, wire.PUBACK, wire.PUBREC, wire.PUBREL, wire.PUBCOMP, wire.SUBACK, wire.UNSUBACK, wire.DISCONNECT, wire.AUTH}

// DecodeOne reads a fixed header and the packet with the library. n is the count the body decoder
// reported.
func DecodeOne(r io.Reader) (pkt any, h packets.FixedHeader, hn, n int64, err error) {
	if hn, err = h.ReadFrom(r); err != nil {
		return nil, h, hn, 0, err
	}
	p := New(h)
	if p == nil {
		return nil, h, hn, 0, fmt.Errorf("HARNESS-ERROR: no decoder for type %d", h.GetType())
	}
	n, err = p.ReadFrom(r)
	return p, h, hn, n, err
}

type props struct{ ps []wire.Prop }

func (p *props) b(id byte, v B) {
	if v != 0 {
		p.ps = append(p.ps, wire.Prop{ID: id, Num: uint32(v)})
	}
}
func (p *props) u16(id byte, v U16) {
	if v != 0 {
		p.ps = append(p.ps, wire.Prop{ID: id, Num: uint32(v)})
	}
}
func (p *props) u32(id byte, v U32) {
	if v != 0 {
		p.ps = append(p.ps, wire.Prop{ID: id, Num: uint32(v)})
	}
}
func (p *props) v(id byte, v primitives.VariableByteInt) {
	if v != 0 {
		p.ps = append(p.ps, wire.Prop{ID: id, Num: uint32(v)})
	}
}
func (p *props) s(id byte, v S) {
	if len(v) != 0 {
		p.ps = append(p.ps, wire.Prop{ID: id, S: string(v)})
	}
}
func (p *props) m(v primitives.PrimitiveStringMap) {
	for k, x := range v {
		p.ps = append(p.ps, wire.Prop{ID: 0x26, S: string(k), S2: string(x)})
	}
}

func ack(t byte, a *packets.Puback) *wire.Packet {
	var ps props
	ps.s(0x1F, a.ReasonString)
	ps.m(a.UserProperties)
	return &wire.Packet{Type: t, ID: uint16(a.PacketIdentifier), Reason: byte(a.ReasonCode), Props: ps.ps}
}

// Convert maps a decoded library packet to the model. Zero-valued properties are omitted (the library's
// API does not distinguish them from absent ones).
func Convert(x any) *wire.Packet {
	var ps props
	switch a := x.(type) {
	case *packets.Connack:
		ps.u32(0x11, a.SessionExpiryInterval)
		ps.u16(0x21, a.ReceiveMaximum)
		ps.b(0x24, a.MaximumQoS)
		ps.b(0x25, a.RetainAvailable)
		ps.u32(0x27, a.MaximumPacketSize)
		ps.s(0x12, a.ClientId)
		ps.u16(0x22, a.TopicAliasMaximum)
		ps.s(0x1F, a.ReasonString)
		ps.m(a.UserProperties)
		ps.b(0x28, a.WildcardSubscriptions)
		ps.b(0x29, a.SubscriptionIdentifiers)
		ps.b(0x2A, a.SharedSubscriptions)
		ps.u16(0x13, a.ServerKeepAlive)
		ps.s(0x1A, a.ResponseInformation)
		ps.s(0x1C, a.ServerReference)
		ps.s(0x15, a.AuthenticationMethod)
		ps.s(0x16, a.AuthenticationData)
		sp := byte(0)
		if a.SessionPresent {
			sp = 1
		}
		return &wire.Packet{Type: wire.CONNACK, SessionPresent: sp, Reason: byte(a.ReasonCode), Props: ps.ps}
	case *packets.Publish:
		ps.b(0x01, a.PayloadFormat)
		ps.u32(0x02, a.MessageExpiryInterval)
		ps.u16(0x23, a.TopicAlias)
		ps.s(0x08, a.ResponseTopic)
		ps.s(0x09, a.CorrelationData)
		ps.m(a.UserProperties)
		ps.v(0x0B, a.SubscriptionIdentifier)
		ps.s(0x03, a.ContentType)
		f := byte(a.QoS) << 1
		if a.Retain {
			f |= 1
		}
		if a.Duplicate {
			f |= 8
		}
		return &wire.Packet{Type: wire.PUBLISH, Flags: f, Topic: string(a.Topic), ID: uint16(a.PacketIdentifier), Payload: string(a.Payload), Props: ps.ps}
	case *packets.Puback:
		return ack(wire.PUBACK, a)
	case *packets.Pubrec:
		return ack(wire.PUBREC, &a.Puback)
	case *packets.Pubrel:
		return ack(wire.PUBREL, &a.Puback)
	case *packets.Pubcomp:
		return ack(wire.PUBCOMP, &a.Puback)
	case *packets.Suback:
		ps.s(0x1F, a.ReasonString)
		ps.m(a.UserProperties)
		return &wire.Packet{Type: wire.SUBACK, ID: uint16(a.PacketIdentifier), Props: ps.ps, Reasons: a.ReasonCodes}
	case *packets.Unsuback:
		ps.s(0x1F, a.ReasonString)
		ps.m(a.UserProperties)
		return &wire.Packet{Type: wire.UNSUBACK, ID: uint16(a.PacketIdentifier), Props: ps.ps, Reasons: a.ReasonCodes}
	case *packets.Disconnect:
		ps.u32(0x11, a.SessionExpiryInterval)
		ps.s(0x1F, a.ReasonString)
		ps.m(a.UserProperties)
		ps.s(0x1C, a.ServerReference)
		return &wire.Packet{Type: wire.DISCONNECT, Reason: byte(a.ReasonCode), Props: ps.ps}
	case *packets.Auth:
		ps.s(0x15, a.AuthenticationMethod)
		ps.s(0x16, a.AuthenticationData)
		ps.s(0x1F, a.ReasonString)
		ps.m(a.UserProperties)
		return &wire.Packet{Type: wire.AUTH, Reason: byte(a.AuthenticateReasonCode), Props: ps.ps}
	}
	return nil
}

// Norm is the part of a sent packet the library's API can represent: zero-valued properties are
// dropped; of repeated subscription identifiers and equal user property names the last one is kept.
func Norm(ps []wire.Prop) []wire.Prop {
	var out []wire.Prop
	for i, p := range ps {
		if wire.Kind(p.ID) == wire.KPair {
			dup := false
			for _, q := range ps[i+1:] {
				if q.ID == p.ID && q.S == p.S {
					dup = true
				}
			}
			if !dup {
				out = append(out, p)
			}
			continue
		}
		if p.ID == 0x0B {
			last := true
			for _, q := range ps[i+1:] {
				if q.ID == p.ID {
					last = false
				}
			}
			if !last {
				continue
			}
		}
		if p.Num == 0 && p.S == "" {
			continue
		}
		out = append(out, p)
	}
	return out
}

// Diff compares a decoded packet with the one sent; "" means equal.
func Diff(got, want *wire.Packet) string {
	if got == nil {
		return "no packet"
	}
	n := wire.Names[want.Type]
	if got.Type != want.Type {
		return fmt.Sprintf("got a %s, want a %s", wire.Names[got.Type], n)
	}
	if want.Type == wire.PUBLISH && got.Flags != want.Flags {
		return fmt.Sprintf("%s flags %04b, want %04b", n, got.Flags, want.Flags)
	}
	if got.SessionPresent != want.SessionPresent {
		return fmt.Sprintf("%s session present %d, want %d", n, got.SessionPresent, want.SessionPresent)
	}
	if got.Reason != want.Reason {
		return fmt.Sprintf("%s reason %02x, want %02x", n, got.Reason, want.Reason)
	}
	if got.ID != want.ID {
		return fmt.Sprintf("%s identifier %d, want %d", n, got.ID, want.ID)
	}
	if got.Topic != want.Topic {
		return fmt.Sprintf("%s topic %.60q, want %.60q", n, got.Topic, want.Topic)
	}
	if string(got.Reasons) != string(want.Reasons) {
		return fmt.Sprintf("%s reason codes %x, want %x", n, got.Reasons, want.Reasons)
	}
	if d := wire.DiffProps(Norm(got.Props), Norm(want.Props)); d != "" {
		return n + ": " + d
	}
	if got.Payload != want.Payload {
		return fmt.Sprintf("%s payload (%d bytes) %.40q, want (%d bytes) %.40q", n, len(got.Payload), got.Payload, len(want.Payload), want.Payload)
	}
	return ""
}
