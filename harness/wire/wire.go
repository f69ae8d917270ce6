// Package wire is an independent MQTT 5 reference codec, written from the OASIS specification. It
// shares no code with the library under test.
package wire

import (
	"errors"
	"fmt"
	"sort"
	"unicode/utf8"
)

const (
	CONNECT = iota + 1
	CONNACK
	PUBLISH
	PUBACK
	PUBREC
	PUBREL
	PUBCOMP
	SUBSCRIBE
	SUBACK
	UNSUBSCRIBE
	UNSUBACK
	PINGREQ
	PINGRESP
	DISCONNECT
	AUTH
)

var Names = map[byte]string{CONNECT: "CONNECT", CONNACK: "CONNACK", PUBLISH: "PUBLISH", PUBACK: "PUBACK",
	PUBREC: "PUBREC", PUBREL: "PUBREL", PUBCOMP: "PUBCOMP", SUBSCRIBE: "SUBSCRIBE", SUBACK: "SUBACK",
	UNSUBSCRIBE: "UNSUBSCRIBE", UNSUBACK: "UNSUBACK", PINGREQ: "PINGREQ", PINGRESP: "PINGRESP",
	DISCONNECT: "DISCONNECT", AUTH: "AUTH"}

// property value kinds
const (
	KByte = iota
	KU16
	KU32
	KVar
	KStr
	KBin
	KPair
)

// will properties are listed under pseudo packet type 0
type propDef struct {
	kind  int
	multi map[byte]bool // types for which the property may repeat
	in    []byte
}

const WILL = 0

var Props = map[byte]propDef{
	0x01: {kind: KByte, in: []byte{PUBLISH, WILL}},
	0x02: {kind: KU32, in: []byte{PUBLISH, WILL}},
	0x03: {kind: KStr, in: []byte{PUBLISH, WILL}},
	0x08: {kind: KStr, in: []byte{PUBLISH, WILL}},
	0x09: {kind: KBin, in: []byte{PUBLISH, WILL}},
	0x0B: {kind: KVar, in: []byte{PUBLISH, SUBSCRIBE}, multi: map[byte]bool{PUBLISH: true}},
	0x11: {kind: KU32, in: []byte{CONNECT, CONNACK, DISCONNECT}},
	0x12: {kind: KStr, in: []byte{CONNACK}},
	0x13: {kind: KU16, in: []byte{CONNACK}},
	0x15: {kind: KStr, in: []byte{CONNECT, CONNACK, AUTH}},
	0x16: {kind: KBin, in: []byte{CONNECT, CONNACK, AUTH}},
	0x17: {kind: KByte, in: []byte{CONNECT}},
	0x18: {kind: KU32, in: []byte{WILL}},
	0x19: {kind: KByte, in: []byte{CONNECT}},
	0x1A: {kind: KStr, in: []byte{CONNACK}},
	0x1C: {kind: KStr, in: []byte{CONNACK, DISCONNECT}},
	0x1F: {kind: KStr, in: []byte{CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT, AUTH}},
	0x21: {kind: KU16, in: []byte{CONNECT, CONNACK}},
	0x22: {kind: KU16, in: []byte{CONNECT, CONNACK}},
	0x23: {kind: KU16, in: []byte{PUBLISH}},
	0x24: {kind: KByte, in: []byte{CONNACK}},
	0x25: {kind: KByte, in: []byte{CONNACK}},
	0x26: {kind: KPair, in: []byte{CONNECT, CONNACK, PUBLISH, WILL, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, DISCONNECT, AUTH}},
	0x27: {kind: KU32, in: []byte{CONNECT, CONNACK}},
	0x28: {kind: KByte, in: []byte{CONNACK}},
	0x29: {kind: KByte, in: []byte{CONNACK}},
	0x2A: {kind: KByte, in: []byte{CONNACK}},
}

// Kind returns the value kind of a property.
func Kind(id byte) int { return Props[id].kind }

// Allowed lists, in ascending order, the properties a packet type may carry.
func Allowed(typ byte) []byte {
	var r []byte
	for id, d := range Props {
		for _, t := range d.in {
			if t == typ {
				r = append(r, id)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func allowed(id, typ byte) bool {
	for _, t := range Props[id].in {
		if t == typ {
			return true
		}
	}
	return false
}

// Prop is one property: Num for integers, S for strings/binary and the key of a pair, S2 for its value.
type Prop struct {
	ID  byte
	Num uint32
	S   string
	S2  string
}

type Filter struct {
	Filter string
	Opts   byte
}

// Packet is any MQTT 5 control packet.
type Packet struct {
	Type  byte
	Flags byte

	Version, ConnFlags byte
	KeepAlive          uint16
	ClientID           string
	WillProps          []Prop
	WillTopic          string
	WillPayload        string
	User, Pass         string

	SessionPresent byte
	HasReason      bool // short forms: reason code present
	HasProps       bool // short forms: property length present
	Reason         byte
	Props          []Prop

	Topic   string
	ID      uint16
	Payload string

	Filters []Filter
	Reasons []byte
}

func (p *Packet) QoS() byte { return p.Flags >> 1 & 3 }

func (p *Packet) Get(id byte) *Prop {
	for i := range p.Props {
		if p.Props[i].ID == id {
			return &p.Props[i]
		}
	}
	return nil
}

// ---------------------------------------------------------------- encoding

func AppendVar(b []byte, v uint32) []byte {
	for {
		d := byte(v & 0x7f)
		v >>= 7
		if v != 0 {
			b = append(b, d|0x80)
			continue
		}
		return append(b, d)
	}
}

func appStr(b []byte, s string) []byte {
	b = append(b, byte(len(s)>>8), byte(len(s)))
	return append(b, s...)
}

func AppendProp(b []byte, p Prop) []byte {
	b = append(b, p.ID)
	switch Kind(p.ID) {
	case KByte:
		b = append(b, byte(p.Num))
	case KU16:
		b = append(b, byte(p.Num>>8), byte(p.Num))
	case KU32:
		b = append(b, byte(p.Num>>24), byte(p.Num>>16), byte(p.Num>>8), byte(p.Num))
	case KVar:
		b = AppendVar(b, p.Num)
	case KStr, KBin:
		b = appStr(b, p.S)
	case KPair:
		b = appStr(appStr(b, p.S), p.S2)
	}
	return b
}

func appProps(b []byte, ps []Prop) []byte {
	var t []byte
	for _, p := range ps {
		t = AppendProp(t, p)
	}
	return append(AppendVar(b, uint32(len(t))), t...)
}

// Body encodes everything after the fixed header.
func (p *Packet) Body() []byte {
	var b []byte
	u16 := func(v uint16) { b = append(b, byte(v>>8), byte(v)) }
	switch p.Type {
	case CONNECT:
		b = appStr(b, "MQTT")
		b = append(b, p.Version, p.ConnFlags)
		u16(p.KeepAlive)
		b = appProps(b, p.Props)
		b = appStr(b, p.ClientID)
		if p.ConnFlags&4 != 0 {
			b = appProps(b, p.WillProps)
			b = appStr(b, p.WillTopic)
			b = appStr(b, p.WillPayload)
		}
		if p.ConnFlags&0x80 != 0 {
			b = appStr(b, p.User)
		}
		if p.ConnFlags&0x40 != 0 {
			b = appStr(b, p.Pass)
		}
	case CONNACK:
		b = append(b, p.SessionPresent, p.Reason)
		b = appProps(b, p.Props)
	case PUBLISH:
		b = appStr(b, p.Topic)
		if p.QoS() > 0 {
			u16(p.ID)
		}
		b = appProps(b, p.Props)
		b = append(b, p.Payload...)
	case PUBACK, PUBREC, PUBREL, PUBCOMP:
		u16(p.ID)
		if p.HasReason {
			b = append(b, p.Reason)
			if p.HasProps {
				b = appProps(b, p.Props)
			}
		}
	case SUBSCRIBE:
		u16(p.ID)
		b = appProps(b, p.Props)
		for _, f := range p.Filters {
			b = append(appStr(b, f.Filter), f.Opts)
		}
	case UNSUBSCRIBE:
		u16(p.ID)
		b = appProps(b, p.Props)
		for _, f := range p.Filters {
			b = appStr(b, f.Filter)
		}
	case SUBACK, UNSUBACK:
		u16(p.ID)
		b = appProps(b, p.Props)
		b = append(b, p.Reasons...)
	case DISCONNECT, AUTH:
		if p.HasReason {
			b = append(b, p.Reason)
			if p.HasProps {
				b = appProps(b, p.Props)
			}
		}
	}
	return b
}

func (p *Packet) Encode() []byte {
	body := p.Body()
	b := AppendVar([]byte{p.Type<<4 | p.Flags}, uint32(len(body)))
	return append(b, body...)
}

// ---------------------------------------------------------------- decoding

var ErrIncomplete = errors.New("incomplete packet")

type rd struct {
	b       []byte
	err     error
	lenient bool
}

// soft is a violation of the specification that a decoder may or may not notice; a lenient reference
// ignores it.
func (r *rd) soft(f string, a ...any) {
	if !r.lenient {
		r.fail(f, a...)
	}
}

func (r *rd) fail(f string, a ...any) {
	if r.err == nil {
		r.err = fmt.Errorf(f, a...)
	}
	r.b = nil
}
func (r *rd) take(n int, what string) []byte {
	if len(r.b) < n {
		r.fail("%s: need %d bytes, %d left", what, n, len(r.b))
		return make([]byte, n)
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}
func (r *rd) u8(w string) byte { return r.take(1, w)[0] }
func (r *rd) u16(w string) uint16 {
	x := r.take(2, w)
	return uint16(x[0])<<8 | uint16(x[1])
}
func (r *rd) u32(w string) uint32 {
	x := r.take(4, w)
	return uint32(x[0])<<24 | uint32(x[1])<<16 | uint32(x[2])<<8 | uint32(x[3])
}
func (r *rd) vari(w string) uint32 {
	var v uint32
	for i := 0; i < 4; i++ {
		d := r.u8(w)
		v |= uint32(d&0x7f) << (7 * i)
		if d&0x80 == 0 {
			if i > 0 && d == 0 {
				r.soft("%s: variable byte integer not minimal", w)
			}
			return v
		}
	}
	r.fail("%s: variable byte integer longer than 4 bytes", w)
	return 0
}
func (r *rd) bin(w string) string { return string(r.take(int(r.u16(w)), w)) }
func (r *rd) str(w string) string {
	s := r.bin(w)
	if r.err == nil && !utf8.ValidString(s) {
		r.soft("%s: not UTF-8", w)
	}
	return s
}

func (r *rd) props(typ byte, w string) []Prop {
	n := int(r.vari(w + " property length"))
	if r.err == nil && n > len(r.b) {
		r.fail("%s: property length %d overruns the packet (%d bytes left)", w, n, len(r.b))
		return nil
	}
	s := &rd{b: r.take(n, w), lenient: r.lenient}
	seen := map[byte]bool{}
	var out []Prop
	for len(s.b) > 0 && s.err == nil {
		id := s.u8("property id")
		d, ok := Props[id]
		if !ok {
			s.fail("%s: unknown property 0x%02x", w, id)
			break
		}
		if !allowed(id, typ) {
			s.soft("%s: property 0x%02x not allowed here", w, id)
		}
		if seen[id] && d.kind != KPair && !d.multi[typ] {
			s.soft("%s: property 0x%02x repeated", w, id)
		}
		seen[id] = true
		p := Prop{ID: id}
		switch d.kind {
		case KByte:
			p.Num = uint32(s.u8(w))
		case KU16:
			p.Num = uint32(s.u16(w))
		case KU32:
			p.Num = s.u32(w)
		case KVar:
			p.Num = s.vari(w)
		case KStr:
			p.S = s.str(w)
		case KBin:
			p.S = s.bin(w)
		case KPair:
			p.S = s.str(w)
			p.S2 = s.str(w)
		}
		out = append(out, p)
	}
	if s.err != nil {
		r.fail("%v", s.err)
	}
	return out
}

// Frame splits the first control packet off a byte stream. It returns ErrIncomplete when more bytes
// are needed.
func Frame(b []byte) (hdr byte, body []byte, size int, err error) {
	if len(b) < 2 {
		return 0, nil, 0, ErrIncomplete
	}
	var v uint32
	for i := 0; ; i++ {
		if i == 4 {
			return 0, nil, 0, errors.New("remaining length longer than 4 bytes")
		}
		if 1+i >= len(b) {
			return 0, nil, 0, ErrIncomplete
		}
		d := b[1+i]
		v |= uint32(d&0x7f) << (7 * i)
		if d&0x80 == 0 {
			if i > 0 && d == 0 {
				return 0, nil, 0, errors.New("remaining length not minimal")
			}
			size = 2 + i
			break
		}
	}
	if len(b)-size < int(v) {
		return 0, nil, 0, ErrIncomplete
	}
	return b[0], b[size : size+int(v)], size + int(v), nil
}

// Decode strictly decodes the first packet of b and returns its size.
func Decode(b []byte) (*Packet, int, error) {
	hdr, body, size, err := Frame(b)
	if err != nil {
		return nil, 0, err
	}
	p, err := DecodeBody(hdr, body)
	if err != nil {
		return nil, size, err
	}
	return p, size, nil
}

// DecodeBody strictly decodes the body of a packet.
func DecodeBody(hdr byte, body []byte) (*Packet, error) { return decodeBody(hdr, body, false) }

// DecodeLenient decodes a body checking only what any decoder has to notice: truncation, lengths that
// overrun their container, unknown properties, PUBLISH with QoS 3, missing reason codes.
func DecodeLenient(hdr byte, body []byte) (*Packet, error) { return decodeBody(hdr, body, true) }

func decodeBody(hdr byte, body []byte, lenient bool) (*Packet, error) {
	p := &Packet{Type: hdr >> 4, Flags: hdr & 0xf}
	r := &rd{b: body, lenient: lenient}
	want := byte(0)
	switch p.Type {
	case PUBREL, SUBSCRIBE, UNSUBSCRIBE:
		want = 2
	case PUBLISH:
		want = p.Flags
		if p.QoS() == 3 {
			return nil, errors.New("PUBLISH with QoS 3")
		}
		if p.QoS() == 0 && p.Flags&8 != 0 && !lenient {
			return nil, errors.New("PUBLISH with DUP and QoS 0")
		}
	}
	if p.Flags != want && !lenient {
		return nil, fmt.Errorf("%s: reserved flags %x, want %x", Names[p.Type], p.Flags, want)
	}
	switch p.Type {
	case CONNECT:
		if s := r.str("protocol name"); s != "MQTT" {
			r.fail("protocol name %q", s)
		}
		p.Version = r.u8("version")
		p.ConnFlags = r.u8("connect flags")
		if p.ConnFlags&1 != 0 {
			r.fail("reserved connect flag set")
		}
		if p.ConnFlags&4 == 0 && p.ConnFlags&0x38 != 0 {
			r.fail("will QoS/retain without will flag")
		}
		if p.ConnFlags>>3&3 == 3 {
			r.fail("will QoS 3")
		}
		p.KeepAlive = r.u16("keep alive")
		p.Props = r.props(CONNECT, "CONNECT")
		p.ClientID = r.str("client id")
		if p.ConnFlags&4 != 0 {
			p.WillProps = r.props(WILL, "will")
			p.WillTopic = r.str("will topic")
			p.WillPayload = r.bin("will payload")
		}
		if p.ConnFlags&0x80 != 0 {
			p.User = r.str("user name")
		}
		if p.ConnFlags&0x40 != 0 {
			p.Pass = r.bin("password")
		}
	case CONNACK:
		p.SessionPresent = r.u8("connack flags")
		if p.SessionPresent > 1 {
			r.soft("reserved connack flags")
		}
		p.HasReason = true
		p.HasProps = true
		p.Reason = r.u8("reason code")
		if lenient && len(r.b) == 0 {
			break
		}
		p.Props = r.props(CONNACK, "CONNACK")
	case PUBLISH:
		p.Topic = r.str("topic")
		if p.QoS() > 0 {
			p.ID = r.u16("packet id")
			if r.err == nil && p.ID == 0 {
				r.soft("packet identifier 0")
			}
		}
		p.Props = r.props(PUBLISH, "PUBLISH")
		p.Payload = string(r.b)
		r.b = nil
	case PUBACK, PUBREC, PUBREL, PUBCOMP:
		p.ID = r.u16("packet id")
		p.ackTail(r)
	case SUBSCRIBE, UNSUBSCRIBE:
		p.ID = r.u16("packet id")
		p.Props = r.props(p.Type, Names[p.Type])
		for len(r.b) > 0 && r.err == nil {
			f := Filter{Filter: r.str("filter")}
			if p.Type == SUBSCRIBE {
				f.Opts = r.u8("options")
				if f.Opts&0xC0 != 0 || f.Opts&3 == 3 || f.Opts>>4&3 == 3 {
					r.fail("reserved subscription options %02x", f.Opts)
				}
			}
			p.Filters = append(p.Filters, f)
		}
		if r.err == nil && len(p.Filters) == 0 {
			r.fail("no topic filter")
		}
	case SUBACK, UNSUBACK:
		p.ID = r.u16("packet id")
		p.Props = r.props(p.Type, Names[p.Type])
		p.Reasons = append([]byte(nil), r.b...)
		r.b = nil
		if r.err == nil && len(p.Reasons) == 0 {
			r.fail("no reason codes")
		}
	case PINGREQ, PINGRESP:
	case DISCONNECT, AUTH:
		p.ackTail(r)
	default:
		return nil, fmt.Errorf("packet type %d", p.Type)
	}
	if r.err != nil {
		return nil, r.err
	}
	if len(r.b) > 0 && !lenient {
		return nil, fmt.Errorf("%s: %d bytes left over", Names[p.Type], len(r.b))
	}
	return p, nil
}

// ackTail decodes the optional reason code and properties. A property length is only present when
// bytes remain after the reason code.
func (p *Packet) ackTail(r *rd) {
	if r.err != nil || len(r.b) == 0 {
		return
	}
	p.HasReason = true
	p.Reason = r.u8("reason code")
	if len(r.b) == 0 {
		return
	}
	p.HasProps = true
	p.Props = r.props(p.Type, Names[p.Type])
}

// DecodeAll decodes a stream of complete packets; rest is what is left after the last complete one.
func DecodeAll(b []byte) (ps []*Packet, rest []byte, err error) {
	for len(b) > 0 {
		p, n, e := Decode(b)
		if e == ErrIncomplete {
			return ps, b, nil
		}
		if e != nil {
			return ps, b, fmt.Errorf("packet %d: %w", len(ps), e)
		}
		ps = append(ps, p)
		b = b[n:]
	}
	return ps, nil, nil
}

// SortProps orders properties canonically so that two property lists can be compared as multisets.
func SortProps(ps []Prop) []Prop {
	q := append([]Prop(nil), ps...)
	sort.Slice(q, func(i, j int) bool {
		a, b := q[i], q[j]
		if a.ID != b.ID {
			return a.ID < b.ID
		}
		if a.S != b.S {
			return a.S < b.S
		}
		if a.S2 != b.S2 {
			return a.S2 < b.S2
		}
		return a.Num < b.Num
	})
	return q
}

func short(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%.40q...(%d bytes)", s, len(s))
	}
	return fmt.Sprintf("%q", s)
}

// DiffProps compares two property lists as multisets; "" means equal.
func DiffProps(got, want []Prop) string {
	g, w := SortProps(got), SortProps(want)
	for i := 0; i < len(g) || i < len(w); i++ {
		switch {
		case i >= len(g):
			return fmt.Sprintf("missing property 0x%02x num=%d s=%s s2=%s", w[i].ID, w[i].Num, short(w[i].S), short(w[i].S2))
		case i >= len(w):
			return fmt.Sprintf("unexpected property 0x%02x num=%d s=%s s2=%s", g[i].ID, g[i].Num, short(g[i].S), short(g[i].S2))
		case g[i] != w[i]:
			return fmt.Sprintf("property: got 0x%02x num=%d s=%s s2=%s, want 0x%02x num=%d s=%s s2=%s",
				g[i].ID, g[i].Num, short(g[i].S), short(g[i].S2), w[i].ID, w[i].Num, short(w[i].S), short(w[i].S2))
		}
	}
	return ""
}
