package codec

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"pgregory.net/rapid"

	"tinyverif/gen"
	"tinyverif/lib"
	"tinyverif/prop"
	"tinyverif/wire"
)

// ---------------------------------------------------------------- inbound packets

type PropV struct {
	ID  byte
	Num uint32 `json:",omitempty"`
	S   *Blob  `json:",omitempty"`
	S2  *Blob  `json:",omitempty"`
}

// In describes a well-formed server-to-client packet.
type In struct {
	Type    byte
	Flags   byte   `json:",omitempty"` // PUBLISH: dup/qos/retain
	SP      byte   `json:",omitempty"`
	Reason  byte   `json:",omitempty"`
	Form    int    // 0 shortest, 1 reason only, 2 with properties
	ID      uint16 `json:",omitempty"`
	Topic   Blob
	Payload Blob
	Reasons Blob
	Props   []PropV
}

func (c In) Packet() *wire.Packet {
	w := &wire.Packet{Type: c.Type, Flags: c.Flags, SessionPresent: c.SP, Reason: c.Reason, ID: c.ID, Topic: c.Topic.String(), Payload: c.Payload.String(), Reasons: c.Reasons.Bytes()}
	w.HasReason, w.HasProps = c.Form >= 1, c.Form >= 2
	if c.Type == wire.PUBREL {
		w.Flags = 2
	}
	for _, p := range c.Props {
		q := wire.Prop{ID: p.ID, Num: p.Num}
		if p.S != nil {
			q.S = p.S.String()
		}
		if p.S2 != nil {
			q.S2 = p.S2.String()
		}
		w.Props = append(w.Props, q)
	}
	return w
}

// reason codes a server may use
var connackReasons = []byte{0, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x90, 0x95, 0x97, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9F}
var discReasons = []byte{0, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2}
var ackReasons = []byte{0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x92, 0x97, 0x99}

func genPropValue(t *rapid.T, id byte, max int) PropV {
	p := PropV{ID: id}
	text := func(l string) *Blob { b := gen.Text(t, l, max); return &b }
	zero := gen.Chance(t, "zero", 12)
	switch wire.Kind(id) {
	case wire.KByte:
		p.Num = uint32(rapid.IntRange(0, 1).Draw(t, "b"))
	case wire.KU16:
		if !zero {
			p.Num = uint32(gen.U16(t, "u16"))
		}
		if (id == 0x21 || id == 0x23) && p.Num == 0 {
			p.Num = 1
		}
	case wire.KU32:
		if !zero {
			p.Num = gen.U32(t, "u32")
		}
		if id == 0x27 && p.Num == 0 {
			p.Num = 1
		}
	case wire.KVar:
		p.Num = gen.VarInt(t, "var")
	case wire.KStr:
		p.S = text("s")
	case wire.KBin:
		b := gen.Bin(t, "bin", max)
		p.S = &b
	case wire.KPair:
		p.S, p.S2 = text("k"), text("v")
	}
	return p
}

// GenProps draws a legal property list for a packet type in random order.
func GenProps(t *rapid.T, typ byte, max int) []PropV {
	if !gen.Chance(t, "props?", 75) {
		return nil
	}
	var out []PropV
	if len(wire.Allowed(typ)) == 0 {
		return nil
	}
	ids := rapid.Permutation(wire.Allowed(typ)).Draw(t, "ids")
	k := rapid.IntRange(1, len(ids)).Draw(t, "nprops")
	if gen.Chance(t, "few", 60) && k > 3 {
		k = 1 + k%3
	}
	all := max
	for _, id := range ids[:k] {
		n, max := 1, all
		if wire.Kind(id) == wire.KPair || id == 0x0B && typ == wire.PUBLISH {
			n = rapid.IntRange(1, 3).Draw(t, "rep")
			if max > 100 && gen.Chance(t, "crowd", 2) {
				n, max = gen.Int(t, "rep", 4, 400), 5
			}
		}
		for i := 0; i < n; i++ {
			p := genPropValue(t, id, max)
			if i > 0 && wire.Kind(id) == wire.KPair && gen.Chance(t, "samekey", 30) {
				p.S = out[len(out)-1].S
			}
			out = append(out, p)
		}
	}
	// repeated properties need not be adjacent
	if len(out) > 2 && gen.Chance(t, "rotate", 40) {
		r := rapid.IntRange(1, len(out)-1).Draw(t, "rot")
		out = append(append([]PropV(nil), out[r:]...), out[:r]...)
	}
	return out
}

func GenIn(t *rapid.T, types []byte, max int) In {
	c := In{Type: gen.Pick(t, "type", types), Form: 2}
	c.Props = GenProps(t, c.Type, max)
	short := func() {
		if len(c.Props) == 0 {
			c.Form = gen.Int(t, "form", 0, 2)
		}
	}
	switch c.Type {
	case wire.CONNACK:
		c.Reason = gen.Pick(t, "reason", connackReasons)
		if c.Reason == 0 {
			c.SP = byte(rapid.IntRange(0, 1).Draw(t, "sp"))
		}
	case wire.PUBLISH:
		qos := byte(gen.Int(t, "qos", 0, 2))
		c.Flags = qos<<1 | byte(rapid.IntRange(0, 1).Draw(t, "retain"))
		if qos > 0 {
			c.Flags |= byte(rapid.IntRange(0, 1).Draw(t, "dup")) << 3
			c.ID = gen.U16(t, "id")
		}
		c.Topic = gen.Text(t, "topic", max)
		c.Payload = gen.Bin(t, "payload", max+5000)
		if max > 60000 && gen.Int(t, "huge", 0, 149) == 0 {
			c.Payload = Blob{Lit: "\x00\x01payload", N: 2097152 + rapid.IntRange(-64, 64).Draw(t, "hn")}
		}
	case wire.PUBACK, wire.PUBREC, wire.PUBREL, wire.PUBCOMP:
		c.ID = gen.U16(t, "id")
		short()
		if c.Form > 0 {
			c.Reason = gen.Pick(t, "reason", ackReasons)
		}
	case wire.SUBACK, wire.UNSUBACK:
		c.ID = gen.U16(t, "id")
		most := 300
		if gen.Chance(t, "many", 6) {
			most = 20000
		}
		c.Reasons = gen.NonEmpty(gen.Bin(t, "reasons", most), "\x00")
	case wire.DISCONNECT:
		short()
		if c.Form > 0 {
			c.Reason = gen.Pick(t, "reason", discReasons)
		}
	case wire.AUTH:
		short()
		if c.Form > 0 {
			c.Reason = gen.Pick(t, "reason", []byte{0, 0x18, 0x19})
		}
	}
	return c
}

func (c In) classes(info *prop.Info, w *wire.Packet) {
	info.Add("%s", wire.Names[c.Type])
	if c.Form < 2 {
		info.Add("short form")
	}
	bclass(info, "props", propsLen(w.Props))
	bclass(info, "payload", len(w.Payload))
	info.NonTrivial = info.NonTrivial || len(w.Props) > 0 || c.Form < 2
}

// ---------------------------------------------------------------- C05

func C05(t *testing.T) {
	prop.Check(t, prop.Spec[In]{ID: "C05", Quick: 30000, Thorough: 250000,
		Rule: "packet with properties or in short form",
		Gen:  func(t *rapid.T) In { return GenIn(t, lib.Inbound, 65535) },
		Run: func(c In) (info prop.Info, err error) {
			w := c.Packet()
			c.classes(&info, w)
			enc := w.Encode()
			tail := []byte{0x55, 0xAA, 0x55}
			r := bytes.NewReader(append(append([]byte(nil), enc...), tail...))
			pkt, h, hn, n, err := lib.DecodeOne(r)
			if err != nil {
				return info, fmt.Errorf("%s: decoding failed: %v (%.80x)", wire.Names[c.Type], err, enc)
			}
			if used := len(enc) + len(tail) - r.Len(); used != len(enc) {
				return info, fmt.Errorf("%s: decoder consumed %d bytes of a %d byte packet (%.80x)", wire.Names[c.Type], used, len(enc), enc)
			}
			if n != int64(h.Remaining) || hn+n != int64(len(enc)) {
				return info, fmt.Errorf("%s: decoder reported %d bytes, the packet has %d after its fixed header (%.80x)", wire.Names[c.Type], n, h.Remaining, enc)
			}
			if d := lib.Diff(lib.Convert(pkt), w); d != "" {
				return info, fmt.Errorf("%s (%.80x)", d, enc)
			}
			// other packets are encoded and decoded meanwhile and afterwards
			nr := &noisyReader{Reader: bytes.NewReader(enc)}
			nr.i = len(enc)
			again, _, _, _, err := lib.DecodeOne(nr)
			if err != nil {
				return info, fmt.Errorf("%s: decoding fails while other packets are decoded and encoded: %v (%.80x)", wire.Names[c.Type], err, enc)
			}
			nr.all()
			for _, p := range []any{pkt, again} {
				if d := lib.Diff(lib.Convert(p), w); d != "" {
					return info, fmt.Errorf("while other packets are decoded and encoded: %s (%.80x)", d, enc)
				}
			}
			if c.Type == wire.PUBLISH {
				r = bytes.NewReader(append(append([]byte(nil), enc...), tail...))
				p := &packets.Publish{}
				n, err := p.ReadFrom(r)
				if err != nil || n != int64(len(enc)) || r.Len() != len(tail) {
					return info, fmt.Errorf("PUBLISH decoded including its header: reported %d of %d bytes, %d left of %d, error %v", n, len(enc), r.Len(), len(tail), err)
				}
				if d := lib.Diff(lib.Convert(p), w); d != "" {
					return info, fmt.Errorf("decoded including its header: %s (%.80x)", d, enc)
				}
			}
			return info, nil
		}})
}

// ---------------------------------------------------------------- C06

// Chunks delivers a stream in pieces: Sizes cycle; EOFWithData returns io.EOF together with the last bytes.
type Chunked struct {
	B           []byte
	Sizes       []int
	EOFWithData bool
	i           int
}

func (c *Chunked) Read(p []byte) (int, error) {
	if len(c.B) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(c.B)
	if len(c.Sizes) > 0 {
		n = c.Sizes[c.i%len(c.Sizes)]
		c.i++
	}
	n = min(n, len(p), len(c.B))
	copy(p, c.B[:n])
	c.B = c.B[n:]
	if len(c.B) == 0 && c.EOFWithData {
		return n, io.EOF
	}
	return n, nil
}

type StreamCase struct {
	Packets []In
	Sizes   []int
	EOF     bool
}

func GenSizes(t *rapid.T) []int {
	if gen.Chance(t, "bytewise", 30) {
		return []int{1}
	}
	return rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(1, 40), rapid.IntRange(1, 3000), rapid.IntRange(1, 100000)), 1, 6).Draw(t, "sizes")
}

func GenStream(types []byte, max int) func(t *rapid.T) StreamCase {
	return func(t *rapid.T) StreamCase {
		c := StreamCase{Sizes: GenSizes(t), EOF: rapid.Bool().Draw(t, "eof")}
		n := rapid.IntRange(1, 4).Draw(t, "npkts")
		for i := 0; i < n; i++ {
			c.Packets = append(c.Packets, GenIn(t, types, max))
			if in := &c.Packets[i]; in.Type == wire.PUBLISH && gen.Chance(t, "large", 15) {
				in.Payload = Blob{Lit: gen.Text(t, "lit", 40).String() + "\x00large payload", N: gen.Int(t, "size", 10000, 300000)}
			}
		}
		return c
	}
}

func C06(t *testing.T) {
	prop.Check(t, prop.Spec[StreamCase]{ID: "C06", Part: "codec", Quick: 10000, Thorough: 150000,
		Rule: "at least one packet with a string, property or payload longer than the smallest chunk",
		Gen:  GenStream(lib.Inbound, 3000),
		Run: func(c StreamCase) (info prop.Info, err error) {
			var stream []byte
			var want []*wire.Packet
			for _, in := range c.Packets {
				w := in.Packet()
				want = append(want, w)
				stream = append(stream, w.Encode()...)
				in.classes(&info, w)
			}
			if c.EOF {
				info.Add("eof with data")
			}
			r := &Chunked{B: stream, Sizes: c.Sizes, EOFWithData: c.EOF}
			var pkts []any
			var nr io.Reader = r
			if len(stream)%2 == 0 {
				info.Add("other packets meanwhile")
				nr = &noisyReader{Reader: r}
			}
			for i, w := range want {
				pkt, _, _, _, err := lib.DecodeOne(nr)
				if err != nil {
					return info, fmt.Errorf("packet %d (%s) of a stream read in chunks of %v: %v", i, wire.Names[w.Type], c.Sizes, err)
				}
				pkts = append(pkts, pkt)
				if d := lib.Diff(lib.Convert(pkt), w); d != "" {
					return info, fmt.Errorf("packet %d of a stream read in chunks of %v: %s", i, c.Sizes, d)
				}
			}
			for i, w := range want {
				if d := lib.Diff(lib.Convert(pkts[i]), w); d != "" {
					return info, fmt.Errorf("packet %d, after later packets were decoded: %s", i, d)
				}
			}
			if len(r.B) != 0 {
				return info, fmt.Errorf("%d bytes left undecoded", len(r.B))
			}
			return info, nil
		}})
}

// ---------------------------------------------------------------- C07

type Edit struct {
	Kind byte // 0 set byte, 1 delete bytes, 2 insert bytes, 3 truncate, 4 flip bit
	Pos  int  // relative: 0..9999 scaled to the length
	B    []byte
	N    int
}

// RawCase is an arbitrary packet: a well-formed one with edits applied to its body, or random bytes.
type RawCase struct {
	Base  *In `json:",omitempty"`
	Hdr   byte
	Body  []byte `json:",omitempty"`
	Edits []Edit
	Extra int // added to the declared remaining length (bytes that never come when positive)
	EOFAt int // -1, or cut the stream after this many per-mille of the bytes
}

func genBodyBytes(t *rapid.T) []byte {
	return rapid.SliceOfN(rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte{0, 1, 2, 3, 5, 8, 9, 0x0B, 0x11, 0x12, 0x15, 0x1F, 0x26, 0x80, 0xFF})), 0, 40).Draw(t, "body")
}

func GenRaw(types []byte) func(t *rapid.T) RawCase {
	return func(t *rapid.T) RawCase {
		c := RawCase{EOFAt: -1}
		if gen.Chance(t, "random", 30) {
			typ := gen.Pick(t, "type", types)
			c.Hdr = typ << 4
			if typ == wire.PUBLISH {
				c.Hdr |= byte(rapid.IntRange(0, 15).Draw(t, "flags"))
			}
			c.Body = genBodyBytes(t)
		} else {
			in := GenIn(t, types, 200)
			c.Base = &in
			c.Hdr = in.Type<<4 | in.Packet().Flags
			if in.Type == wire.PUBLISH && gen.Chance(t, "qos3", 5) {
				c.Hdr |= 6
			}
			n := rapid.IntRange(0, 3).Draw(t, "nedits")
			for i := 0; i < n; i++ {
				e := Edit{Kind: byte(gen.Int(t, "kind", 0, 4))}
				if gen.Chance(t, "front", 60) {
					e.Pos = -1 - rapid.IntRange(0, 12).Draw(t, "abspos") // absolute position near the front
				} else {
					e.Pos = rapid.IntRange(0, 9999).Draw(t, "pos")
				}
				switch e.Kind {
				case 0, 2:
					e.B = rapid.SliceOfN(rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte{0, 1, 0x7F, 0x80, 0xFF, 0x26, 0x1F, 0x11, 0x7E})), 1, 4).Draw(t, "b")
				case 1:
					e.N = rapid.IntRange(1, 5).Draw(t, "n")
				case 4:
					e.N = gen.Int(t, "bit", 0, 7)
				}
				c.Edits = append(c.Edits, e)
			}
		}
		if gen.Chance(t, "extra?", 15) {
			c.Extra = rapid.IntRange(-6, 6).Draw(t, "extra")
		}
		if gen.Chance(t, "cut?", 12) {
			c.EOFAt = gen.Int(t, "cut", 0, 999)
		}
		return c
	}
}

// Bytes is the body as sent and the declared remaining length.
func (c RawCase) Bytes() (hdr byte, body []byte, declared int, cut bool) {
	if c.Base != nil {
		body = c.Base.Packet().Body()
	} else {
		body = append([]byte(nil), c.Body...)
	}
	for _, e := range c.Edits {
		pos := 0
		if e.Pos < 0 {
			pos = -1 - e.Pos
		} else if len(body) > 0 {
			pos = e.Pos * len(body) / 10000
		}
		if pos > len(body) {
			pos = len(body)
		}
		switch e.Kind {
		case 0:
			copy(body[pos:], e.B)
		case 1:
			end := min(len(body), pos+e.N)
			body = append(body[:pos:pos], body[end:]...)
		case 2:
			body = append(body[:pos:pos], append(append([]byte(nil), e.B...), body[pos:]...)...)
		case 3:
			body = body[:pos]
		case 4:
			if pos < len(body) {
				body[pos] ^= 1 << e.N
			}
		}
	}
	declared = max(0, len(body)+c.Extra)
	if c.EOFAt >= 0 {
		body = body[:min(len(body), c.EOFAt*declared/1000)]
	}
	return c.Hdr, body, declared, len(body) < declared
}

// Verdict says what a decoder must do with the packet.
type Verdict struct {
	MustReject bool
	Why        error
	Exact      *wire.Packet // set when the packet is well-formed
}

func Judge(hdr byte, body []byte, declared int) Verdict {
	if len(body) < declared {
		return Verdict{MustReject: true, Why: errors.New("the stream ends inside the packet")}
	}
	body = body[:declared]
	if w, err := wire.DecodeBody(hdr, body); err == nil {
		return Verdict{Exact: w}
	}
	if _, err := wire.DecodeLenient(hdr, body); err != nil {
		return Verdict{MustReject: true, Why: err}
	}
	return Verdict{}
}

func C07(t *testing.T) {
	prop.Check(t, prop.Spec[RawCase]{ID: "C07", Part: "codec", Quick: 60000, Thorough: 600000,
		Rule: "bytes that are not a well-formed packet",
		Gen:  GenRaw(lib.Inbound),
		Run:  runRaw})
}

func runRaw(c RawCase) (info prop.Info, err error) {
	hdr, body, declared, _ := c.Bytes()
	v := Judge(hdr, body, declared)
	name := wire.Names[hdr>>4]
	info.Add("%s", name)
	if v.Exact != nil {
		info.Add("well-formed")
	} else {
		info.NonTrivial = true
		if v.MustReject {
			info.Add("must reject")
		} else {
			info.Add("may reject")
		}
	}
	full := append(wire.AppendVar([]byte{hdr}, uint32(declared)), body...)
	hlen := len(full) - len(body)
	if len(body) >= declared {
		full = append(full, 0x55, 0xAA, 0x55, 0xAA, 0x55, 0xAA, 0x55, 0xAA, 0x01, 0x01, 0x01, 0x01)
	}
	r := bytes.NewReader(full)
	pkt, _, _, n, derr := lib.DecodeOne(r)
	used := len(full) - r.Len() - hlen
	if used > declared {
		return info, fmt.Errorf("%s: decoder took %d bytes of a packet whose remaining length is %d: % x", name, used, declared, body)
	}
	if derr == nil {
		if v.MustReject {
			return info, fmt.Errorf("%s accepted although malformed (%v): header %02x remaining length %d body % x", name, v.Why, hdr, declared, clip(body))
		}
		if used != declared {
			return info, fmt.Errorf("%s accepted after consuming %d of %d bytes: body % x", name, used, declared, clip(body))
		}
		if n != int64(declared) {
			return info, fmt.Errorf("%s accepted reporting %d of %d bytes: body % x", name, n, declared, clip(body))
		}
		if v.Exact != nil {
			if d := lib.Diff(lib.Convert(pkt), v.Exact); d != "" {
				return info, fmt.Errorf("%s: %s", name, d)
			}
		}
	} else if v.Exact != nil {
		return info, fmt.Errorf("%s rejected although well-formed (%v): header %02x body % x", name, derr, hdr, clip(body))
	}
	return info, nil
}

func clip(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}
	return b
}

// ---------------------------------------------------------------- C09

// AnyOut is any encodable packet.
type AnyOut struct {
	Connect *ConnectCase `json:",omitempty"`
	Publish *PublishCase `json:",omitempty"`
	Sub     *SubCase     `json:",omitempty"`
	Ack     *AckCase     `json:",omitempty"`
	In      *In          `json:",omitempty"` // decode instead
	Pos     []int        // positions (per-mille) tried when the packet is long
	Mode    byte         // reader/writer flavour
}

func (a AnyOut) Writer() io.WriterTo {
	switch {
	case a.Connect != nil:
		return a.Connect.Lib()
	case a.Publish != nil:
		return a.Publish.Lib()
	case a.Sub != nil:
		w, _, _ := a.Sub.Build()
		return w
	}
	return a.Ack.Lib()
}

func genAny(t *rapid.T) (a AnyOut) {
	a.Mode = byte(gen.Int(t, "mode", 0, 3))
	a.Pos = rapid.SliceOfN(rapid.IntRange(0, 999), 8, 24).Draw(t, "pos")
	switch gen.Int(t, "what", 0, 7) {
	case 0:
		c := GenConnect(t)
		a.Connect = &c
	case 1:
		c := GenPublish(t)
		if c.Topic.String() == "" && c.Alias == 0 {
			c.Topic = gen.Lit("t")
		}
		a.Publish = &c
	case 2:
		c := GenSub(t)
		if len(c.Topics) == 0 {
			c.Topics = [][]TopicOp{{}}
		}
		a.Sub = &c
	case 3:
		c := GenAck(t)
		a.Ack = &c
	default:
		c := GenIn(t, lib.Inbound, 3000)
		a.In = &c
	}
	return a
}

var errInjected = errors.New("injected transport error")

type failWriter struct {
	left  int
	total int
	mode  byte // 1: nothing of the failing write is taken; 3: only one write fails
	fired bool
}

func (f *failWriter) Write(p []byte) (int, error) {
	if f.mode == 3 && f.fired {
		return len(p), nil
	}
	if len(p) <= f.left {
		f.left -= len(p)
		f.total += len(p)
		return len(p), nil
	}
	n := f.left
	if f.mode == 1 {
		n = 0
	}
	f.left = 0
	f.fired = true
	f.total += n
	return n, errInjected
}

type failReader struct {
	b    []byte
	err  error
	with bool // return the error together with the last bytes
	one  bool
	more []byte // what arrives when the reader is used again after the failure
}

func (f *failReader) Read(p []byte) (int, error) {
	if len(f.b) == 0 {
		f.b, f.more = f.more, nil
		return 0, f.err
	}
	if f.one && len(p) > 1 {
		p = p[:1]
	}
	n := copy(p, f.b)
	f.b = f.b[n:]
	if f.with && len(f.b) == 0 {
		return n, f.err
	}
	return n, nil
}

func positions(total int, pos []int) []int {
	var out []int
	if total <= 300 {
		for i := 0; i < total; i++ {
			out = append(out, i)
		}
		return out
	}
	for i := 0; i < 40; i++ {
		out = append(out, i, total-1-i)
	}
	for _, p := range pos {
		out = append(out, p*total/1000)
	}
	return out
}

func C09(t *testing.T) {
	prop.Check(t, prop.Spec[AnyOut]{ID: "C09", Quick: 7500, Thorough: 60000,
		Rule: "packet of more than 4 bytes; every byte position (up to 300, sampled beyond) is failed",
		Gen:  genAny,
		Run: func(a AnyOut) (info prop.Info, err error) {
			if a.In != nil {
				w := a.In.Packet()
				enc := w.Encode()
				info.Add("decode %s", wire.Names[w.Type])
				info.NonTrivial = len(enc) > 4
				for _, k := range positions(len(enc), a.Pos) {
					for _, e := range []error{errInjected, io.EOF, io.ErrUnexpectedEOF} {
						r := &failReader{b: enc[:k:k], err: e, with: a.Mode == 1, one: a.Mode == 2}
						if a.Mode == 3 && e == errInjected {
							r.more = enc[k:len(enc):len(enc)]
						}
						_, _, _, _, derr := lib.DecodeOne(r)
						if derr == nil {
							return info, fmt.Errorf("decoding %s succeeded although the stream failed with %q after %d of %d bytes (% x)", wire.Names[w.Type], e, k, len(enc), clip(enc))
						}
						if e == errInjected && !errors.Is(derr, errInjected) {
							return info, fmt.Errorf("decoding %s: transport error after %d of %d bytes reported as %q (% x)", wire.Names[w.Type], k, len(enc), derr, clip(enc))
						}
					}
				}
				return info, nil
			}
			p := a.Writer()
			ok := &failWriter{left: 1 << 30}
			n, err := p.WriteTo(ok)
			if err != nil {
				return info, fmt.Errorf("encoding %T failed: %v", p, err)
			}
			info.Add("encode %T", p)
			info.NonTrivial = ok.total > 4
			if n != int64(ok.total) {
				return info, fmt.Errorf("encoding %T reported %d bytes, wrote %d", p, n, ok.total)
			}
			for _, k := range positions(ok.total, a.Pos) {
				f := &failWriter{left: k, mode: a.Mode}
				_, err := p.WriteTo(f)
				if err == nil {
					return info, fmt.Errorf("encoding %T succeeded although the writer failed at byte %d of %d", p, k, ok.total)
				}
				if !errors.Is(err, errInjected) {
					return info, fmt.Errorf("encoding %T: writer error at byte %d of %d reported as %q", p, k, ok.total, err)
				}
			}
			return info, nil
		}})
}

var _ = json.Marshal
