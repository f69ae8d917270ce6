package codec

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"pgregory.net/rapid"

	"tinyverif/gen"
	"tinyverif/lib"
	"tinyverif/prop"
	"tinyverif/wire"
)

// ---------------------------------------------------------------- C08

type PrimCase struct {
	Kind  byte // wire.KByte..KStr: encode and decode back; 10+kind: decode arbitrary bytes
	Num   uint32
	S     Blob
	Prop  byte
	Raw   []byte
	Sizes []int
}

func genPrim(t *rapid.T) PrimCase {
	c := PrimCase{Kind: byte(gen.Int(t, "kind", 0, 4)), Prop: rapid.Byte().Draw(t, "prop"), Sizes: GenSizes(t)}
	if gen.Chance(t, "decode", 35) {
		c.Kind += 10
		c.Raw = rapid.SliceOfN(rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte{0, 1, 0x7F, 0x80, 0x81, 0xFF})), 0, 9).Draw(t, "raw")
		return c
	}
	switch c.Kind {
	case wire.KStr:
		if gen.Chance(t, "oversize", 8) {
			c.S = Blob{Lit: "x", N: 65534 + rapid.IntRange(0, 70000).Draw(t, "n")}
		} else {
			c.S = gen.Bin(t, "s", 65535)
		}
	case wire.KVar:
		c.Num = rapid.OneOf(rapid.Uint32Range(0, 300), rapid.Uint32Range(0, 20000), rapid.Uint32Range(0, 268435455), rapid.Uint32()).Draw(t, "v")
		if gen.Chance(t, "boundary", 35) {
			c.Num = gen.Pick(t, "b", []uint32{0, 1, 127, 128, 129, 16383, 16384, 16385, 2097151, 2097152, 2097153, 268435454, 268435455, 268435456, 268435457, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF})
		}
	case wire.KByte:
		c.Num = uint32(gen.Int(t, "v", 0, 255))
	case wire.KU16:
		c.Num = uint32(gen.Int(t, "v", 0, 65535))
	default:
		c.Num = rapid.Uint32().Draw(t, "v")
		if gen.Chance(t, "power", 30) {
			c.Num = uint32(1)<<gen.Int(t, "bit", 0, 31) + uint32(gen.Int(t, "d", -1, 1))
		}
	}
	return c
}

type primitive interface {
	primitives.Primitive
}

// makePrim builds the library value and its reference encoding; refuse means it cannot be encoded.
func makePrim(kind byte, num uint32, s string) (p, zero primitive, enc []byte, refuse bool) {
	switch kind {
	case wire.KByte:
		v := primitives.PrimitiveByte(num)
		return &v, new(primitives.PrimitiveByte), []byte{byte(num)}, false
	case wire.KU16:
		v := primitives.PrimitiveUint16(num)
		return &v, new(primitives.PrimitiveUint16), []byte{byte(num >> 8), byte(num)}, false
	case wire.KU32:
		v := primitives.PrimitiveUint32(num)
		return &v, new(primitives.PrimitiveUint32), []byte{byte(num >> 24), byte(num >> 16), byte(num >> 8), byte(num)}, false
	case wire.KVar:
		v := primitives.VariableByteInt(num)
		return &v, new(primitives.VariableByteInt), wire.AppendVar(nil, num), num > 268435455
	}
	v := primitives.PrimitiveString(s)
	return &v, new(primitives.PrimitiveString), append([]byte{byte(len(s) >> 8), byte(len(s))}, s...), len(s) > 65535
}

func primEq(a, b primitive) bool {
	switch x := a.(type) {
	case *primitives.PrimitiveByte:
		return *x == *b.(*primitives.PrimitiveByte)
	case *primitives.PrimitiveUint16:
		return *x == *b.(*primitives.PrimitiveUint16)
	case *primitives.PrimitiveUint32:
		return *x == *b.(*primitives.PrimitiveUint32)
	case *primitives.VariableByteInt:
		return *x == *b.(*primitives.VariableByteInt)
	case *primitives.PrimitiveString:
		return *x == *b.(*primitives.PrimitiveString)
	}
	return false
}

// refPrim decodes a primitive: size consumed, ok; anyway means a decoder may accept or refuse.
func refPrim(kind byte, b []byte) (v primitive, size int, ok, either bool) {
	need := map[byte]int{wire.KByte: 1, wire.KU16: 2, wire.KU32: 4}[kind]
	switch kind {
	case wire.KVar:
		var x uint32
		for i := 0; i < 4; i++ {
			if i >= len(b) {
				return nil, 0, false, false
			}
			x |= uint32(b[i]&0x7F) << (7 * i)
			if b[i]&0x80 == 0 {
				y := primitives.VariableByteInt(x)
				return &y, i + 1, true, i > 0 && b[i] == 0
			}
		}
		return nil, 0, false, false
	case wire.KStr:
		if len(b) < 2 {
			return nil, 0, false, false
		}
		n := int(b[0])<<8 | int(b[1])
		if len(b) < 2+n {
			return nil, 0, false, false
		}
		y := primitives.PrimitiveString(b[2 : 2+n])
		return &y, 2 + n, true, false
	}
	if len(b) < need {
		return nil, 0, false, false
	}
	var x uint32
	for _, c := range b[:need] {
		x = x<<8 | uint32(c)
	}
	p, _, _, _ := makePrim(kind, x, "")
	return p, need, true, false
}

// Sweep goes through a whole block of values.
type Sweep struct {
	Kind byte
	Lo   uint32
	N    int
	Prop byte
	Step uint32
}

func C08(t *testing.T) {
	prop.Check(t, prop.Spec[Sweep]{ID: "C08", Part: "sweep", Quick: 300, Thorough: 6000,
		Rule: "every case: at least 256 neighbouring values",
		Gen: func(t *rapid.T) Sweep {
			c := Sweep{Kind: byte(gen.Int(t, "kind", 0, 4)), Prop: rapid.Byte().Draw(t, "prop"), N: 4096, Step: 1}
			switch c.Kind {
			case wire.KByte:
				c.N = 256
			case wire.KU16:
				c.Lo = 4096 * uint32(gen.Int(t, "block", 0, 15))
			case wire.KStr:
				c.N = 300
				c.Lo = gen.Pick(t, "len", []uint32{0, 0, 200, 400, 16300, 32700, 65300, uint32(gen.Int(t, "any", 0, 65000))})
			default:
				c.Lo = gen.Pick(t, "lo", []uint32{0, 16384 - 2048, 2097152 - 2048, 268435456 - 2048, 0x80000000 - 2048, 0xFFFFFFFF - 4095, rapid.Uint32().Draw(t, "any")})
				if gen.Chance(t, "stride", 30) {
					c.Step = uint32(gen.Int(t, "step", 1, 1<<20))
				}
			}
			return c
		},
		Run: func(c Sweep) (info prop.Info, err error) {
			info.NonTrivial = true
			info.Add("kind%d", c.Kind)
			for i := 0; i < c.N; i++ {
				x := PrimCase{Kind: c.Kind, Num: c.Lo + uint32(i)*c.Step, Prop: c.Prop, Sizes: []int{1 << 20}}
				if c.Kind == wire.KStr {
					x.S = Blob{Lit: "y", N: int(c.Lo) + i}
				}
				if _, err := runPrim(x); err != nil {
					return info, fmt.Errorf("value %d: %w", x.Num, err)
				}
			}
			return info, nil
		}})
	prop.Check(t, prop.Spec[PrimCase]{ID: "C08", Quick: 50000, Thorough: 500000,
		Rule: "value needing more than one byte, refused value, or arbitrary bytes offered to a decoder",
		Gen:  genPrim,
		Run:  runPrim})
}

func runPrim(c PrimCase) (info prop.Info, err error) {
	kind := c.Kind
	if kind >= 10 {
		kind -= 10
		info.NonTrivial = true
		want, size, ok, either := refPrim(kind, c.Raw)
		_, zero, _, _ := makePrim(kind, 0, "")
		r := &Chunked{B: append([]byte(nil), c.Raw...), Sizes: c.Sizes}
		n, err := zero.ReadFrom(r)
		if err != nil {
			if ok && !either {
				return info, fmt.Errorf("kind %d: decoding % x failed: %v", kind, c.Raw, err)
			}
			info.Add("kind%d refused", kind)
			return info, nil
		}
		if !ok {
			return info, fmt.Errorf("kind %d: decoding % x succeeded, it is not a complete valid value", kind, c.Raw)
		}
		info.Add("kind%d decoded", kind)
		if n != int64(size) || len(c.Raw)-len(r.B) != size || !primEq(zero, want) {
			return info, fmt.Errorf("kind %d: decoding % x gave the wrong value or count (reported %d, consumed %d, want %d)", kind, c.Raw, n, len(c.Raw)-len(r.B), size)
		}
		return info, nil
	}
	p, zero, enc, refuse := makePrim(kind, c.Num, c.S.String())
	info.NonTrivial = len(enc) > 1
	info.Add("kind%d", kind)
	var b1, b2 bytes.Buffer
	n1, err1 := p.WriteTo(&b1)
	n2, err2 := p.WriteToAsProperty(c.Prop, &b2)
	if refuse {
		info.Add("oversize")
		if err1 == nil || err2 == nil {
			return info, fmt.Errorf("kind %d: value out of range was encoded (errors %v, %v; wrote %d and %d bytes)", kind, err1, err2, b1.Len(), b2.Len())
		}
		return info, nil
	}
	if err1 != nil || err2 != nil {
		return info, fmt.Errorf("kind %d value %d: encoding failed: %v, %v", kind, c.Num, err1, err2)
	}
	if !bytes.Equal(b1.Bytes(), enc) {
		return info, fmt.Errorf("kind %d value %d: encoded as % x, want % x", kind, c.Num, clip(b1.Bytes()), clip(enc))
	}
	if !bytes.Equal(b2.Bytes(), append([]byte{c.Prop}, enc...)) {
		return info, fmt.Errorf("kind %d value %d: property encoded as % x, want %02x % x", kind, c.Num, clip(b2.Bytes()), c.Prop, clip(enc))
	}
	if n1 != int64(len(enc)) || n2 != int64(len(enc)+1) {
		return info, fmt.Errorf("kind %d value %d: reported %d and %d bytes, want %d and %d", kind, c.Num, n1, n2, len(enc), len(enc)+1)
	}
	if l1, l2 := p.Length(false), p.Length(true); int(l1) != len(enc) || int(l2) != len(enc)+1 {
		return info, fmt.Errorf("kind %d value %d: Length is %d and %d, want %d and %d", kind, c.Num, l1, l2, len(enc), len(enc)+1)
	}
	r := &Chunked{B: append(append([]byte(nil), enc...), 0x5A), Sizes: c.Sizes}
	n, err := zero.ReadFrom(r)
	if err != nil {
		return info, fmt.Errorf("kind %d value %d: decoding its own encoding: %v", kind, c.Num, err)
	}
	if n != int64(len(enc)) || len(r.B) != 1 || !primEq(zero, p) {
		return info, fmt.Errorf("kind %d value %d: decoding its own encoding gave another value or count (%d of %d)", kind, c.Num, n, len(enc))
	}
	return info, nil
}

// ---------------------------------------------------------------- C29

type PayOp struct {
	Op byte // 0 read 1 write 2 reset
	N  int
	B  []byte `json:",omitempty"`
}

type PayCase struct {
	Payload []byte
	Decoded bool
	Ops     []PayOp
}

func C29(t *testing.T) {
	prop.Check(t, prop.Spec[PayCase]{ID: "C29", Quick: 50000, Thorough: 200000,
		Rule: "at least three operations on a non-empty payload",
		Gen: func(t *rapid.T) PayCase {
			c := PayCase{Payload: rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "payload"), Decoded: rapid.Bool().Draw(t, "decoded")}
			n := rapid.IntRange(1, 10).Draw(t, "n")
			large := gen.Chance(t, "large", 10)
			if large {
				c.Payload = gen.Filler(gen.Int(t, "size", 0, 5000), 0x3C)
				n = gen.Int(t, "n", 3, 40)
			}
			for i := 0; i < n; i++ {
				o := PayOp{Op: byte(gen.Pick(t, "op", []int{0, 0, 0, 1, 1, 1, 2}))}
				if o.Op == 1 {
					o.B = rapid.SliceOfN(rapid.Byte(), 0, 16).Draw(t, "b")
					if large && gen.Chance(t, "large", 50) {
						o.B = gen.Filler(gen.Int(t, "blen", 0, 2500), byte(i))
					}
				} else if o.Op == 0 {
					o.N = rapid.IntRange(0, 16).Draw(t, "len")
					if large && gen.Chance(t, "large", 50) {
						o.N = gen.Int(t, "len", 0, 2500)
					}
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		Run: func(c PayCase) (info prop.Info, err error) {
			info.NonTrivial = len(c.Ops) >= 3 && len(c.Payload) > 0
			p := &packets.Publish{Topic: "t", Payload: append([]byte(nil), c.Payload...)}
			if c.Decoded {
				var b bytes.Buffer
				if _, err := p.WriteTo(&b); err != nil {
					return info, err
				}
				p = &packets.Publish{}
				if _, err := p.ReadFrom(&b); err != nil {
					return info, err
				}
			}
			model := append([]byte(nil), c.Payload...)
			off := 0
			for i, o := range c.Ops {
				room := len(model) - off
				switch o.Op {
				case 2:
					p.Reset()
					off = 0
				case 0:
					info.Add("read")
					buf := bytes.Repeat([]byte{0xEE}, o.N+2)
					n, err := p.Read(buf[:o.N:o.N])
					if n < 0 || n > min(o.N, room) {
						return info, fmt.Errorf("op %d: Read(%d bytes) returned %d with %d left", i, o.N, n, room)
					}
					if room > 0 && o.N > 0 && n == 0 {
						return info, fmt.Errorf("op %d: Read(%d bytes) returned 0, %v with %d left", i, o.N, err, room)
					}
					if room == 0 && o.N > 0 && err != io.EOF {
						return info, fmt.Errorf("op %d: Read at the end returned %v, want EOF", i, err)
					}
					if err != nil && !(err == io.EOF && off+n == len(model)) {
						return info, fmt.Errorf("op %d: Read with %d left returned error %v", i, room, err)
					}
					if !bytes.Equal(buf[:n], model[off:off+n]) {
						return info, fmt.Errorf("op %d: Read returned % x, want % x", i, buf[:n], model[off:off+n])
					}
					if buf[o.N] != 0xEE || buf[o.N+1] != 0xEE {
						return info, fmt.Errorf("op %d: Read wrote beyond its buffer", i)
					}
					off += n
				case 1:
					info.Add("write")
					n, err := p.Write(o.B)
					want := min(len(o.B), room)
					if n != want {
						return info, fmt.Errorf("op %d: Write(%d bytes) with room for %d returned %d, %v", i, len(o.B), room, n, err)
					}
					if room == 0 && len(o.B) > 0 && err != io.EOF {
						return info, fmt.Errorf("op %d: Write on a full payload returned %v, want EOF", i, err)
					}
					if err != nil && off+n < len(model) {
						return info, fmt.Errorf("op %d: Write with room for %d returned %v", i, room, err)
					}
					copy(model[off:], o.B[:n])
					off += n
				}
				if !bytes.Equal(p.Payload, model) {
					return info, fmt.Errorf("op %d: payload is % x, want % x", i, p.Payload, model)
				}
			}
			// whatever happened, resetting and reading everything yields the payload
			p.Reset()
			all, err := io.ReadAll(p)
			if err != nil || !bytes.Equal(all, model) {
				return info, fmt.Errorf("reading everything after a reset gave % x, %v; want % x", all, err, model)
			}
			return info, nil
		}})
}

// ---------------------------------------------------------------- C30

// the words a description must contain, from the reason code table of the specification
var ReasonWords = map[byte][]string{
	0x00: {"success"}, 0x80: {"unspecified"}, 0x81: {"malformed"}, 0x82: {"protocol error"}, 0x83: {"implementation specific"},
	0x84: {"protocol version"}, 0x85: {"client identifier"}, 0x86: {"user name", "password"}, 0x87: {"not authorized"},
	0x88: {"unavailable|not available"}, 0x89: {"busy"}, 0x8A: {"banned"}, 0x8B: {"shutting down"}, 0x8C: {"authentication method"},
	0x8D: {"keep alive|keep-alive"}, 0x8E: {"taken over"}, 0x8F: {"topic filter"}, 0x90: {"topic name"}, 0x91: {"packet identifier", "in use"},
	0x92: {"packet identifier", "not found"}, 0x93: {"receive maximum"}, 0x94: {"topic alias"}, 0x95: {"too large"}, 0x96: {"rate too high"},
	0x97: {"quota"}, 0x98: {"administrative"}, 0x99: {"payload format"}, 0x9A: {"retain"}, 0x9B: {"qos"}, 0x9C: {"another server"},
	0x9D: {"moved"}, 0x9E: {"shared"}, 0x9F: {"connection rate"}, 0xA0: {"maximum connect time"}, 0xA1: {"subscription identifiers"}, 0xA2: {"wildcard"},
}

// CheckReason compares a description with the table.
func CheckReason(code byte, text string) error {
	low := strings.ToLower(text)
	words, known := ReasonWords[code]
	if !known {
		if code >= 0x80 && !strings.Contains(low, "unknown") {
			return fmt.Errorf("unassigned reason code 0x%02x is described as %q", code, text)
		}
		return nil
	}
	for _, w := range words {
		ok := false
		for _, alt := range strings.Split(w, "|") {
			ok = ok || strings.Contains(low, alt)
		}
		if !ok {
			return fmt.Errorf("reason code 0x%02x is described as %q, which does not say %q", code, text, w)
		}
	}
	return nil
}

type ReasonCase struct{ Codes []byte }

func C30(t *testing.T) {
	all := make([]byte, 256)
	for i := range all {
		all[i] = byte(i)
	}
	prop.Check(t, prop.Spec[ReasonCase]{ID: "C30", Part: "table", Quick: 1500, Thorough: 15000,
		Rule: "at least one assigned failure code; every case checks 1-256 codes and all pairs among them",
		Gen: func(t *rapid.T) ReasonCase {
			perm := rapid.Permutation(all).Draw(t, "codes")
			return ReasonCase{perm[:rapid.IntRange(1, 256).Draw(t, "n")]}
		},
		Run: func(c ReasonCase) (info prop.Info, err error) {
			seen := map[string]byte{}
			for _, code := range c.Codes {
				text := mqtt.ReasonCode(code).Error()
				if err := CheckReason(code, text); err != nil {
					return info, err
				}
				if _, known := ReasonWords[code]; known && code >= 0x80 {
					info.NonTrivial = true
					if o, dup := seen[text]; dup {
						return info, fmt.Errorf("reason codes 0x%02x and 0x%02x are both described as %q", o, code, text)
					}
					seen[text] = code
				}
			}
			info.Add("codes>=%d", len(c.Codes)/64*64)
			return info, nil
		}})
}

var _ = errors.New
var _ = lib.Inbound
