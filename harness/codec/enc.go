// Package codec holds the properties of the packet encoders and decoders.
package codec

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"testing"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"pgregory.net/rapid"

	"tinyverif/gen"
	"tinyverif/lib"
	"tinyverif/prop"
	"tinyverif/wire"
)

type Blob = gen.Blob

type Pair struct{ K, V Blob }

func genPairs(t *rapid.T, label string, pct int) []Pair {
	if !gen.Chance(t, label+"?", pct) {
		return nil
	}
	n, max := rapid.IntRange(1, 3).Draw(t, label+"n"), 65535
	if gen.Chance(t, label+"many", 4) {
		n, max = gen.Int(t, label+"n", 4, 40), 20
		if gen.Chance(t, label+"crowd", 10) {
			n = gen.Int(t, label+"n", 41, 300)
		}
	}
	var out []Pair
	for i := 0; i < n; i++ {
		k, v := gen.Text(t, label+"k", max), gen.Text(t, label+"v", max)
		dup := false
		for _, p := range out {
			dup = dup || p.K.String() == k.String()
		}
		if !dup {
			out = append(out, Pair{k, v})
		}
	}
	return out
}

func pairMap(ps []Pair) primitives.PrimitiveStringMap {
	if len(ps) == 0 {
		return nil
	}
	m := primitives.PrimitiveStringMap{}
	for _, p := range ps {
		m[lib.S(p.K.String())] = lib.S(p.V.String())
	}
	return m
}

type plist []wire.Prop

func (p *plist) num(id byte, v uint32) {
	if v != 0 {
		*p = append(*p, wire.Prop{ID: id, Num: v})
	}
}
func (p *plist) str(id byte, b Blob) {
	if s := b.String(); s != "" {
		*p = append(*p, wire.Prop{ID: id, S: s})
	}
}
func (p *plist) pairs(ps []Pair) {
	for _, x := range ps {
		*p = append(*p, wire.Prop{ID: 0x26, S: x.K.String(), S2: x.V.String()})
	}
}

func bclass(i *prop.Info, what string, n int) {
	switch {
	case n >= 2097152:
		i.Add("%s>=2097152", what)
	case n >= 16384:
		i.Add("%s>=16384", what)
	case n >= 128:
		i.Add("%s>=128", what)
	}
}

// encode runs an encoder twice and checks what holds for every encoder: one whole packet, same count,
// and the second encoding describes the same packet.
func encode(p io.WriterTo) (*wire.Packet, int, error) {
	var first *wire.Packet
	var size int
	for i := 0; i < 2; i++ {
		var buf bytes.Buffer
		var n int64
		var err error
		if i == 0 {
			n, err = p.WriteTo(&buf)
		} else { // others are encoded and decoded meanwhile
			nw := &noisyWriter{}
			n, err = p.WriteTo(nw)
			buf = nw.Buffer
		}
		if err != nil {
			return nil, 0, fmt.Errorf("encoding failed: %v", err)
		}
		w, sz, err := wire.Decode(buf.Bytes())
		if err != nil {
			return nil, 0, fmt.Errorf("encoded bytes are not a well-formed packet: %v (%d bytes: %.80x)", err, buf.Len(), buf.Bytes())
		}
		if sz != buf.Len() {
			return nil, 0, fmt.Errorf("encoded %d bytes but the packet is %d bytes long: %.80x", buf.Len(), sz, buf.Bytes())
		}
		if n != int64(sz) {
			return nil, 0, fmt.Errorf("WriteTo reported %d bytes, wrote %d", n, sz)
		}
		if i == 0 {
			first, size = w, sz
		} else if sz != size {
			return nil, 0, fmt.Errorf("second encoding has %d bytes, first %d", sz, size)
		} else if a, b := canon(first), canon(w); !reflect.DeepEqual(a, b) {
			return nil, 0, fmt.Errorf("second encoding differs from the first: %.200v, first %.200v", b, a)
		}
	}
	return first, size, nil
}

// canon is a packet with its properties in a fixed order.
func canon(w *wire.Packet) wire.Packet {
	c := *w
	for _, ps := range []*[]wire.Prop{&c.Props, &c.WillProps} {
		*ps = append([]wire.Prop(nil), *ps...)
		sort.SliceStable(*ps, func(i, j int) bool {
			a, b := (*ps)[i], (*ps)[j]
			if a.ID != b.ID {
				return a.ID < b.ID
			}
			if a.S != b.S {
				return a.S < b.S
			}
			return a.S2 < b.S2
		})
	}
	return c
}

// Assign gives the packet dst the settings of src as an application does that uses a packet again: every
// exported field except the fixed header, which is filled in by the encoder.
func Assign(dst, src any) {
	var set func(d, s reflect.Value)
	set = func(d, s reflect.Value) {
		for i := 0; i < d.NumField(); i++ {
			f := d.Type().Field(i)
			switch {
			case f.Anonymous && f.Type.Kind() == reflect.Struct:
				set(d.Field(i), s.Field(i))
			case f.IsExported() && f.Name != "Header":
				d.Field(i).Set(s.Field(i))
			}
		}
	}
	set(reflect.ValueOf(dst).Elem(), reflect.ValueOf(src).Elem())
}

func dropEmpty(ps []wire.Prop, ids ...byte) []wire.Prop {
	var out []wire.Prop
next:
	for _, p := range ps {
		for _, id := range ids {
			if p.ID == id && p.Num == 0 && p.S == "" {
				continue next
			}
		}
		out = append(out, p)
	}
	return out
}

// ---------------------------------------------------------------- C01

type ConnectCase struct {
	Clean                bool
	KeepAlive            uint16
	ClientID, User, Pass Blob
	WillQoS              byte
	WillRetain           bool
	Will, WillTopic      Blob
	WDelay, WExpiry      uint32
	WCType, WResp, WCorr Blob
	WUser                []Pair
	ReqResp, ReqProb     byte
	RecvMax, AliasMax    uint16
	Expiry, MaxPacket    uint32
	UserP                []Pair
	AuthM, AuthD         Blob
	Then                 *ConnectCase `json:",omitempty"` // the struct is used again with these settings
}

func opt16(t *rapid.T, l string) uint16 {
	if gen.Chance(t, l+"set", 45) {
		return gen.U16(t, l)
	}
	return 0
}
func opt32(t *rapid.T, l string) uint32 {
	if gen.Chance(t, l+"set", 45) {
		return gen.U32(t, l)
	}
	return 0
}
func optText(t *rapid.T, l string) Blob {
	if gen.Chance(t, l+"set", 45) {
		return gen.Text(t, l, 65535)
	}
	return Blob{}
}
func optBin(t *rapid.T, l string) Blob {
	if gen.Chance(t, l+"set", 45) {
		return gen.Bin(t, l, 65535)
	}
	return Blob{}
}

func GenConnect(t *rapid.T) ConnectCase {
	c := genConnect(t)
	if gen.Chance(t, "again", 25) {
		d := genConnect(t)
		c.Then = &d
	}
	return c
}

func genConnect(t *rapid.T) ConnectCase {
	c := ConnectCase{Clean: rapid.Bool().Draw(t, "clean"), KeepAlive: opt16(t, "ka"), ClientID: gen.Text(t, "cid", 65535),
		User: optText(t, "user"), Pass: optBin(t, "pass"),
		ReqResp: byte(rapid.IntRange(0, 1).Draw(t, "rr")), ReqProb: byte(rapid.IntRange(0, 1).Draw(t, "rp")),
		RecvMax: opt16(t, "rm"), AliasMax: opt16(t, "am"), Expiry: opt32(t, "ex"), MaxPacket: opt32(t, "mp"), UserP: genPairs(t, "up", 30)}
	if gen.Chance(t, "auth", 40) {
		c.AuthM = gen.NonEmpty(gen.Text(t, "authm", 65535), "m")
		c.AuthD = optBin(t, "authd")
	}
	c.WillTopic = optText(t, "wt")
	if gen.Chance(t, "will", 60) {
		c.Will = gen.NonEmpty(gen.Bin(t, "w", 65535), "w")
		c.WillTopic = gen.NonEmpty(c.WillTopic, "wt")
	}
	// will settings are also drawn without a will payload: they must then not appear at all
	c.WillQoS = byte(gen.Int(t, "wq", 0, 2))
	c.WillRetain = rapid.Bool().Draw(t, "wr")
	c.WDelay, c.WExpiry = opt32(t, "wd"), opt32(t, "we")
	c.WCType, c.WResp, c.WCorr = optText(t, "wct"), optText(t, "wresp"), optBin(t, "wcorr")
	c.WUser = genPairs(t, "wup", 30)
	return c
}

func (c ConnectCase) Lib() *packets.Connect {
	s := func(b Blob) lib.S { return lib.S(b.String()) }
	return &packets.Connect{Version: packets.MQTT5, CleanSession: c.Clean, KeepAlive: lib.U16(c.KeepAlive), ClientId: s(c.ClientID), Username: s(c.User), Password: s(c.Pass),
		WillRetain: c.WillRetain, WillQos: packets.QoS(c.WillQoS), Will: s(c.Will), WillTopic: s(c.WillTopic),
		WillDelayInterval: lib.U32(c.WDelay), WillMessageExpiryInterval: lib.U32(c.WExpiry), WillContentType: s(c.WCType), WillResponseTopic: s(c.WResp), WillCorrelationData: s(c.WCorr), WillUserProperties: pairMap(c.WUser),
		RequestResponseInformation: lib.B(c.ReqResp), RequestProblemInformation: lib.B(c.ReqProb), ReceiveMaximum: lib.U16(c.RecvMax), TopicAliasMaximum: lib.U16(c.AliasMax),
		SessionExpiryInterval: lib.U32(c.Expiry), MaximumPacketSize: lib.U32(c.MaxPacket), UserProperties: pairMap(c.UserP), AuthenticationMethod: s(c.AuthM), AuthenticationData: s(c.AuthD)}
}

// Expect is the packet the reference decoder must find.
func (c ConnectCase) Expect() *wire.Packet {
	w := &wire.Packet{Type: wire.CONNECT, Version: 5, KeepAlive: c.KeepAlive, ClientID: c.ClientID.String(), User: c.User.String(), Pass: c.Pass.String()}
	if c.Clean {
		w.ConnFlags |= 2
	}
	if w.User != "" {
		w.ConnFlags |= 0x80
	}
	if w.Pass != "" {
		w.ConnFlags |= 0x40
	}
	ps := plist{}
	ps.num(0x11, c.Expiry)
	ps.num(0x21, uint32(c.RecvMax))
	ps.num(0x27, c.MaxPacket)
	ps.num(0x22, uint32(c.AliasMax))
	ps.num(0x19, uint32(c.ReqResp))
	ps.num(0x17, uint32(c.ReqProb))
	ps.pairs(c.UserP)
	ps.str(0x15, c.AuthM)
	ps.str(0x16, c.AuthD)
	w.Props = ps
	if c.Will.String() != "" {
		w.ConnFlags |= 4 | c.WillQoS<<3
		if c.WillRetain {
			w.ConnFlags |= 0x20
		}
		w.WillTopic, w.WillPayload = c.WillTopic.String(), c.Will.String()
		wp := plist{}
		wp.num(0x18, c.WDelay)
		wp.num(0x02, c.WExpiry)
		wp.str(0x03, c.WCType)
		wp.str(0x08, c.WResp)
		wp.str(0x09, c.WCorr)
		wp.pairs(c.WUser)
		w.WillProps = wp
	}
	return w
}

// DiffConnect compares a CONNECT found on the wire with the expectation.
func DiffConnect(got, want *wire.Packet) string {
	if got.Type != wire.CONNECT {
		return "not a CONNECT packet"
	}
	for _, d := range []struct {
		n    string
		g, w any
	}{{"version", got.Version, want.Version}, {"connect flags", got.ConnFlags, want.ConnFlags}, {"keep alive", got.KeepAlive, want.KeepAlive},
		{"client id", got.ClientID, want.ClientID}, {"user", got.User, want.User}, {"password", got.Pass, want.Pass},
		{"will topic", got.WillTopic, want.WillTopic}, {"will payload", got.WillPayload, want.WillPayload}} {
		if d.g != d.w {
			return fmt.Sprintf("%s: got %.60q want %.60q", d.n, fmt.Sprint(d.g), fmt.Sprint(d.w))
		}
	}
	if d := wire.DiffProps(dropEmpty(got.Props, 0x16), want.Props); d != "" {
		return "connect " + d
	}
	if d := wire.DiffProps(dropEmpty(got.WillProps, 0x01), want.WillProps); d != "" {
		return "will " + d
	}
	return ""
}

func propsLen(ps []wire.Prop) int {
	n := 0
	for _, p := range ps {
		n += len(wire.AppendProp(nil, p))
	}
	return n
}

func C01(t *testing.T) {
	prop.Check(t, prop.Spec[ConnectCase]{ID: "C01", Quick: 20000, Thorough: 150000,
		Rule: "CONNECT with a will, at least two properties, or a property section of 128 bytes or more",
		Gen:  GenConnect,
		Run: func(c ConnectCase) (info prop.Info, err error) {
			w := c.Expect()
			pl, wl := propsLen(w.Props), propsLen(w.WillProps)
			info.NonTrivial = w.ConnFlags&4 != 0 || len(w.Props) >= 2 || pl >= 128
			bclass(&info, "props", pl)
			bclass(&info, "willprops", wl)
			if w.ConnFlags&4 != 0 {
				info.Add("will")
			}
			p := c.Lib()
			got, _, err := encode(p)
			if err != nil {
				return info, err
			}
			if d := DiffConnect(got, w); d != "" {
				return info, errors.New(d)
			}
			if c.Then != nil {
				info.Add("struct used again")
				Assign(p, c.Then.Lib())
				if got, _, err = encode(p); err != nil {
					return info, fmt.Errorf("struct used again: %v", err)
				}
				if d := DiffConnect(got, c.Then.Expect()); d != "" {
					return info, fmt.Errorf("struct used again: %s", d)
				}
			}
			return info, nil
		}})
}

// ---------------------------------------------------------------- C02

type PublishCase struct {
	Retain, Dup       bool
	QoS               byte
	Topic             Blob
	ID                uint16
	Payload           Blob
	Format            byte
	Expiry            uint32
	Alias             uint16
	Resp, Corr, CType Blob
	UserP             []Pair
	SubID             uint32
	Seek              int          `json:",omitempty"` // bytes of the payload read through its reader beforehand
	Fwd               int          `json:",omitempty"` // 1+QoS given to the decoded packet before it is sent on
	Then              *PublishCase `json:",omitempty"` // the struct is used again with these settings
}

func GenPublish(t *rapid.T) PublishCase {
	c := genPublish(t)
	if gen.Chance(t, "again", 25) {
		d := genPublish(t)
		c.Then = &d
	}
	return c
}

func genPublish(t *rapid.T) PublishCase {
	c := PublishCase{Retain: rapid.Bool().Draw(t, "retain"), QoS: byte(gen.Int(t, "qos", 0, 2))}
	if c.QoS > 0 {
		c.Dup = rapid.Bool().Draw(t, "dup")
		c.ID = gen.U16(t, "id")
	}
	c.Topic = gen.Text(t, "topic", 65535)
	if gen.Int(t, "huge", 0, 149) == 0 {
		c.Payload = Blob{Lit: "\x00\x01payload", N: 2097152 + rapid.IntRange(-64, 64).Draw(t, "hn")}
	} else {
		c.Payload = gen.Bin(t, "payload", 70000)
	}
	if gen.Chance(t, "fmt", 25) {
		c.Format = 1
	}
	c.Expiry, c.Alias = opt32(t, "exp"), opt16(t, "alias")
	if c.Topic.String() == "" && !gen.Chance(t, "notopic", 30) && c.Alias == 0 {
		c.Topic = gen.Lit("a/b")
	}
	c.Resp, c.Corr, c.CType = optText(t, "resp"), optBin(t, "corr"), optText(t, "ctype")
	c.UserP = genPairs(t, "up", 30)
	if gen.Chance(t, "sub", 30) {
		c.SubID = gen.VarInt(t, "subid")
	}
	if gen.Chance(t, "seek?", 15) {
		c.Seek = gen.Int(t, "seek", 1, 9)
	}
	if gen.Chance(t, "fwd?", 30) {
		c.Fwd = gen.Int(t, "fwd", 1, 3)
	}
	return c
}

func (c PublishCase) Lib() *packets.Publish {
	p := &packets.Publish{Retain: c.Retain, QoS: packets.QoS(c.QoS), Duplicate: c.Dup, Topic: lib.S(c.Topic.String()), PacketIdentifier: lib.U16(c.ID),
		Payload: c.Payload.Bytes(), MessageExpiryInterval: lib.U32(c.Expiry), TopicAlias: lib.U16(c.Alias), ResponseTopic: lib.S(c.Resp.String()),
		CorrelationData: lib.S(c.Corr.String()), UserProperties: pairMap(c.UserP), SubscriptionIdentifier: primitives.VariableByteInt(c.SubID), ContentType: lib.S(c.CType.String())}
	p.PayloadFormat = lib.B(c.Format)
	if c.Seek > 0 {
		p.Read(make([]byte, c.Seek))
	}
	return p
}

func (c PublishCase) Expect() *wire.Packet {
	w := &wire.Packet{Type: wire.PUBLISH, Flags: c.QoS << 1, Topic: c.Topic.String(), ID: c.ID, Payload: c.Payload.String()}
	if c.Retain {
		w.Flags |= 1
	}
	if c.Dup {
		w.Flags |= 8
	}
	ps := plist{}
	ps.num(0x01, uint32(c.Format))
	ps.num(0x02, c.Expiry)
	ps.num(0x23, uint32(c.Alias))
	ps.str(0x08, c.Resp)
	ps.str(0x09, c.Corr)
	ps.str(0x03, c.CType)
	ps.num(0x0B, c.SubID)
	ps.pairs(c.UserP)
	w.Props = ps
	return w
}

func C02(t *testing.T) {
	prop.Check(t, prop.Spec[PublishCase]{ID: "C02", Quick: 15000, Thorough: 120000,
		Rule: "PUBLISH with QoS > 0 or at least one property, or a refused one",
		Gen:  GenPublish,
		Run: func(c PublishCase) (info prop.Info, err error) {
			w := c.Expect()
			info.NonTrivial = c.QoS > 0 || len(w.Props) > 0
			bclass(&info, "props", propsLen(w.Props))
			bclass(&info, "packet", len(w.Payload)+len(w.Topic)+propsLen(w.Props))
			info.Add("qos%d", c.QoS)
			p := c.Lib()
			if w.Topic == "" && c.Alias == 0 {
				info.NonTrivial = true
				info.Add("refused")
				var buf bytes.Buffer
				if _, err := p.WriteTo(&buf); err == nil {
					return info, errors.New("PUBLISH without topic and alias was encoded")
				}
				if buf.Len() != 0 {
					return info, fmt.Errorf("refused PUBLISH wrote %d bytes", buf.Len())
				}
				return info, nil
			}
			got, size, err := encode(p)
			if err != nil {
				return info, err
			}
			if d := lib.Diff(got, w); d != "" {
				return info, fmt.Errorf("encoded: %s", d)
			}
			if v := c.Then; v != nil && (v.Topic.String() != "" || v.Alias != 0) {
				info.Add("struct used again")
				q := c.Lib()
				q.WriteTo(io.Discard)
				Assign(q, v.Lib())
				got, _, err := encode(q)
				if err != nil {
					return info, fmt.Errorf("struct used again: %v", err)
				}
				if d := lib.Diff(got, v.Expect()); d != "" {
					return info, fmt.Errorf("struct used again: %s", d)
				}
			}
			// round trip through the library's decoder
			var buf bytes.Buffer
			if _, err := p.WriteTo(&buf); err != nil {
				return info, err
			}
			enc := buf.Bytes()
			for mode := 0; mode < 2; mode++ {
				r := bytes.NewReader(append(append([]byte(nil), enc...), 0xC0, 0x00, 0x55))
				back := &packets.Publish{}
				var hn int64
				if mode == 0 {
					if hn, err = back.Header.ReadFrom(r); err != nil {
						return info, fmt.Errorf("fixed header: %v", err)
					}
				}
				n, err := back.ReadFrom(r)
				if err != nil {
					return info, fmt.Errorf("decoding its own encoding (header read first: %v): %v", mode == 0, err)
				}
				if hn+n != int64(size) || r.Len() != 3 {
					return info, fmt.Errorf("decoding its own encoding (header read first: %v): reported %d of %d bytes, %d left of 3", mode == 0, hn+n, size, r.Len())
				}
				if d := lib.Diff(lib.Convert(back), w); d != "" {
					return info, fmt.Errorf("round trip (header read first: %v): %s", mode == 0, d)
				}
				if c.Fwd > 0 {
					// send the received packet on with other flags
					info.Add("forwarded")
					v := *w
					v.Flags = byte(c.Fwd-1) << 1
					back.QoS, back.Retain, back.Duplicate = packets.QoS(c.Fwd-1), false, false
					v.ID = 0
					if c.Fwd > 1 {
						v.ID = 0x1234
						back.PacketIdentifier = 0x1234
					}
					got, _, err := encode(back)
					if err != nil {
						return info, fmt.Errorf("sending a received packet on: %v", err)
					}
					if d := lib.Diff(got, &v); d != "" {
						return info, fmt.Errorf("sending a received packet on: %s", d)
					}
				}
			}
			return info, nil
		}})
}

// ---------------------------------------------------------------- C03

type TopicOp struct {
	Op  byte // 0 filter 1 qos 2 nolocal 3 rap 4 rh
	Val byte
	F   Blob `json:",omitempty"`
}

type SubCase struct {
	Unsub  bool
	ID     uint16
	SubID  uint32
	UserP  []Pair
	Topics [][]TopicOp
}

var filterPool = []string{"a", "a/b", "$share", "$share/", "$share/g/t", "$sharex", "$shar", "", "+/x", "#", "$share/g/#"}

func genFilter(t *rapid.T) Blob {
	if gen.Chance(t, "pool", 65) {
		return gen.Lit(gen.Pick(t, "filter", filterPool))
	}
	return gen.Text(t, "filter", 65535)
}

func genTopicOps(t *rapid.T) []TopicOp {
	n := rapid.IntRange(0, 7).Draw(t, "nops")
	var ops []TopicOp
	for i := 0; i < n; i++ {
		o := TopicOp{Op: byte(gen.Int(t, "op", 0, 4))}
		switch o.Op {
		case 0:
			o.F = genFilter(t)
		case 1, 4:
			o.Val = byte(gen.Int(t, "v", 0, 2))
		default:
			o.Val = byte(gen.Int(t, "v", 0, 1))
		}
		ops = append(ops, o)
	}
	return ops
}

func GenSub(t *rapid.T) SubCase {
	c := SubCase{Unsub: rapid.Bool().Draw(t, "unsub"), ID: gen.U16(t, "id"), UserP: genPairs(t, "up", 40)}
	if !c.Unsub && gen.Chance(t, "sid", 40) {
		c.SubID = gen.VarInt(t, "subid")
	}
	n := rapid.IntRange(0, 4).Draw(t, "ntopics")
	for i := 0; i < n; i++ {
		c.Topics = append(c.Topics, genTopicOps(t))
	}
	if gen.Chance(t, "many", 3) {
		most := 60
		if gen.Chance(t, "very many", 20) {
			most = 600
		}
		for i := gen.Int(t, "more", 1, most); i > 0; i-- {
			c.Topics = append(c.Topics, []TopicOp{{Op: 0, F: gen.Lit(gen.Pick(t, "filter", filterPool))}, {Op: 1, Val: byte(gen.Int(t, "v", 0, 2))}})
		}
	}
	return c
}

func shared(f string) bool { return len(f) >= 7 && f[:7] == "$share/" }

// Apply runs the setters on a library topic and computes the expectation; either lists option bits that
// may have either value.
func Apply(ops []TopicOp, tp *packets.Topic) (want wire.Filter, either byte) {
	hist := false // no-local was set and then a shared filter was seen
	for _, o := range ops {
		on := o.Val != 0
		switch o.Op {
		case 0:
			want.Filter = o.F.String()
			tp.SetFilter(want.Filter)
			if shared(want.Filter) && want.Opts&4 != 0 {
				hist = true
			}
		case 1:
			want.Opts = want.Opts&^3 | o.Val
			tp.SetQoS(packets.QoS(o.Val))
		case 2:
			want.Opts &^= 4
			hist = false
			if on {
				want.Opts |= 4
				hist = shared(want.Filter)
			}
			tp.SetNoLocal(on)
		case 3:
			want.Opts &^= 8
			if on {
				want.Opts |= 8
			}
			tp.SetRetainAsPublished(on)
		case 4:
			want.Opts = want.Opts&^0x30 | o.Val<<4
			tp.SetRetainHandling(packets.RetainHandlingOption(o.Val))
		}
	}
	if shared(want.Filter) {
		want.Opts &^= 4
	} else if hist {
		either = 4
	}
	return
}

func (c SubCase) Build() (io.WriterTo, []wire.Filter, []byte) {
	var topics []packets.Topic
	var want []wire.Filter
	var either []byte
	for _, ops := range c.Topics {
		var tp packets.Topic
		f, e := Apply(ops, &tp)
		topics = append(topics, tp)
		want = append(want, f)
		either = append(either, e)
	}
	if c.Unsub {
		return &packets.Unsubscribe{PacketIdentifier: lib.U16(c.ID), UserProperties: pairMap(c.UserP), Topics: topics}, want, either
	}
	return &packets.Subscribe{PacketIdentifier: lib.U16(c.ID), SubscriptionIdentifier: primitives.VariableByteInt(c.SubID), UserProperties: pairMap(c.UserP), Topics: topics}, want, either
}

func C03(t *testing.T) {
	prop.Check(t, prop.Spec[SubCase]{ID: "C03", Quick: 25000, Thorough: 200000,
		Rule: "at least one topic with two or more setter calls, or a refused packet",
		Gen:  GenSub,
		Run: func(c SubCase) (info prop.Info, err error) {
			p, want, either := c.Build()
			if len(c.Topics) == 0 {
				info.NonTrivial = true
				info.Add("refused")
				var buf bytes.Buffer
				if _, err := p.WriteTo(&buf); err == nil {
					return info, errors.New("packet without topics was encoded")
				}
				if buf.Len() != 0 {
					return info, fmt.Errorf("refused packet wrote %d bytes", buf.Len())
				}
				return info, nil
			}
			for i, ops := range c.Topics {
				info.NonTrivial = info.NonTrivial || len(ops) >= 2
				if shared(want[i].Filter) {
					info.Add("shared filter")
				}
			}
			typ := byte(wire.SUBSCRIBE)
			if c.Unsub {
				typ = wire.UNSUBSCRIBE
			}
			info.Add("%s", wire.Names[typ])
			got, _, err := encode(p)
			if err != nil {
				return info, err
			}
			if got.Type != typ || got.ID != c.ID {
				return info, fmt.Errorf("got type %d identifier %d, want type %d identifier %d", got.Type, got.ID, typ, c.ID)
			}
			ps := plist{}
			ps.num(0x0B, c.SubID)
			ps.pairs(c.UserP)
			bclass(&info, "props", propsLen(ps))
			if d := wire.DiffProps(got.Props, ps); d != "" {
				return info, errors.New(d)
			}
			if len(got.Filters) != len(want) {
				return info, fmt.Errorf("%d filters on the wire, want %d", len(got.Filters), len(want))
			}
			for i, f := range got.Filters {
				if f.Filter != want[i].Filter {
					return info, fmt.Errorf("filter %d: got %.60q want %.60q", i, f.Filter, want[i].Filter)
				}
				if !c.Unsub && (f.Opts^want[i].Opts)&^either[i] != 0 {
					return info, fmt.Errorf("filter %d %.60q: options %08b, want %08b", i, f.Filter, f.Opts, want[i].Opts)
				}
			}
			return info, nil
		}})
}

// ---------------------------------------------------------------- C04

type AckCase struct {
	Type   byte
	ID     uint16
	Reason byte
	RS     Blob
	UserP  []Pair
	Expiry uint32 // DISCONNECT
	Ref    Blob   // DISCONNECT
	AuthM  Blob   // AUTH
	AuthD  Blob
	Then   *AckCase `json:",omitempty"` // the struct is used again with these settings
	Fwd    bool     `json:",omitempty"` // the struct was received before it is sent
	From   byte     `json:",omitempty"` // as an acknowledgement of this type
}

var ackTypes = []byte{wire.PUBACK, wire.PUBREC, wire.PUBREL, wire.PUBCOMP, wire.DISCONNECT, wire.AUTH}

func GenAck(t *rapid.T) AckCase {
	c := genAck(t, gen.Pick(t, "type", ackTypes))
	c.Fwd = gen.Chance(t, "fwd", 20)
	if c.Fwd && c.Type >= wire.PUBREC && c.Type <= wire.PUBCOMP && gen.Chance(t, "from", 60) {
		c.From = gen.Pick(t, "type", []byte{wire.PUBACK, wire.PUBREC, wire.PUBCOMP})
	}
	if gen.Chance(t, "again", 25) {
		d := genAck(t, c.Type)
		c.Then = &d
	}
	return c
}

func genAck(t *rapid.T, typ byte) AckCase {
	c := AckCase{Type: typ, RS: optText(t, "rs"), UserP: genPairs(t, "up", 40)}
	if gen.Chance(t, "reason?", 65) {
		c.Reason = rapid.Byte().Draw(t, "reason")
	}
	switch c.Type {
	case wire.DISCONNECT:
		c.Expiry, c.Ref = opt32(t, "exp"), optText(t, "ref")
	case wire.AUTH:
		if gen.Chance(t, "m?", 60) {
			c.AuthM, c.AuthD = gen.NonEmpty(gen.Text(t, "m", 65535), "m"), optBin(t, "d")
		}
	default:
		c.ID = gen.U16(t, "id")
	}
	return c
}

func (c AckCase) Lib() io.WriterTo {
	a := packets.Puback{PacketIdentifier: lib.U16(c.ID), ReasonCode: lib.B(c.Reason), ReasonString: lib.S(c.RS.String()), UserProperties: pairMap(c.UserP)}
	switch c.Type {
	case wire.PUBACK:
		return &a
	case wire.PUBREC:
		return &packets.Pubrec{Puback: a}
	case wire.PUBREL:
		return &packets.Pubrel{Puback: a}
	case wire.PUBCOMP:
		return &packets.Pubcomp{Puback: a}
	case wire.DISCONNECT:
		return &packets.Disconnect{ReasonCode: lib.B(c.Reason), SessionExpiryInterval: lib.U32(c.Expiry), ReasonString: lib.S(c.RS.String()), UserProperties: pairMap(c.UserP), ServerReference: lib.S(c.Ref.String())}
	}
	return &packets.Auth{AuthenticateReasonCode: lib.B(c.Reason), AuthenticationMethod: lib.S(c.AuthM.String()), AuthenticationData: lib.S(c.AuthD.String()), ReasonString: lib.S(c.RS.String()), UserProperties: pairMap(c.UserP)}
}

func (c AckCase) Expect() *wire.Packet {
	ps := plist{}
	ps.str(0x1F, c.RS)
	ps.pairs(c.UserP)
	ps.num(0x11, c.Expiry)
	ps.str(0x1C, c.Ref)
	ps.str(0x15, c.AuthM)
	ps.str(0x16, c.AuthD)
	return &wire.Packet{Type: c.Type, ID: c.ID, Reason: c.Reason, Props: ps}
}

// ackOf is the acknowledgement inside a packet of one of the four types.
func ackOf(p any) *packets.Puback {
	switch p := p.(type) {
	case *packets.Pubrec:
		return &p.Puback
	case *packets.Pubrel:
		return &p.Puback
	case *packets.Pubcomp:
		return &p.Puback
	}
	return p.(*packets.Puback)
}

// ackAs wraps it as a packet of another type.
func ackAs(typ byte, a packets.Puback) io.WriterTo {
	switch typ {
	case wire.PUBREC:
		return &packets.Pubrec{Puback: a}
	case wire.PUBREL:
		return &packets.Pubrel{Puback: a}
	case wire.PUBCOMP:
		return &packets.Pubcomp{Puback: a}
	}
	return &a
}

func C04(t *testing.T) {
	prop.Check(t, prop.Spec[AckCase]{ID: "C04", Quick: 30000, Thorough: 250000,
		Rule: "packet with a non-zero reason code or a property",
		Gen:  GenAck,
		Run: func(c AckCase) (info prop.Info, err error) {
			w := c.Expect()
			info.NonTrivial = c.Reason != 0 || len(w.Props) > 0
			info.Add("%s", wire.Names[c.Type])
			bclass(&info, "props", propsLen(w.Props))
			p := c.Lib()
			if c.Fwd {
				info.Add("forwarded")
				in := *w
				in.HasReason, in.HasProps = true, true
				if c.From != 0 {
					info.Add("answer made of what was received")
					in.Type = c.From
				}
				if in.Type == wire.PUBREL {
					in.Flags = 2
				}
				pkt, _, _, _, err := lib.DecodeOne(bytes.NewReader(in.Encode()))
				if err != nil {
					return info, fmt.Errorf("decoding the packet: %v", err)
				}
				p = pkt.(io.WriterTo)
				if c.From != 0 {
					p = ackAs(c.Type, *ackOf(pkt))
				}
			}
			got, _, err := encode(p)
			if err != nil {
				return info, err
			}
			got.Props = dropEmpty(got.Props, 0x16)
			if d := lib.Diff(got, w); d != "" {
				return info, errors.New(d)
			}
			if c.Then != nil {
				info.Add("struct used again")
				Assign(p, c.Then.Lib())
				if got, _, err = encode(p); err != nil {
					return info, fmt.Errorf("struct used again: %v", err)
				}
				got.Props = dropEmpty(got.Props, 0x16)
				if d := lib.Diff(got, c.Then.Expect()); d != "" {
					return info, fmt.Errorf("struct used again: %s", d)
				}
			}
			return info, nil
		}})
}
