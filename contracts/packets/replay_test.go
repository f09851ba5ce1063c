package packets

import (
	"bytes"
	"io"
	"reflect"
	"strings"
	"testing"

	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	vs "github.com/waj334/tinygo-mqtt/mqtt/verifspec"
)

func vgStr(g *vs.Gen, n string) primitives.PrimitiveString {
	return primitives.PrimitiveString(g.Str(n))
}

func vgMap(g *vs.Gen, n string) primitives.PrimitiveStringMap {
	m := g.Map(n)
	if m == nil {
		return nil
	}
	r := primitives.PrimitiveStringMap{}
	for k, v := range m {
		r[primitives.PrimitiveString(k)] = primitives.PrimitiveString(v)
	}
	return r
}

func vgU16(g *vs.Gen, n string) primitives.PrimitiveUint16 {
	return primitives.PrimitiveUint16(g.OptUint(n, 16))
}

func vgU32(g *vs.Gen, n string) primitives.PrimitiveUint32 {
	return primitives.PrimitiveUint32(g.OptUint(n, 32))
}

func vgByte(g *vs.Gen, n string) primitives.PrimitiveByte {
	return primitives.PrimitiveByte(g.OptUint(n, 8))
}

// vEncoded checks one encoder run: full encoding, count, and error when the writer fails.
func vEncoded(g *vs.Gen, w io.WriterTo, fits bool, want func() string) string {
	if !fits {
		return ""
	}
	exp := want()
	var buf bytes.Buffer
	n, err := w.WriteTo(&buf)
	if err != nil {
		return "write failed: " + err.Error()
	}
	if m := vs.SamePacket(buf.String(), exp); m != "" {
		return m
	}
	if n != int64(buf.Len()) {
		return vs.Sprintf("reported %d bytes, wrote %d", n, buf.Len())
	}
	if buf.Len() > 0 {
		fw := &vs.FailingWriter{Left: g.Intn("failat", buf.Len())}
		if _, err = w.WriteTo(fw); err == nil {
			return "the writer failed but the write reported success"
		}
	}
	return ""
}

func vgConnect(g *vs.Gen) *Connect {
	c := &Connect{
		Version: MQTT5, CleanSession: g.Bool("c.CleanSession"), KeepAlive: vgU16(g, "c.KeepAlive"),
		ClientId: vgStr(g, "c.ClientId"), Username: vgStr(g, "c.Username"), Password: vgStr(g, "c.Password"),
		WillRetain: g.Bool("c.WillRetain"), WillQos: QoS(g.Intn("c.WillQos", 3)), Will: vgStr(g, "c.Will"),
		WillTopic: vgStr(g, "c.WillTopic"), WillDelayInterval: vgU32(g, "c.WillDelayInterval"),
		WillMessageExpiryInterval: vgU32(g, "c.WillMessageExpiryInterval"), WillContentType: vgStr(g, "c.WillContentType"),
		WillResponseTopic: vgStr(g, "c.WillResponseTopic"), WillCorrelationData: vgStr(g, "c.WillCorrelationData"),
		WillUserProperties:         vgMap(g, "c.WillUserProperties"),
		RequestResponseInformation: vgByte(g, "c.RequestResponseInformation"),
		RequestProblemInformation:  vgByte(g, "c.RequestProblemInformation"),
		ReceiveMaximum:             vgU16(g, "c.ReceiveMaximum"), TopicAliasMaximum: vgU16(g, "c.TopicAliasMaximum"),
		SessionExpiryInterval: vgU32(g, "c.SessionExpiryInterval"), MaximumPacketSize: vgU32(g, "c.MaximumPacketSize"),
		UserProperties: vgMap(g, "c.UserProperties"), AuthenticationMethod: vgStr(g, "c.AuthenticationMethod"),
		AuthenticationData: vgStr(g, "c.AuthenticationData"),
	}
	g.Note("%.600v", vs.Sprintf("%+v", *c))
	return c
}

func vgPublish(g *vs.Gen) *Publish {
	p := &Publish{
		Retain: g.Bool("p.Retain"), QoS: QoS(g.Intn("p.QoS", 3)), Duplicate: g.Bool("p.Duplicate"),
		Topic: vgStr(g, "p.Topic"), PacketIdentifier: vgU16(g, "p.PacketIdentifier"),
		MessageExpiryInterval: vgU32(g, "p.MessageExpiryInterval"), TopicAlias: vgU16(g, "p.TopicAlias"),
		ResponseTopic: vgStr(g, "p.ResponseTopic"), CorrelationData: vgStr(g, "p.CorrelationData"),
		UserProperties: vgMap(g, "p.UserProperties"), ContentType: vgStr(g, "p.ContentType"),
		SubscriptionIdentifier: primitives.VariableByteInt(g.OptUint("p.SubscriptionIdentifier", 28)),
	}
	if s := g.Str("p.Payload"); s != "" {
		p.Payload = []byte(s)
	}
	g.Note("%.600v", vs.Sprintf("%+v", *p))
	return p
}

func vgAck(g *vs.Gen) Puback {
	p := Puback{PacketIdentifier: vgU16(g, "p.PacketIdentifier"), ReasonCode: vgByte(g, "p.ReasonCode"),
		ReasonString: vgStr(g, "p.ReasonString"), UserProperties: vgMap(g, "p.UserProperties")}
	g.Note("%.600v", vs.Sprintf("%+v", p))
	return p
}

func vgTopics(g *vs.Gen) []Topic {
	var ts []Topic
	for i, n := 0, g.Intn("n.Topics", 5); i < n; i++ {
		ts = append(ts, Topic{filter: vgStr(g, "filter"), options: primitives.PrimitiveByte(g.Uint("options", 8))})
	}
	return ts
}

func vgDisconnect(g *vs.Gen) *Disconnect {
	d := &Disconnect{ReasonCode: vgByte(g, "d.ReasonCode"), SessionExpiryInterval: vgU32(g, "d.SessionExpiryInterval"),
		ReasonString: vgStr(g, "d.ReasonString"), UserProperties: vgMap(g, "d.UserProperties"),
		ServerReference: vgStr(g, "d.ServerReference")}
	g.Note("%.600v", vs.Sprintf("%+v", *d))
	return d
}

func vgAuth(g *vs.Gen) *Auth {
	a := &Auth{AuthenticateReasonCode: vgByte(g, "a.AuthenticateReasonCode"), AuthenticationMethod: vgStr(g, "a.AuthenticationMethod"),
		AuthenticationData: vgStr(g, "a.AuthenticationData"), ReasonString: vgStr(g, "a.ReasonString"),
		UserProperties: vgMap(g, "a.UserProperties")}
	g.Note("%.600v", vs.Sprintf("%+v", *a))
	return a
}

func TestVReplayC03(t *testing.T) {
	vs.Replay("C03", map[string]vs.Case{
		"setters": func(g *vs.Gen) string {
			f := FixedHeader{Header: primitives.PrimitiveByte(g.Uint("f.Header", 8)), Remaining: primitives.VariableByteInt(g.Uint("f.Remaining", 32))}
			h0, r0 := byte(f.Header), f.Remaining
			if g.Bool("which") {
				ty := PacketType(g.Intn("packetType", 16))
				f.SetType(ty)
				if byte(f.Header) != h0&15|byte(ty)<<4 || f.GetType() != ty || f.Remaining != r0 || byte(f.GetFlags()) != h0&15 {
					return vs.Sprintf("SetType(%d) on %#x: %#x type %d", ty, h0, byte(f.Header), f.GetType())
				}
			} else {
				fl := byte(g.Uint("flags", 8))
				f.SetFlags(primitives.PrimitiveByte(fl))
				if byte(f.Header) != h0&0xF0|fl&15 || byte(f.GetFlags()) != fl&15 || f.Remaining != r0 || byte(f.GetType()) != h0>>4 {
					return vs.Sprintf("SetFlags(%#x) on %#x: %#x flags %#x", fl, h0, byte(f.Header), byte(f.GetFlags()))
				}
			}
			return ""
		},
		"write": func(g *vs.Gen) string {
			f := FixedHeader{Header: primitives.PrimitiveByte(g.Uint("f.Header", 8)), Remaining: primitives.VariableByteInt(g.Uint("f.Remaining", 28))}
			want := vs.Byte(byte(f.Header)) + vs.VarInt(uint32(f.Remaining))
			var buf bytes.Buffer
			n, err := f.WriteTo(&buf)
			if err != nil || buf.String() != want || n != int64(len(want)) {
				return vs.Sprintf("wrote %q (%d, %v) want %q", buf.String(), n, err, want)
			}
			fw := &vs.FailingWriter{Left: g.Intn("failat", len(want))}
			if _, err := f.WriteTo(fw); err == nil {
				return "the writer failed but the write reported success"
			}
			return ""
		},
		"read": func(g *vs.Gen) string {
			var s string
			if g.Bool("valid") {
				s = vs.Byte(byte(g.Uint("h", 8))) + vs.VarInt(uint32(g.Uint("r", 28))) + g.Bytes("rest", 3)
			} else {
				s = g.Bytes("input", 7)
			}
			g.Note("input %q", s)
			r := g.Reader(s)
			var f FixedHeader
			n, err := f.ReadFrom(r)
			b, p1, ok := vs.ReadByte(s, 0)
			var v uint32
			var p2 int
			if ok {
				v, p2, ok = vs.ReadVarInt(s, p1)
			}
			if ok != (err == nil) {
				return vs.Sprintf("well-formed=%v error=%v", ok, err)
			}
			if ok && (byte(f.Header) != b || uint32(f.Remaining) != v || n != int64(p2) || r.Pos != p2) {
				return vs.Sprintf("read %+v, reported %d, consumed %d", f, n, r.Pos)
			}
			return ""
		},
	}, t.Errorf)
}

func TestVReplayC04(t *testing.T) {
	vs.Replay("C04", map[string]vs.Case{"connect": func(g *vs.Gen) string {
		c := vgConnect(g)
		return vEncoded(g, c, vConnectFits(c), func() string { return vPacket(0x10, vConnectBody(c)) })
	}}, t.Errorf)
}

func TestVReplayC05(t *testing.T) {
	vs.Replay("C05", map[string]vs.Case{"publish": func(g *vs.Gen) string {
		p := vgPublish(g)
		// Header and cursor of an earlier use must not matter.
		if g.Bool("used") {
			p.Header.Header = primitives.PrimitiveByte(g.Uint("p.Header.Header", 8))
			p.Header.Remaining = primitives.VariableByteInt(g.Uint("p.Header.Remaining", 32))
			p.offset = g.Intn("p.offset", len(p.Payload)+1)
		}
		if len(p.Topic) == 0 && p.TopicAlias == 0 {
			var buf bytes.Buffer
			if _, err := p.WriteTo(&buf); err == nil || buf.Len() > 0 {
				return vs.Sprintf("publish without topic: error %v, %d bytes written", err, buf.Len())
			}
			return ""
		}
		return vEncoded(g, p, vPublishFits(p), func() string { return vPacket(vPublishFirst(p), vPublishBody(p)) })
	}}, t.Errorf)
}

func TestVReplayC06(t *testing.T) {
	vs.Replay("C06", map[string]vs.Case{
		"subscribe": func(g *vs.Gen) string {
			s := &Subscribe{PacketIdentifier: vgU16(g, "s.PacketIdentifier"), UserProperties: vgMap(g, "s.UserProperties"),
				SubscriptionIdentifier: primitives.VariableByteInt(g.OptUint("s.SubscriptionIdentifier", 28)), Topics: vgTopics(g)}
			g.Note("%.600v", vs.Sprintf("%+v", *s))
			if len(s.Topics) == 0 {
				var buf bytes.Buffer
				if _, err := s.WriteTo(&buf); err == nil || buf.Len() > 0 {
					return vs.Sprintf("no topics: error %v, %d bytes written", err, buf.Len())
				}
				return ""
			}
			return vEncoded(g, s, vSubscribeFits(s), func() string { return vPacket(0x82, vSubscribeBody(s)) })
		},
		"unsubscribe": func(g *vs.Gen) string {
			s := &Unsubscribe{PacketIdentifier: vgU16(g, "u.PacketIdentifier"), UserProperties: vgMap(g, "u.UserProperties"), Topics: vgTopics(g)}
			g.Note("%.600v", vs.Sprintf("%+v", *s))
			if len(s.Topics) == 0 {
				var buf bytes.Buffer
				if _, err := s.WriteTo(&buf); err == nil || buf.Len() > 0 {
					return vs.Sprintf("no topics: error %v, %d bytes written", err, buf.Len())
				}
				return ""
			}
			return vEncoded(g, s, vUnsubscribeFits(s), func() string { return vPacket(0xA2, vUnsubscribeBody(s)) })
		},
	}, t.Errorf)
}

func TestVReplayC07(t *testing.T) {
	c := map[string]vs.Case{}
	for i, name := range []string{"puback", "pubrec", "pubrel", "pubcomp"} {
		i := i
		c[name] = func(g *vs.Gen) string {
			a := vgAck(g)
			var w io.WriterTo
			var first byte
			switch i {
			case 0:
				first, w = 0x40, &a
			case 1:
				first, w = 0x50, &Pubrec{Puback: a}
			case 2:
				first, w = 0x62, &Pubrel{Puback: a}
			case 3:
				first, w = 0x70, &Pubcomp{Puback: a}
			}
			a0 := a
			return vEncoded(g, w, vAckFits(&a0), func() string { return vPacket(first, vAckBody(&a0)) })
		}
	}
	vs.Replay("C07", c, t.Errorf)
}

func TestVReplayC08(t *testing.T) {
	vs.Replay("C08", map[string]vs.Case{
		"disconnect": func(g *vs.Gen) string {
			d := vgDisconnect(g)
			return vEncoded(g, d, vDisconnectFits(d), func() string { return vPacket(0xE0, vDisconnectBody(d)) })
		},
		"auth": func(g *vs.Gen) string {
			a := vgAuth(g)
			return vEncoded(g, a, vAuthFits(a), func() string { return vPacket(0xF0, vAuthBody(a)) })
		},
	}, t.Errorf)
}

/* ---- decoders ---- */

// vgProps draws a property section body: entries of the given kinds, sometimes damaged.
func vgProps(g *vs.Gen, ids ...byte) string {
	s := ""
	for i, n := 0, g.Intn("n.props", 5); i < n; i++ {
		var id byte
		if g.Intn("unknown", 25) == 0 {
			id = byte(g.Uint("id", 8))
		} else {
			id = ids[g.Intn("id", len(ids))]
		}
		s += vs.Byte(id)
		switch id {
		case 0x01, 0x17, 0x19, 0x24, 0x25, 0x28, 0x29, 0x2A:
			s += vs.Byte(byte(g.Uint("v8", 8)))
		case 0x13, 0x21, 0x22, 0x23:
			s += vs.U16(uint16(g.Uint("v16", 16)))
		case 0x02, 0x11, 0x18, 0x27:
			s += vs.U32(uint32(g.Uint("v32", 32)))
		case 0x0B:
			s += vs.VarInt(uint32(g.Uint("vv", 28)))
		case 0x26:
			s += vs.Str(g.Str("k")) + vs.Str(g.Str("v"))
		default:
			s += vs.Str(g.Str("s"))
		}
	}
	return s
}

// vgBody damages a well-formed body now and then and returns the body stream (with following bytes) and remaining length.
func vgBody(g *vs.Gen, body string) (stream string, remaining uint32) {
	rem := len(body)
	switch g.Intn("damage", 10) {
	case 0: // wrong remaining length
		rem += g.Intn("off", 7) - 3
		if rem < 0 {
			rem = 0
		}
	case 1: // cut
		if len(body) > 0 {
			body = body[:g.Intn("cut", len(body))]
			return body, uint32(rem)
		}
	case 2: // a byte changed
		if len(body) > 0 {
			i := g.Intn("at", len(body))
			body = body[:i] + vs.Byte(byte(g.Uint("newbyte", 8))) + body[i+1:]
		}
	case 3: // arbitrary
		body = g.Bytes("raw", 24)
		rem = len(body)
		if g.Bool("otherrem") {
			rem = g.Intn("rem", 26)
		}
	}
	return body + g.Bytes("rest", 5), uint32(rem)
}

func vSection2(g *vs.Gen, props string) string {
	n := len(props)
	if g.Intn("badlen", 12) == 0 {
		n += g.Intn("lenoff", 9) - 4
		if n < 0 {
			n = 0
		}
	}
	return vs.VarInt(uint32(n)) + props
}

// vNorm makes packets comparable: empty and nil maps and slices are the same.
func vNorm(v any) any {
	switch p := v.(type) {
	case Puback:
		p.Header = FixedHeader{}
		if len(p.UserProperties) == 0 {
			p.UserProperties = nil
		}
		return p
	case Connack:
		p.Header = FixedHeader{}
		if len(p.UserProperties) == 0 {
			p.UserProperties = nil
		}
		return p
	case Publish:
		p.Header = FixedHeader{}
		if len(p.UserProperties) == 0 {
			p.UserProperties = nil
		}
		if len(p.Payload) == 0 {
			p.Payload = nil
		}
		return p
	case Suback:
		p.Header = FixedHeader{}
		if len(p.UserProperties) == 0 {
			p.UserProperties = nil
		}
		return p
	case Disconnect:
		p.Header = FixedHeader{}
		if len(p.UserProperties) == 0 {
			p.UserProperties = nil
		}
		return p
	case Auth:
		p.Header = FixedHeader{}
		if len(p.UserProperties) == 0 {
			p.UserProperties = nil
		}
		return p
	}
	return v
}

func vReplayDecoded(g *vs.Gen, r *vs.Chunked, n int64, err error, got, want any, wantN, wantPos int, ok bool, stream string, rem uint32) string {
	g.Note("remaining=%d stream=%s", rem, vs.Short(stream))
	if ok != (err == nil) {
		return vs.Sprintf("well-formed=%v but error=%v", ok, err)
	}
	if !ok {
		return ""
	}
	if !reflect.DeepEqual(vNorm(got), vNorm(want)) {
		return vs.Sprintf("decoded %.400v\nwant %.400v", vs.Sprintf("%+v", got), vs.Sprintf("%+v", want))
	}
	if int(n) != wantN || r.Pos != wantPos {
		return vs.Sprintf("reported %d (want %d), consumed %d (want %d)", n, wantN, r.Pos, wantPos)
	}
	return ""
}

func TestVReplayC09(t *testing.T) {
	vs.Replay("C09", map[string]vs.Case{"connack": func(g *vs.Gen) string {
		body := vs.Byte(byte(g.Uint("flags", 8))) + vs.Byte(byte(g.Uint("rc", 8)))
		if g.Intn("noprops", 6) != 0 {
			body += vSection2(g, vgProps(g, 0x11, 0x21, 0x24, 0x25, 0x27, 0x12, 0x22, 0x1F, 0x26, 0x28, 0x29, 0x2A, 0x13, 0x1A, 0x1C, 0x15, 0x16))
		}
		s, rem := vgBody(g, body)
		r := g.Reader(s)
		c := Connack{Header: FixedHeader{Header: 0x20, Remaining: primitives.VariableByteInt(rem)}}
		want, next, ok := vDecodeConnack(s, 0, rem, c)
		n, err := c.ReadFrom(r)
		return vReplayDecoded(g, r, n, err, c, want, next, next, ok, s, rem)
	}}, t.Errorf)
}

func TestVReplayC10(t *testing.T) {
	vs.Replay("C10", map[string]vs.Case{"publish": func(g *vs.Gen) string {
		first := byte(0x30 | g.Intn("flags", 16))
		body := vs.Str(g.Str("topic"))
		if first&6 != 0 {
			body += vs.U16(uint16(g.Uint("id", 16)))
		}
		body += vSection2(g, vgProps(g, 0x02, 0x23, 0x08, 0x09, 0x26, 0x0B, 0x03)) + g.Str("payload")
		s, rem := vgBody(g, body)
		var p Publish
		hdr := ""
		if g.Bool("headerfirst") {
			p.Header = FixedHeader{Header: primitives.PrimitiveByte(first), Remaining: primitives.VariableByteInt(rem)}
		} else {
			hdr = vs.Byte(first) + vs.VarInt(rem)
		}
		r := g.Reader(hdr + s)
		want, payload, next, ok := vDecodePublish(hdr+s, len(hdr), first, rem, p)
		if payload != "" {
			want.Payload = []byte(payload)
		}
		n, err := p.ReadFrom(r)
		return vReplayDecoded(g, r, n, err, p, want, next, next, ok, hdr+s, rem)
	}}, t.Errorf)
}

func TestVReplayC11(t *testing.T) {
	vs.Replay("C11", map[string]vs.Case{"ack": func(g *vs.Gen) string {
		body := vs.U16(uint16(g.Uint("id", 16)))
		if k := g.Intn("form", 4); k > 0 {
			body += vs.Byte(byte(g.Uint("rc", 8)))
			if k > 1 {
				body += vSection2(g, vgProps(g, 0x1F, 0x26))
			}
		}
		s, rem := vgBody(g, body)
		r := g.Reader(s)
		p := Puback{Header: FixedHeader{Header: 0x40, Remaining: primitives.VariableByteInt(rem)}}
		want, next, ok := vDecodeAck(s, 0, rem, p)
		var n int64
		var err error
		switch g.Intn("kind", 4) {
		case 0:
			n, err = p.ReadFrom(r)
		case 1:
			q := Pubrec{Puback: p}
			n, err = q.ReadFrom(r)
			p = q.Puback
		case 2:
			q := Pubrel{Puback: p}
			n, err = q.ReadFrom(r)
			p = q.Puback
		default:
			q := Pubcomp{Puback: p}
			n, err = q.ReadFrom(r)
			p = q.Puback
		}
		return vReplayDecoded(g, r, n, err, p, want, next, next, ok, s, rem)
	}}, t.Errorf)
}

func TestVReplayC12(t *testing.T) {
	vs.Replay("C12", map[string]vs.Case{"suback": func(g *vs.Gen) string {
		body := vs.U16(uint16(g.Uint("id", 16))) + vSection2(g, vgProps(g, 0x1F, 0x26)) + g.Bytes("codes", 6)
		if k := g.Intn("manycodes", 12); k < 4 {
			body += strings.Repeat("\x01", []int{120, 255, 300, 5000}[k])
		}
		s, rem := vgBody(g, body)
		r := g.Reader(s)
		h := FixedHeader{Header: 0x90, Remaining: primitives.VariableByteInt(rem)}
		id, reason, m, codes, next, ok := vDecodeSuback(s, 0, rem, "", nil)
		want := Suback{Header: h, PacketIdentifier: primitives.PrimitiveUint16(id), ReasonString: reason, UserProperties: m, ReasonCodes: []byte(codes)}
		var got Suback
		var n int64
		var err error
		if g.Bool("unsub") {
			u := Unsuback{Header: h}
			n, err = u.ReadFrom(r)
			got = Suback(u)
		} else {
			got.Header = h
			n, err = got.ReadFrom(r)
		}
		return vReplayDecoded(g, r, n, err, got, want, next, next, ok, s, rem)
	}}, t.Errorf)
}

func TestVReplayC13(t *testing.T) {
	vs.Replay("C13", map[string]vs.Case{
		"disconnect": func(g *vs.Gen) string {
			body := ""
			if k := g.Intn("form", 5); k > 0 {
				body += vs.Byte(byte(g.Uint("rc", 8)))
				if k > 1 {
					body += vSection2(g, vgProps(g, 0x11, 0x1F, 0x26, 0x1C))
				}
			}
			s, rem := vgBody(g, body)
			r := g.Reader(s)
			p := Disconnect{Header: FixedHeader{Header: 0xE0, Remaining: primitives.VariableByteInt(rem)}}
			want, next, ok := vDecodeDisconnect(s, 0, rem, p)
			n, err := p.ReadFrom(r)
			return vReplayDecoded(g, r, n, err, p, want, next, next, ok, s, rem)
		},
		"auth": func(g *vs.Gen) string {
			body := ""
			if k := g.Intn("form", 5); k > 0 {
				body += vs.Byte(byte(g.Uint("rc", 8)))
				if k > 1 {
					body += vSection2(g, vgProps(g, 0x15, 0x16, 0x1F, 0x26))
				}
			}
			s, rem := vgBody(g, body)
			r := g.Reader(s)
			p := Auth{Header: FixedHeader{Header: 0xF0, Remaining: primitives.VariableByteInt(rem)}}
			want, next, ok := vDecodeAuth(s, 0, rem, p)
			n, err := p.ReadFrom(r)
			return vReplayDecoded(g, r, n, err, p, want, next, next, ok, s, rem)
		},
	}, t.Errorf)
}

/* ---- subscription options, payload cursor ---- */

func TestVReplayC14(t *testing.T) {
	vs.Replay("C14", map[string]vs.Case{"options": func(g *vs.Gen) string {
		var t Topic
		var qos, rh int
		var noLocal, rap bool
		filter := ""
		for i, n := 0, 1+g.Intn("n.calls", 7); i < n; i++ {
			switch g.Intn("call", 5) {
			case 0:
				qos = g.Intn("qos", 3)
				t.SetQoS(QoS(qos))
				g.Note("SetQoS(%d)", qos)
			case 1:
				filter = []string{"", "a", "a/b", "$shar", "$share", "$share/g/t", "$shared", "topic/long", "$sys/x", "x$share"}[g.Intn("filter", 10)]
				g.Note("SetFilter(%q)", filter)
				t.SetFilter(filter)
				if len(filter) >= 6 && filter[:6] == "$share" {
					noLocal = false
				}
			case 2:
				on := g.Bool("nolocal")
				g.Note("SetNoLocal(%v)", on)
				t.SetNoLocal(on)
				noLocal = on && !(len(filter) >= 6 && filter[:6] == "$share")
			case 3:
				rap = g.Bool("rap")
				g.Note("SetRetainAsPublished(%v)", rap)
				t.SetRetainAsPublished(rap)
			default:
				rh = g.Intn("rh", 3)
				g.Note("SetRetainHandling(%d)", rh)
				t.SetRetainHandling(RetainHandlingOption(rh))
			}
			want := byte(qos) | vBit(noLocal, 4) | vBit(rap, 8) | byte(rh)<<4
			if byte(t.options) != want || t.Filter() != filter {
				return vs.Sprintf("options %#x want %#x, filter %q want %q", byte(t.options), want, t.Filter(), filter)
			}
		}
		return ""
	}}, t.Errorf)
}

func TestVReplayC15(t *testing.T) {
	vs.Replay("C15", map[string]vs.Case{"cursor": func(g *vs.Gen) string {
		model := []byte(g.Bytes("payload", 12))
		p := &Publish{Payload: append([]byte(nil), model...)}
		off := 0
		for i, n := 0, 1+g.Intn("n.calls", 8); i < n; i++ {
			switch g.Intn("call", 5) {
			case 0:
				p.Reset()
				off = 0
				g.Note("Reset")
			case 1, 2:
				data := []byte(g.Bytes("data", 6))
				g.Note("Write %q", data)
				n, err := p.Write(data)
				k := copy(model[off:], data)
				if off == len(model) {
					if n != 0 || err == nil {
						return vs.Sprintf("write at the end: %d, %v", n, err)
					}
				} else if n != k || (k == len(data) && err != nil) {
					return vs.Sprintf("write stored %d (%v) want %d", n, err, k)
				}
				off += k
			default:
				buf := make([]byte, g.Intn("size", 7))
				g.Note("Read %d", len(buf))
				n, err := p.Read(buf)
				if off == len(model) {
					if n != 0 || err != io.EOF {
						return vs.Sprintf("read at the end: %d, %v", n, err)
					}
				} else {
					k := len(buf)
					if k > len(model)-off {
						k = len(model) - off
					}
					if n != k || err != nil || string(buf[:n]) != string(model[off:off+n]) {
						return vs.Sprintf("read %d %q (%v) want %q", n, buf[:n], err, model[off:off+k])
					}
					off += k
				}
			}
			if string(p.Payload) != string(model) {
				return vs.Sprintf("payload %q want %q", p.Payload, model)
			}
		}
		return ""
	}}, t.Errorf)
}
