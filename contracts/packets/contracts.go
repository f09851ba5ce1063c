package packets

import (
	"io"

	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	vs "github.com/waj334/tinygo-mqtt/mqtt/verifspec"
)

/* ---- fixed header ---- */

//verif:contract (*FixedHeader).SetType
//verif:safety C03
func vcSetType(f *FixedHeader, packetType PacketType) {
	h0 := byte(f.Header)
	vs.Modifies(&f.Header)
	f.SetType(packetType)
	vs.Ensures("C03: SetType sets the type bits and no others", byte(f.Header) == h0&15|byte(packetType)<<4)
}

//verif:contract (*FixedHeader).GetType
//verif:safety C03
func vcGetType(f *FixedHeader) {
	t := f.GetType()
	vs.Ensures("C03: GetType is the type bits", byte(t) == byte(f.Header)>>4)
}

//verif:contract (*FixedHeader).SetFlags
//verif:safety C03
func vcSetFlags(f *FixedHeader, flags primitives.PrimitiveByte) {
	h0 := byte(f.Header)
	vs.Modifies(&f.Header)
	f.SetFlags(flags)
	vs.Ensures("C03: SetFlags sets the flag bits and no others", byte(f.Header) == h0&0xF0|byte(flags)&15)
}

//verif:contract (*FixedHeader).GetFlags
//verif:safety C03
func vcGetFlags(f *FixedHeader) {
	g := f.GetFlags()
	vs.Ensures("C03: GetFlags is the flag bits", byte(g) == byte(f.Header)&15)
}

//verif:contract (*FixedHeader).WriteTo
//verif:safety C03
func vcFixedHeaderWriteTo(f *FixedHeader, w io.Writer) {
	out0, f0 := vs.Out(w), vs.WriteFailed(w)
	n, err := f.WriteTo(w)
	vs.Wrote("C03", w, out0, f0, f.Remaining <= vs.MaxVarInt, vs.Byte(byte(f.Header))+vs.VarInt(uint32(f.Remaining)), n, err)
}

// vReadHeader: the fixed header at s[pos:].
func vReadHeader(s string, pos int) (first byte, remaining uint32, next int, ok bool) {
	first, p1, ok1 := vs.ReadByte(s, pos)
	remaining, next, ok2 := vs.ReadVarInt(s, p1)
	return first, remaining, next, ok1 && ok2
}

//verif:contract (*FixedHeader).ReadFrom
//verif:safety C03
func vcFixedHeaderReadFrom(f *FixedHeader, r io.Reader) {
	pos := vs.Pos(r)
	first, remaining, next, ok := vReadHeader(vs.In(r), pos)
	vs.Modifies(f)
	n, err := f.ReadFrom(r)
	vs.Ensures("C03: reading succeeds exactly on a well-formed header", (err == nil) == ok)
	vs.Ensures("C03: the header byte is read", err != nil || byte(f.Header) == first)
	vs.Ensures("C03: the remaining length is read", err != nil || uint32(f.Remaining) == remaining)
	vs.Ensures("C03: exactly the header is consumed", err != nil || vs.Pos(r) == next)
	vs.Ensures("C03: the reported count is the number of bytes consumed", err != nil || n == int64(next-pos))
	vs.Cover("C03: success is possible", err == nil)
}

/* ---- encoders ---- */

//verif:contract (*Connect).WriteTo
//verif:safety C04
func vcConnectWriteTo(c *Connect, w io.Writer) {
	out0, f0 := vs.Out(w), vs.WriteFailed(w)
	fits, data := vConnectFits(c), vPacket(0x10, vConnectBody(c))
	n, err := c.WriteTo(w)
	vs.Encoded("C04", w, out0, f0, fits, data, n, err)
}

//verif:contract (*Publish).WriteTo
//verif:safety C05
func vcPublishWriteTo(p *Publish, w io.Writer) {
	out0, f0 := vs.Out(w), vs.WriteFailed(w)
	named := len(p.Topic) > 0 || p.TopicAlias > 0
	fits, data := vPublishFits(p), vPacket(vPublishFirst(p), vPublishBody(p))
	vs.Modifies(&p.Header)
	n, err := p.WriteTo(w)
	vs.Ensures("C05: a publish without topic and alias is refused", err != nil || named)
	vs.Ensures("C05: nothing of a publish without topic and alias is written", named || vs.Out(w) == out0 && vs.WriteFailed(w) == f0)
	vs.Encoded("C05", w, out0, f0, fits && named, data, n, err)
}

//verif:contract (*Subscribe).WriteTo
//verif:safety C06
func vcSubscribeWriteTo(s *Subscribe, w io.Writer) {
	out0, f0 := vs.Out(w), vs.WriteFailed(w)
	some := len(s.Topics) > 0
	fits, data := vSubscribeFits(s), vPacket(0x82, vSubscribeBody(s))
	n, err := s.WriteTo(w)
	vs.Ensures("C06: an empty topic list is refused", err != nil || some)
	vs.Ensures("C06: nothing of an empty topic list is written", some || vs.Out(w) == out0 && vs.WriteFailed(w) == f0)
	vs.Encoded("C06", w, out0, f0, fits && some, data, n, err)
}

//verif:contract (*Unsubscribe).WriteTo
//verif:safety C06
func vcUnsubscribeWriteTo(u *Unsubscribe, w io.Writer) {
	out0, f0 := vs.Out(w), vs.WriteFailed(w)
	some := len(u.Topics) > 0
	fits, data := vUnsubscribeFits(u), vPacket(0xA2, vUnsubscribeBody(u))
	n, err := u.WriteTo(w)
	vs.Ensures("C06: an empty topic list is refused", err != nil || some)
	vs.Ensures("C06: nothing of an empty topic list is written", some || vs.Out(w) == out0 && vs.WriteFailed(w) == f0)
	vs.Encoded("C06", w, out0, f0, fits && some, data, n, err)
}

//verif:contract (*Puback).WriteTo
//verif:safety C07
func vcPubackWriteTo(p *Puback, w io.Writer) {
	out0, f0 := vs.Out(w), vs.WriteFailed(w)
	first := byte(p.Header.Header)
	if first>>4 == 0 {
		first |= 0x40
	}
	fits, data := vAckFits(p), vPacket(first, vAckBody(p))
	vs.Modifies(&p.Header)
	n, err := p.WriteTo(w)
	vs.Encoded("C07", w, out0, f0, fits, data, n, err)
}

//verif:contract (*Pubrec).WriteTo
//verif:safety C07
func vcPubrecWriteTo(p *Pubrec, w io.Writer) {
	out0, f0 := vs.Out(w), vs.WriteFailed(w)
	fits, data := vAckFits(&p.Puback), vPacket(0x50|byte(p.Header.Header)&15, vAckBody(&p.Puback))
	vs.Modifies(&p.Header)
	n, err := p.WriteTo(w)
	vs.Encoded("C07", w, out0, f0, fits, data, n, err)
}

//verif:contract (*Pubrel).WriteTo
//verif:safety C07
func vcPubrelWriteTo(p *Pubrel, w io.Writer) {
	out0, f0 := vs.Out(w), vs.WriteFailed(w)
	fits, data := vAckFits(&p.Puback), vPacket(0x62, vAckBody(&p.Puback))
	vs.Modifies(&p.Header)
	n, err := p.WriteTo(w)
	vs.Encoded("C07", w, out0, f0, fits, data, n, err)
}

//verif:contract (*Pubcomp).WriteTo
//verif:safety C07
func vcPubcompWriteTo(p *Pubcomp, w io.Writer) {
	out0, f0 := vs.Out(w), vs.WriteFailed(w)
	fits, data := vAckFits(&p.Puback), vPacket(0x70|byte(p.Header.Header)&15, vAckBody(&p.Puback))
	vs.Modifies(&p.Header)
	n, err := p.WriteTo(w)
	vs.Encoded("C07", w, out0, f0, fits, data, n, err)
}

//verif:contract (*Disconnect).WriteTo
//verif:safety C08
func vcDisconnectWriteTo(d *Disconnect, w io.Writer) {
	out0, f0 := vs.Out(w), vs.WriteFailed(w)
	fits, data := vDisconnectFits(d), vPacket(0xE0|byte(d.Header.Header)&15, vDisconnectBody(d))
	vs.Modifies(&d.Header)
	n, err := d.WriteTo(w)
	vs.Encoded("C08", w, out0, f0, fits, data, n, err)
}

//verif:contract (*Auth).WriteTo
//verif:safety C08
func vcAuthWriteTo(a *Auth, w io.Writer) {
	out0, f0 := vs.Out(w), vs.WriteFailed(w)
	fits, data := vAuthFits(a), vPacket(0xF0|byte(a.Header.Header)&15, vAuthBody(a))
	vs.Modifies(&a.Header)
	n, err := a.WriteTo(w)
	vs.Encoded("C08", w, out0, f0, fits, data, n, err)
}

/* ---- decoders: the body of a packet whose fixed header is already in the value ---- */

// vMaxRemaining is the largest remaining length a fixed header can announce.
const vMaxRemaining = 268435455

// vDecoded is the contract of a decoder: it succeeds exactly on a well-formed body, consumes exactly the body and reports
// its length, and the packet is what the specification function says.
func vDecoded(tag string, r io.Reader, pos, next int, ok bool, n int64, err error) {
	vs.Ensures(tag+": decoding succeeds exactly on a well-formed body", (err == nil) == ok)
	vs.Ensures(tag+": exactly the body is consumed", err != nil || vs.Pos(r) == next)
	vs.Ensures(tag+": the reported count is the number of bytes consumed", err != nil || n == int64(next-pos))
	vs.Cover(tag+": success is possible", err == nil)
}

//verif:contract (*Connack).ReadFrom
//verif:safety C09
//verif:opt terminates
func vcConnackReadFrom(c *Connack, r io.Reader) {
	vs.Requires(c.Header.Remaining <= vMaxRemaining)
	pos := vs.Pos(r)
	want, next, ok := vDecodeConnack(vs.In(r), pos, uint32(c.Header.Remaining), *c)
	vs.Modifies(c)
	n, err := c.ReadFrom(r)
	vDecoded("C09", r, pos, next, ok, n, err)
	vs.Ensures("C09: every field has the value sent", err != nil || vs.Same(*c, want))
}

//verif:contract (*Puback).ReadFrom
//verif:safety C11
//verif:opt terminates
func vcPubackReadFrom(p *Puback, r io.Reader) {
	vs.Requires(p.Header.Remaining <= vMaxRemaining)
	pos := vs.Pos(r)
	want, next, ok := vDecodeAck(vs.In(r), pos, uint32(p.Header.Remaining), *p)
	vs.Modifies(p)
	n, err := p.ReadFrom(r)
	vDecoded("C11", r, pos, next, ok, n, err)
	vs.Ensures("C11: every field has the value sent", err != nil || vs.Same(*p, want))
}

//verif:contract (*Suback).ReadFrom
//verif:safety C12
//verif:opt terminates
func vcSubackReadFrom(s *Suback, r io.Reader) {
	vs.Requires(s.Header.Remaining <= vMaxRemaining)
	pos := vs.Pos(r)
	id, reason, props, codes, next, ok := vDecodeSuback(vs.In(r), pos, uint32(s.Header.Remaining), s.ReasonString, s.UserProperties)
	vs.Modifies(s)
	n, err := s.ReadFrom(r)
	vDecoded("C12", r, pos, next, ok, n, err)
	vs.Ensures("C12: the packet identifier is the one sent", err != nil || uint16(s.PacketIdentifier) == id)
	vs.Ensures("C12: the reason string is the one sent", err != nil || s.ReasonString == reason)
	vs.Ensures("C12: the user properties are the ones sent", err != nil || vs.Same(s.UserProperties, props))
	vs.Ensures("C12: the reason codes are the ones sent, in order", err != nil || string(s.ReasonCodes) == codes)
}

//verif:contract (*Unsuback).ReadFrom
//verif:safety C12
//verif:opt terminates
func vcUnsubackReadFrom(u *Unsuback, r io.Reader) {
	vs.Requires(u.Header.Remaining <= vMaxRemaining)
	pos := vs.Pos(r)
	id, reason, props, codes, next, ok := vDecodeSuback(vs.In(r), pos, uint32(u.Header.Remaining), u.ReasonString, u.UserProperties)
	vs.Modifies(u)
	n, err := u.ReadFrom(r)
	vDecoded("C12", r, pos, next, ok, n, err)
	vs.Ensures("C12: the packet identifier is the one sent", err != nil || uint16(u.PacketIdentifier) == id)
	vs.Ensures("C12: the reason string is the one sent", err != nil || u.ReasonString == reason)
	vs.Ensures("C12: the user properties are the ones sent", err != nil || vs.Same(u.UserProperties, props))
	vs.Ensures("C12: the reason codes are the ones sent, in order", err != nil || string(u.ReasonCodes) == codes)
}

//verif:contract (*Disconnect).ReadFrom
//verif:safety C13
//verif:opt terminates
func vcDisconnectReadFrom(d *Disconnect, r io.Reader) {
	vs.Requires(d.Header.Remaining <= vMaxRemaining)
	pos := vs.Pos(r)
	want, next, ok := vDecodeDisconnect(vs.In(r), pos, uint32(d.Header.Remaining), *d)
	vs.Modifies(d)
	n, err := d.ReadFrom(r)
	vDecoded("C13", r, pos, next, ok, n, err)
	vs.Ensures("C13: every field has the value sent", err != nil || vs.Same(*d, want))
}

//verif:contract (*Auth).ReadFrom
//verif:safety C13
//verif:opt terminates
func vcAuthReadFrom(a *Auth, r io.Reader) {
	vs.Requires(a.Header.Remaining <= vMaxRemaining)
	pos := vs.Pos(r)
	want, next, ok := vDecodeAuth(vs.In(r), pos, uint32(a.Header.Remaining), *a)
	vs.Modifies(a)
	n, err := a.ReadFrom(r)
	vDecoded("C13", r, pos, next, ok, n, err)
	vs.Ensures("C13: every field has the value sent", err != nil || vs.Same(*a, want))
}

//verif:contract (*Publish).ReadFrom
//verif:safety C10
//verif:opt terminates
func vcPublishReadFrom(p *Publish, r io.Reader) {
	vs.Requires(byte(p.Header.Header)>>4 != 0 && p.Header.Remaining <= vMaxRemaining)
	pos := vs.Pos(r)
	want, payload, next, ok := vDecodePublish(vs.In(r), pos, byte(p.Header.Header), uint32(p.Header.Remaining), *p)
	empty := len(p.Payload) == 0
	vs.Modifies(p)
	n, err := p.ReadFrom(r)
	vDecoded("C10", r, pos, next, ok, n, err)
	vs.Ensures("C10: the payload is the one sent", err != nil || !empty || string(p.Payload) == payload)
	want.Payload, want.offset = p.Payload, p.offset
	vs.Ensures("C10: every field has the value sent", err != nil || vs.Same(*p, want))
}

// A packet whose type is not set reads the fixed header as well.
//
//verif:contract (*Publish).ReadFrom
//verif:safety C10
//verif:opt terminates
func vcPublishReadFromHeader(p *Publish, r io.Reader) {
	vs.Requires(byte(p.Header.Header)>>4 == 0)
	pos := vs.Pos(r)
	p0 := *p
	first, remaining, start, okh := vReadHeader(vs.In(r), pos)
	p0.Header.Header, p0.Header.Remaining = primitives.PrimitiveByte(first), primitives.VariableByteInt(remaining)
	want, payload, next, okb := vDecodePublish(vs.In(r), start, first, remaining, p0)
	ok := okh && okb
	empty := len(p.Payload) == 0
	vs.Modifies(p)
	n, err := p.ReadFrom(r)
	vDecoded("C10", r, pos, next, ok, n, err)
	vs.Ensures("C10: the payload is the one sent", err != nil || !empty || string(p.Payload) == payload)
	want.Payload, want.offset = p.Payload, p.offset
	vs.Ensures("C10: every field has the value sent", err != nil || vs.Same(*p, want))
}

/* ---- what the client needs of the larger decoders ---- */

//verif:contract (*Publish).ReadFrom
//verif:safety C27 C29
//verif:opt caller terminates
func vcPublishReadFromWhole(p *Publish, r io.Reader) {
	vs.Requires(byte(p.Header.Header)>>4 != 0 && p.Header.Remaining <= vMaxRemaining)
	pos, h := vs.Pos(r), p.Header
	vs.Modifies(p)
	_, err := p.ReadFrom(r)
	vs.Ensures("C27: exactly the body is consumed", err != nil || vs.Pos(r) == pos+int(h.Remaining))
	vs.Ensures("C27: the header stays", p.Header == h)
	vs.Ensures("C20: the quality of service is the one in the header", err != nil || byte(p.QoS) == byte(h.Header)>>1&3)
	topic, at, ok := vs.ReadStr(vs.In(r), pos)
	vs.Ensures("C22: the topic is the first field", err != nil || ok && string(p.Topic) == topic)
	vs.Ensures("C20: the packet identifier follows the topic", err != nil || p.QoS == 0 || uint16(p.PacketIdentifier) == vs.GetU16(vs.In(r), at))
}

//verif:contract (*Puback).ReadFrom
//verif:safety C20 C27 C29
//verif:opt caller terminates
func vcPubackReadFromWhole(p *Puback, r io.Reader) {
	vs.Requires(p.Header.Remaining <= vMaxRemaining && p.ReasonCode == 0)
	pos, h := vs.Pos(r), p.Header
	vs.Modifies(p)
	_, err := p.ReadFrom(r)
	vs.Ensures("C27: exactly the body is consumed", err != nil || vs.Pos(r) == pos+int(h.Remaining) && h.Remaining >= 2)
	vs.Ensures("C27: the header stays", p.Header == h)
	vs.Ensures("C20 C31: the packet identifier is the first field", err != nil || uint16(p.PacketIdentifier) == vs.GetU16(vs.In(r), pos))
	vs.Ensures("C20 C21 C31: the reason code follows, or is 0", err != nil || h.Remaining == 2 && p.ReasonCode == 0 || h.Remaining > 2 && byte(p.ReasonCode) == vs.In(r)[pos+2])
}

//verif:contract (*Suback).ReadFrom
//verif:safety C23 C27 C29
//verif:opt caller terminates
func vcSubackReadFromWhole(s *Suback, r io.Reader) {
	vs.Requires(s.Header.Remaining <= vMaxRemaining)
	pos, h := vs.Pos(r), s.Header
	vs.Modifies(s)
	_, err := s.ReadFrom(r)
	vs.Ensures("C27: exactly the body is consumed", err != nil || vs.Pos(r) == pos+int(h.Remaining))
	vs.Ensures("C27: the header stays", s.Header == h)
	vs.Ensures("C23: the packet identifier is the first field", err != nil || uint16(s.PacketIdentifier) == vs.GetU16(vs.In(r), pos))
}

//verif:contract (*Unsuback).ReadFrom
//verif:safety C23 C27 C29
//verif:opt caller terminates
func vcUnsubackReadFromWhole(s *Unsuback, r io.Reader) {
	vs.Requires(s.Header.Remaining <= vMaxRemaining)
	pos, h := vs.Pos(r), s.Header
	vs.Modifies(s)
	_, err := s.ReadFrom(r)
	vs.Ensures("C27: exactly the body is consumed", err != nil || vs.Pos(r) == pos+int(h.Remaining))
	vs.Ensures("C27: the header stays", s.Header == h)
	vs.Ensures("C23: the packet identifier is the first field", err != nil || uint16(s.PacketIdentifier) == vs.GetU16(vs.In(r), pos))
}

//verif:contract (*Disconnect).ReadFrom
//verif:safety C24 C27 C29
//verif:opt caller terminates
func vcDisconnectReadFromWhole(d *Disconnect, r io.Reader) {
	vs.Requires(d.Header.Remaining <= vMaxRemaining)
	pos, h := vs.Pos(r), d.Header
	vs.Modifies(d)
	_, err := d.ReadFrom(r)
	vs.Ensures("C27: exactly the body is consumed", err != nil || vs.Pos(r) == pos+int(h.Remaining))
	vs.Ensures("C27: the header stays", d.Header == h)
}

//verif:contract (*Auth).ReadFrom
//verif:safety C27 C29
//verif:opt caller terminates
func vcAuthReadFromWhole(a *Auth, r io.Reader) {
	vs.Requires(a.Header.Remaining <= vMaxRemaining)
	pos, h := vs.Pos(r), a.Header
	vs.Modifies(a)
	_, err := a.ReadFrom(r)
	vs.Ensures("C27: exactly the body is consumed", err != nil || vs.Pos(r) == pos+int(h.Remaining))
	vs.Ensures("C27: the header stays", a.Header == h)
}

//verif:contract (*Connack).ReadFrom
//verif:safety C18 C29
//verif:opt caller terminates
func vcConnackReadFromWhole(c *Connack, r io.Reader) {
	vs.Requires(c.Header.Remaining <= vMaxRemaining)
	pos, h := vs.Pos(r), c.Header
	vs.Modifies(c)
	_, err := c.ReadFrom(r)
	vs.Ensures("C18: exactly the body is consumed", err != nil || vs.Pos(r) == pos+int(h.Remaining))
	vs.Ensures("C18: the header stays", c.Header == h)
	vs.Ensures("C18: the reason code is the second byte", err != nil || byte(c.ReasonCode) == vs.In(r)[pos+1])
}

/* ---- subscription options: every option call moves the options byte to the specified one, whatever it was before ---- */

// vShared: the filter is one of a shared subscription; vMayShare: it starts like one (a filter such as "$shared" may be
// treated either way).
func vShared(filter primitives.PrimitiveString) bool {
	return len(filter) >= 7 && filter[:7] == "$share/"
}

func vMayShare(filter primitives.PrimitiveString) bool {
	return len(filter) >= 6 && filter[:6] == "$share"
}

// vTopicOK is the invariant of a topic: the reserved bits are clear, and a shared subscription has no no-local bit.
func vTopicOK(t *Topic) bool {
	return byte(t.options)&0xC0 == 0 && (!vShared(t.filter) || byte(t.options)&4 == 0)
}

//verif:contract
func vcTopicZero() {
	var t Topic
	vs.Ensures("C14: a new topic satisfies the invariant", vTopicOK(&t))
	vs.Ensures("C14: a new topic has no options set", t.options == 0 && t.filter == "")
}

//verif:contract (*Topic).SetQoS
//verif:safety C14
func vcTopicSetQoS(t *Topic, qos QoS) {
	vs.Requires(qos <= 2)
	vs.Requires(vTopicOK(t))
	o := byte(t.options)
	vs.Modifies(&t.options)
	r := t.SetQoS(qos)
	vs.Ensures("C14: the option call returns the topic", r == t)
	vs.Ensures("C14: SetQoS sets bits 0-1 and no others", byte(t.options) == o&0xFC|byte(qos))
	vs.Ensures("C14: the invariant of topics is kept", vTopicOK(t))
}

//verif:contract (*Topic).SetRetainHandling
//verif:safety C14
func vcTopicSetRetainHandling(t *Topic, handling RetainHandlingOption) {
	vs.Requires(handling <= 2)
	vs.Requires(vTopicOK(t))
	o := byte(t.options)
	vs.Modifies(&t.options)
	r := t.SetRetainHandling(handling)
	vs.Ensures("C14: the option call returns the topic", r == t)
	vs.Ensures("C14: SetRetainHandling sets bits 4-5 and no others", byte(t.options) == o&0xCF|byte(handling)<<4)
	vs.Ensures("C14: the invariant of topics is kept", vTopicOK(t))
}

//verif:contract (*Topic).SetRetainAsPublished
//verif:safety C14
func vcTopicSetRetainAsPublished(t *Topic, on bool) {
	vs.Requires(vTopicOK(t))
	o := byte(t.options)
	var bit byte
	if on {
		bit = 8
	}
	vs.Modifies(&t.options)
	r := t.SetRetainAsPublished(on)
	vs.Ensures("C14: the option call returns the topic", r == t)
	vs.Ensures("C14: SetRetainAsPublished sets bit 3 and no others", byte(t.options) == o&0xF7|bit)
	vs.Ensures("C14: the invariant of topics is kept", vTopicOK(t))
}

//verif:contract (*Topic).SetNoLocal
//verif:safety C14
func vcTopicSetNoLocal(t *Topic, on bool) {
	vs.Requires(vTopicOK(t))
	o := byte(t.options)
	vs.Modifies(&t.options)
	r := t.SetNoLocal(on)
	vs.Ensures("C14: the option call returns the topic", r == t)
	vs.Ensures("C14: SetNoLocal changes no other bit", byte(t.options)&0xFB == o&0xFB)
	vs.Ensures("C14: SetNoLocal(false) clears bit 2", on || byte(t.options)&4 == 0)
	vs.Ensures("C14: SetNoLocal(true) sets bit 2 unless the filter is shared", !on || vMayShare(t.filter) || byte(t.options)&4 != 0)
	vs.Ensures("C14: the invariant of topics is kept", vTopicOK(t))
}

//verif:contract (*Topic).SetFilter
//verif:safety C14
func vcTopicSetFilter(t *Topic, filter string) {
	vs.Requires(vTopicOK(t))
	o := byte(t.options)
	vs.Modifies(t)
	r := t.SetFilter(filter)
	vs.Ensures("C14: the option call returns the topic", r == t)
	vs.Ensures("C14: SetFilter sets the filter", string(t.filter) == filter)
	vs.Ensures("C14: SetFilter changes no bit but no-local", byte(t.options)&0xFB == o&0xFB)
	vs.Ensures("C14: SetFilter never sets no-local", byte(t.options)&4 == 0 || o&4 != 0)
	vs.Ensures("C14: SetFilter keeps no-local unless the filter is shared", byte(t.options) == o || vMayShare(primitives.PrimitiveString(filter)))
	vs.Ensures("C14: the invariant of topics is kept", vTopicOK(t))
}

//verif:contract (*Topic).Filter
//verif:safety C14
func vcTopicFilter(t *Topic) {
	s := t.Filter()
	vs.Ensures("C14: Filter returns the filter", s == string(t.filter))
}

/* ---- the payload of a publish as a byte stream ---- */

//verif:contract
func vcPublishCursorZero() {
	var p Publish
	vs.Ensures("C15: the cursor starts at the start of the payload", p.offset == 0)
}

func vMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

//verif:contract (*Publish).Read
//verif:safety C15
func vcPublishRead(p *Publish, buf []byte) {
	vs.Requires(0 <= p.offset && p.offset <= len(p.Payload))
	o, payload, before := p.offset, string(p.Payload), string(buf)
	want := vMin(len(buf), len(payload)-o)
	vs.Modifies(&p.offset)
	vs.ModifiesBytes(buf)
	n, err := p.Read(buf)
	vs.Ensures("C15: end-of-file exactly when the cursor is at the end of the payload", (err == io.EOF) == (o == len(payload)))
	vs.Ensures("C15: no other error", err == nil || err == io.EOF)
	vs.Ensures("C15: as many bytes are read as there are and fit", n == want)
	vs.Ensures("C15: the cursor advances by the number of bytes read", p.offset == o+n)
	vs.Ensures("C15: the bytes read are the next ones of the payload", string(buf) == payload[o:o+want]+before[want:])
}

//verif:contract (*Publish).Write
//verif:safety C15
func vcPublishWrite(p *Publish, buf []byte) {
	vs.Requires(0 <= p.offset && p.offset <= len(p.Payload))
	o, payload, data := p.offset, string(p.Payload), string(buf)
	want := vMin(len(buf), len(payload)-o)
	vs.Modifies(&p.offset)
	vs.ModifiesBytes(p.Payload)
	n, err := p.Write(buf)
	vs.Ensures("C15: end-of-file exactly when the cursor is at the end of the payload", (err == io.EOF) == (o == len(payload)))
	vs.Ensures("C15: no other error", err == nil || err == io.EOF)
	vs.Ensures("C15: as many bytes are stored as fit", n == want)
	vs.Ensures("C15: the cursor advances by the number of bytes stored", p.offset == o+n)
	vs.Ensures("C15: the bytes are stored at the cursor and nothing else changes", string(p.Payload) == payload[:o]+data[:want]+payload[o+want:])
}

//verif:contract (*Publish).Reset
//verif:safety C15
func vcPublishReset(p *Publish) {
	vs.Modifies(&p.offset)
	p.Reset()
	vs.Ensures("C15: the cursor returns to the start", p.offset == 0)
}
