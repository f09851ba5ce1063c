package packets

// Specification functions of the packet encoders and decoders, written from the MQTT 5 standard.

import (
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	vs "github.com/waj334/tinygo-mqtt/mqtt/verifspec"
)

/* ---- encoding ---- */

func vUserProps(m primitives.PrimitiveStringMap) string {
	return vs.FoldMap(m, func(k, v primitives.PrimitiveString) string {
		return vs.Byte(0x26) + vs.Str(string(k)) + vs.Str(string(v))
	})
}

// vPacket is a control packet: fixed header with the exact remaining length, then the body.
func vPacket(first byte, body string) string {
	return vs.Byte(first) + vs.VarInt(uint32(len(body))) + body
}

// vSection is a property section: exact length, then the properties.
func vSection(props string) string {
	return vs.VarInt(uint32(len(props))) + props
}

func vOptByte(id, v byte) string { return vs.Opt(v > 0, vs.Byte(id)+vs.Byte(v)) }

func vOptU16(id byte, v uint16) string { return vs.Opt(v > 0, vs.Byte(id)+vs.U16(v)) }

func vOptU32(id byte, v uint32) string { return vs.Opt(v > 0, vs.Byte(id)+vs.U32(v)) }

func vOptStr(id byte, v string) string { return vs.Opt(len(v) > 0, vs.Byte(id)+vs.Str(v)) }

func vConnectProps(c *Connect) string {
	return vOptU32(0x11, uint32(c.SessionExpiryInterval)) +
		vOptU16(0x21, uint16(c.ReceiveMaximum)) +
		vOptU32(0x27, uint32(c.MaximumPacketSize)) +
		vOptU16(0x22, uint16(c.TopicAliasMaximum)) +
		vOptByte(0x19, byte(c.RequestResponseInformation)) +
		vOptByte(0x17, byte(c.RequestProblemInformation)) +
		vUserProps(c.UserProperties) +
		vs.Opt(len(c.AuthenticationMethod) > 0,
			vs.Byte(0x15)+vs.Str(string(c.AuthenticationMethod))+
				vs.Byte(0x16)+vs.Str(string(c.AuthenticationData)))
}

func vWillProps(c *Connect) string {
	return vOptU32(0x18, uint32(c.WillDelayInterval)) +
		vs.Byte(0x01) + vs.Byte(0) +
		vOptU32(0x02, uint32(c.WillMessageExpiryInterval)) +
		vOptStr(0x03, string(c.WillContentType)) +
		vOptStr(0x08, string(c.WillResponseTopic)) +
		vOptStr(0x09, string(c.WillCorrelationData)) +
		vUserProps(c.WillUserProperties)
}

func vBit(on bool, bit byte) byte {
	if on {
		return bit
	}
	return 0
}

func vConnectFlags(c *Connect) byte {
	will := len(c.Will) > 0
	var qos byte
	if will {
		qos = byte(c.WillQos) << 3
	}
	return vBit(c.CleanSession, 0x02) | vBit(will, 0x04) | qos | vBit(will && c.WillRetain, 0x20) |
		vBit(len(c.Password) > 0, 0x40) | vBit(len(c.Username) > 0, 0x80)
}

func vConnectBody(c *Connect) string {
	return vs.Str("MQTT") + vs.Byte(byte(c.Version)) + vs.Byte(vConnectFlags(c)) + vs.U16(uint16(c.KeepAlive)) +
		vSection(vConnectProps(c)) +
		vs.Str(string(c.ClientId)) +
		vs.Opt(len(c.Will) > 0, vSection(vWillProps(c))+vs.Str(string(c.WillTopic))+vs.Str(string(c.Will))) +
		vs.Opt(len(c.Username) > 0, vs.Str(string(c.Username))) +
		vs.Opt(len(c.Password) > 0, vs.Str(string(c.Password)))
}

// vStrFits: the string has an MQTT encoding.
func vStrFits(s primitives.PrimitiveString) bool { return len(s) <= 65535 }

func vMapFits(m primitives.PrimitiveStringMap) bool {
	return vs.ForallMap(m, func(k, v primitives.PrimitiveString) bool { return vStrFits(k) && vStrFits(v) })
}

func vConnectFits(c *Connect) bool {
	return vStrFits(c.ClientId) && vStrFits(c.Username) && vStrFits(c.Password) && vStrFits(c.Will) &&
		vStrFits(c.WillTopic) && vStrFits(c.WillContentType) && vStrFits(c.WillResponseTopic) &&
		vStrFits(c.WillCorrelationData) && vMapFits(c.WillUserProperties) && vMapFits(c.UserProperties) &&
		vStrFits(c.AuthenticationMethod) && vStrFits(c.AuthenticationData) && c.WillQos <= 2 &&
		len(vConnectBody(c)) <= vs.MaxVarInt
}

func vPublishProps(p *Publish) string {
	return vOptU32(0x02, uint32(p.MessageExpiryInterval)) +
		vOptU16(0x23, uint16(p.TopicAlias)) +
		vOptStr(0x08, string(p.ResponseTopic)) +
		vOptStr(0x09, string(p.CorrelationData)) +
		vUserProps(p.UserProperties) +
		vs.Opt(p.SubscriptionIdentifier > 0, vs.Byte(0x0B)+vs.VarInt(uint32(p.SubscriptionIdentifier))) +
		vOptStr(0x03, string(p.ContentType))
}

func vPublishFirst(p *Publish) byte {
	return 0x30 | vBit(p.Retain, 1) | byte(p.QoS)<<1 | vBit(p.Duplicate, 8)
}

func vPublishBody(p *Publish) string {
	return vs.Str(string(p.Topic)) + vs.Opt(p.QoS > 0, vs.U16(uint16(p.PacketIdentifier))) +
		vSection(vPublishProps(p)) + string(p.Payload)
}

func vPublishFits(p *Publish) bool {
	return p.QoS <= 2 && vStrFits(p.Topic) && vStrFits(p.ResponseTopic) && vStrFits(p.CorrelationData) &&
		vStrFits(p.ContentType) && vMapFits(p.UserProperties) && p.SubscriptionIdentifier <= vs.MaxVarInt &&
		len(vPublishBody(p)) <= vs.MaxVarInt
}

func vAckProps(p *Puback) string {
	return vOptStr(0x1F, string(p.ReasonString)) + vUserProps(p.UserProperties)
}

// vAckBody: MQTT 5 allows the property length, and then the reason code, to be left out. The code's shortest form has one
// byte after the identifier, which a receiver parses as the reason code.
func vAckBody(p *Puback) string {
	if p.ReasonCode == 0 && len(vAckProps(p)) == 0 {
		return vs.U16(uint16(p.PacketIdentifier)) + vs.Byte(0)
	}
	return vs.U16(uint16(p.PacketIdentifier)) + vs.Byte(byte(p.ReasonCode)) + vSection(vAckProps(p))
}

func vAckFits(p *Puback) bool {
	return vStrFits(p.ReasonString) && vMapFits(p.UserProperties) && len(vAckBody(p)) <= vs.MaxVarInt
}

func vSubscribeProps(s *Subscribe) string {
	return vs.Opt(s.SubscriptionIdentifier > 0, vs.Byte(0x0B)+vs.VarInt(uint32(s.SubscriptionIdentifier))) +
		vUserProps(s.UserProperties)
}

func vSubscribeBody(s *Subscribe) string {
	return vs.U16(uint16(s.PacketIdentifier)) + vSection(vSubscribeProps(s)) +
		vs.FoldSlice(s.Topics, func(t Topic) string { return vs.Str(string(t.filter)) + vs.Byte(byte(t.options)) })
}

func vTopicsFit(ts []Topic) bool {
	return vs.ForallSlice(ts, func(t Topic) bool { return vStrFits(t.filter) })
}

func vSubscribeFits(s *Subscribe) bool {
	return vMapFits(s.UserProperties) && vTopicsFit(s.Topics) && s.SubscriptionIdentifier <= vs.MaxVarInt &&
		len(vSubscribeBody(s)) <= vs.MaxVarInt
}

func vUnsubscribeBody(u *Unsubscribe) string {
	return vs.U16(uint16(u.PacketIdentifier)) + vSection(vUserProps(u.UserProperties)) +
		vs.FoldSlice(u.Topics, func(t Topic) string { return vs.Str(string(t.filter)) })
}

func vUnsubscribeFits(u *Unsubscribe) bool {
	return vMapFits(u.UserProperties) && vTopicsFit(u.Topics) && len(vUnsubscribeBody(u)) <= vs.MaxVarInt
}

func vDisconnectProps(d *Disconnect) string {
	return vOptU32(0x11, uint32(d.SessionExpiryInterval)) +
		vOptStr(0x1F, string(d.ReasonString)) +
		vUserProps(d.UserProperties) +
		vOptStr(0x1C, string(d.ServerReference))
}

func vDisconnectBody(d *Disconnect) string {
	return vs.Byte(byte(d.ReasonCode)) + vSection(vDisconnectProps(d))
}

func vDisconnectFits(d *Disconnect) bool {
	return vStrFits(d.ReasonString) && vStrFits(d.ServerReference) && vMapFits(d.UserProperties) &&
		len(vDisconnectBody(d)) <= vs.MaxVarInt
}

func vAuthProps(a *Auth) string {
	return vOptStr(0x15, string(a.AuthenticationMethod)) +
		vOptStr(0x16, string(a.AuthenticationData)) +
		vOptStr(0x1F, string(a.ReasonString)) +
		vUserProps(a.UserProperties)
}

// vAuthBody: reason code and properties are left out together when there is nothing to say, as the code does.
func vAuthBody(a *Auth) string {
	if a.AuthenticateReasonCode == 0 && len(vAuthProps(a)) == 0 {
		return ""
	}
	return vs.Byte(byte(a.AuthenticateReasonCode)) + vSection(vAuthProps(a))
}

func vAuthFits(a *Auth) bool {
	return vStrFits(a.AuthenticationMethod) && vStrFits(a.AuthenticationData) && vStrFits(a.ReasonString) &&
		vMapFits(a.UserProperties) && len(vAuthBody(a)) <= vs.MaxVarInt
}

/* ---- decoding ---- */

// The vRec… functions are tail-recursive specifications of a property section: the properties in s[pos:end], applied in
// order to the packet so far. ok is false if the section is malformed or s is too short.

func vReadUserProp(m primitives.PrimitiveStringMap, s string, pos int) (primitives.PrimitiveStringMap, int, bool) {
	k, p1, ok1 := vs.ReadStr(s, pos)
	if !ok1 {
		return m, pos, false
	}
	v, p2, ok2 := vs.ReadStr(s, p1)
	if !ok2 {
		return m, pos, false
	}
	return vs.MapPut(m, primitives.PrimitiveString(k), primitives.PrimitiveString(v)), p2, true
}

func vRecAckProps(s string, pos, end int, p Puback) (Puback, bool) {
	if pos >= end {
		return p, pos == end
	}
	if pos >= len(s) {
		return p, false
	}
	var next int
	var ok bool
	var str string
	switch s[pos] {
	case 0x1F:
		str, next, ok = vs.ReadStr(s, pos+1)
		p.ReasonString = primitives.PrimitiveString(str)
	case 0x26:
		p.UserProperties, next, ok = vReadUserProp(p.UserProperties, s, pos+1)
	}
	if !ok {
		return p, false
	}
	return vRecAckProps(s, next, end, p)
}

// vDecodeAck decodes the body s[pos:pos+remaining] of a publish acknowledgement.
func vDecodeAck(s string, pos int, remaining uint32, p Puback) (Puback, int, bool) {
	end := pos + int(remaining)
	id, p1, ok := vs.ReadU16(s, pos)
	if !ok || p1 > end {
		return p, pos, false
	}
	p.PacketIdentifier = primitives.PrimitiveUint16(id)
	if p1 == end {
		return p, end, true
	}
	rc, p2, ok := vs.ReadByte(s, p1)
	if !ok {
		return p, pos, false
	}
	p.ReasonCode = primitives.PrimitiveByte(rc)
	if p2 == end {
		return p, end, true
	}
	plen, p3, ok := vs.ReadVarInt(s, p2)
	if !ok || p3+int(plen) != end {
		return p, pos, false
	}
	p, ok = vRecAckProps(s, p3, end, p)
	return p, end, ok
}

func vRecConnackProps(s string, pos, end int, c Connack) (Connack, bool) {
	if pos >= end {
		return c, pos == end
	}
	if pos >= len(s) {
		return c, false
	}
	var next int
	var ok bool
	var b byte
	var u16 uint16
	var u32 uint32
	var str string
	switch s[pos] {
	case 0x11:
		u32, next, ok = vs.ReadU32(s, pos+1)
		c.SessionExpiryInterval = primitives.PrimitiveUint32(u32)
	case 0x21:
		u16, next, ok = vs.ReadU16(s, pos+1)
		c.ReceiveMaximum = primitives.PrimitiveUint16(u16)
	case 0x24:
		b, next, ok = vs.ReadByte(s, pos+1)
		c.MaximumQoS = primitives.PrimitiveByte(b)
	case 0x25:
		b, next, ok = vs.ReadByte(s, pos+1)
		c.RetainAvailable = primitives.PrimitiveByte(b)
	case 0x27:
		u32, next, ok = vs.ReadU32(s, pos+1)
		c.MaximumPacketSize = primitives.PrimitiveUint32(u32)
	case 0x12:
		str, next, ok = vs.ReadStr(s, pos+1)
		c.ClientId = primitives.PrimitiveString(str)
	case 0x22:
		u16, next, ok = vs.ReadU16(s, pos+1)
		c.TopicAliasMaximum = primitives.PrimitiveUint16(u16)
	case 0x1F:
		str, next, ok = vs.ReadStr(s, pos+1)
		c.ReasonString = primitives.PrimitiveString(str)
	case 0x26:
		c.UserProperties, next, ok = vReadUserProp(c.UserProperties, s, pos+1)
	case 0x28:
		b, next, ok = vs.ReadByte(s, pos+1)
		c.WildcardSubscriptions = primitives.PrimitiveByte(b)
	case 0x29:
		b, next, ok = vs.ReadByte(s, pos+1)
		c.SubscriptionIdentifiers = primitives.PrimitiveByte(b)
	case 0x2A:
		b, next, ok = vs.ReadByte(s, pos+1)
		c.SharedSubscriptions = primitives.PrimitiveByte(b)
	case 0x13:
		u16, next, ok = vs.ReadU16(s, pos+1)
		c.ServerKeepAlive = primitives.PrimitiveUint16(u16)
	case 0x1A:
		str, next, ok = vs.ReadStr(s, pos+1)
		c.ResponseInformation = primitives.PrimitiveString(str)
	case 0x1C:
		str, next, ok = vs.ReadStr(s, pos+1)
		c.ServerReference = primitives.PrimitiveString(str)
	case 0x15:
		str, next, ok = vs.ReadStr(s, pos+1)
		c.AuthenticationMethod = primitives.PrimitiveString(str)
	case 0x16:
		str, next, ok = vs.ReadStr(s, pos+1)
		c.AuthenticationData = primitives.PrimitiveString(str)
	}
	if !ok {
		return c, false
	}
	return vRecConnackProps(s, next, end, c)
}

// vDecodeConnack decodes the body s[pos:pos+remaining] of a CONNACK. A body of just flags and reason code is accepted: that
// is how a server without MQTT 5 support refuses the connection.
func vDecodeConnack(s string, pos int, remaining uint32, c Connack) (Connack, int, bool) {
	end := pos + int(remaining)
	flags, p1, ok := vs.ReadByte(s, pos)
	if !ok || p1 > end {
		return c, pos, false
	}
	c.Flags = primitives.PrimitiveByte(flags)
	c.SessionPresent = flags&1 != 0
	rc, p2, ok := vs.ReadByte(s, p1)
	if !ok || p2 > end {
		return c, pos, false
	}
	c.ReasonCode = primitives.PrimitiveByte(rc)
	if p2 == end {
		return c, end, true
	}
	plen, p3, ok := vs.ReadVarInt(s, p2)
	if !ok || p3+int(plen) != end {
		return c, pos, false
	}
	c, ok = vRecConnackProps(s, p3, end, c)
	return c, end, ok
}

func vRecPublishProps(s string, pos, end int, p Publish) (Publish, bool) {
	if pos >= end {
		return p, pos == end
	}
	if pos >= len(s) {
		return p, false
	}
	var next int
	var ok bool
	var u16 uint16
	var u32 uint32
	var str string
	switch s[pos] {
	case 0x02:
		u32, next, ok = vs.ReadU32(s, pos+1)
		p.MessageExpiryInterval = primitives.PrimitiveUint32(u32)
	case 0x23:
		u16, next, ok = vs.ReadU16(s, pos+1)
		p.TopicAlias = primitives.PrimitiveUint16(u16)
	case 0x08:
		str, next, ok = vs.ReadStr(s, pos+1)
		p.ResponseTopic = primitives.PrimitiveString(str)
	case 0x09:
		str, next, ok = vs.ReadStr(s, pos+1)
		p.CorrelationData = primitives.PrimitiveString(str)
	case 0x26:
		p.UserProperties, next, ok = vReadUserProp(p.UserProperties, s, pos+1)
	case 0x0B:
		u32, next, ok = vs.ReadVarInt(s, pos+1)
		p.SubscriptionIdentifier = primitives.VariableByteInt(u32)
	case 0x03:
		str, next, ok = vs.ReadStr(s, pos+1)
		p.ContentType = primitives.PrimitiveString(str)
	}
	if !ok {
		return p, false
	}
	return vRecPublishProps(s, next, end, p)
}

// vDecodePublish decodes the body s[pos:pos+remaining] of a PUBLISH whose first header byte is first.
func vDecodePublish(s string, pos int, first byte, remaining uint32, p Publish) (r Publish, payload string, next int, okr bool) {
	end := pos + int(remaining)
	p.Retain = first&1 != 0
	p.QoS = QoS(first>>1) & 3
	p.Duplicate = first&8 != 0
	topic, p1, ok := vs.ReadStr(s, pos)
	if !ok || p1 > end {
		return p, "", pos, false
	}
	p.Topic = primitives.PrimitiveString(topic)
	p2 := p1
	if p.QoS > 0 {
		var id uint16
		id, p2, ok = vs.ReadU16(s, p1)
		if !ok || p2 > end {
			return p, "", pos, false
		}
		p.PacketIdentifier = primitives.PrimitiveUint16(id)
	}
	plen, p3, ok := vs.ReadVarInt(s, p2)
	if !ok || p3+int(plen) > end {
		return p, "", pos, false
	}
	p, ok = vRecPublishProps(s, p3, p3+int(plen), p)
	if !ok || end > len(s) {
		return p, "", pos, false
	}
	return p, s[p3+int(plen) : end], end, true
}

func vRecSubackProps(s string, pos, end int, reason primitives.PrimitiveString, m primitives.PrimitiveStringMap) (primitives.PrimitiveString, primitives.PrimitiveStringMap, bool) {
	if pos >= end {
		return reason, m, pos == end
	}
	if pos >= len(s) {
		return reason, m, false
	}
	var next int
	var ok bool
	var str string
	switch s[pos] {
	case 0x1F:
		str, next, ok = vs.ReadStr(s, pos+1)
		reason = primitives.PrimitiveString(str)
	case 0x26:
		m, next, ok = vReadUserProp(m, s, pos+1)
	}
	if !ok {
		return reason, m, false
	}
	return vRecSubackProps(s, next, end, reason, m)
}

// vDecodeSuback decodes the body s[pos:pos+remaining] of a SUBACK or UNSUBACK.
func vDecodeSuback(s string, pos int, remaining uint32, reason primitives.PrimitiveString, m primitives.PrimitiveStringMap) (
	id uint16, reason1 primitives.PrimitiveString, m1 primitives.PrimitiveStringMap, codes string, next int, okr bool) {
	end := pos + int(remaining)
	id, p1, ok := vs.ReadU16(s, pos)
	if !ok || p1 > end {
		return 0, reason, m, "", pos, false
	}
	plen, p2, ok := vs.ReadVarInt(s, p1)
	if !ok || p2+int(plen) >= end {
		return 0, reason, m, "", pos, false
	}
	reason, m, ok = vRecSubackProps(s, p2, p2+int(plen), reason, m)
	if !ok || end > len(s) {
		return 0, reason, m, "", pos, false
	}
	return id, reason, m, s[p2+int(plen) : end], end, true
}

func vRecDisconnectProps(s string, pos, end int, d Disconnect) (Disconnect, bool) {
	if pos >= end {
		return d, pos == end
	}
	if pos >= len(s) {
		return d, false
	}
	var next int
	var ok bool
	var u32 uint32
	var str string
	switch s[pos] {
	case 0x11:
		u32, next, ok = vs.ReadU32(s, pos+1)
		d.SessionExpiryInterval = primitives.PrimitiveUint32(u32)
	case 0x1F:
		str, next, ok = vs.ReadStr(s, pos+1)
		d.ReasonString = primitives.PrimitiveString(str)
	case 0x26:
		d.UserProperties, next, ok = vReadUserProp(d.UserProperties, s, pos+1)
	case 0x1C:
		str, next, ok = vs.ReadStr(s, pos+1)
		d.ServerReference = primitives.PrimitiveString(str)
	}
	if !ok {
		return d, false
	}
	return vRecDisconnectProps(s, next, end, d)
}

// vDecodeDisconnect decodes the body s[pos:pos+remaining] of a DISCONNECT; the empty body stands for reason code 0.
func vDecodeDisconnect(s string, pos int, remaining uint32, d Disconnect) (Disconnect, int, bool) {
	end := pos + int(remaining)
	if pos == end {
		return d, end, true
	}
	rc, p1, ok := vs.ReadByte(s, pos)
	if !ok {
		return d, pos, false
	}
	d.ReasonCode = primitives.PrimitiveByte(rc)
	if p1 == end {
		return d, end, true
	}
	plen, p2, ok := vs.ReadVarInt(s, p1)
	if !ok || p2+int(plen) != end {
		return d, pos, false
	}
	d, ok = vRecDisconnectProps(s, p2, end, d)
	return d, end, ok
}

func vRecAuthProps(s string, pos, end int, a Auth) (Auth, bool) {
	if pos >= end {
		return a, pos == end
	}
	if pos >= len(s) {
		return a, false
	}
	var next int
	var ok bool
	var str string
	switch s[pos] {
	case 0x15:
		str, next, ok = vs.ReadStr(s, pos+1)
		a.AuthenticationMethod = primitives.PrimitiveString(str)
	case 0x16:
		str, next, ok = vs.ReadStr(s, pos+1)
		a.AuthenticationData = primitives.PrimitiveString(str)
	case 0x1F:
		str, next, ok = vs.ReadStr(s, pos+1)
		a.ReasonString = primitives.PrimitiveString(str)
	case 0x26:
		a.UserProperties, next, ok = vReadUserProp(a.UserProperties, s, pos+1)
	}
	if !ok {
		return a, false
	}
	return vRecAuthProps(s, next, end, a)
}

// vDecodeAuth decodes the body s[pos:pos+remaining] of an AUTH; the empty body stands for reason code 0.
func vDecodeAuth(s string, pos int, remaining uint32, a Auth) (Auth, int, bool) {
	end := pos + int(remaining)
	if pos == end {
		return a, end, true
	}
	rc, p1, ok := vs.ReadByte(s, pos)
	if !ok {
		return a, pos, false
	}
	a.AuthenticateReasonCode = primitives.PrimitiveByte(rc)
	if p1 == end {
		return a, end, true
	}
	plen, p2, ok := vs.ReadVarInt(s, p1)
	if !ok || p2+int(plen) != end {
		return a, pos, false
	}
	a, ok = vRecAuthProps(s, p2, end, a)
	return a, end, ok
}
