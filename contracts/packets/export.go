package packets

import (
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	vs "github.com/waj334/tinygo-mqtt/mqtt/verifspec"
)

// The specification functions of the encodings, for the contracts of the client.

func VConnectFits(c *Connect) bool    { return vConnectFits(c) }
func VConnectBytes(c *Connect) string { return vPacket(0x10, vConnectBody(c)) }

func VPublishFits(p *Publish) bool {
	return vPublishFits(p) && (len(p.Topic) > 0 || p.TopicAlias > 0)
}

func VPublishBytes(p *Publish) string { return vPacket(vPublishFirst(p), vPublishBody(p)) }

func VSubscribeFits(s *Subscribe) bool    { return vSubscribeFits(s) }
func VSubscribeBytes(s *Subscribe) string { return vPacket(0x82, vSubscribeBody(s)) }

func VUnsubscribeFits(u *Unsubscribe) bool    { return vUnsubscribeFits(u) }
func VUnsubscribeBytes(u *Unsubscribe) string { return vPacket(0xA2, vUnsubscribeBody(u)) }

// VAckBytes is a PUBACK, PUBREC, PUBREL or PUBCOMP that reports success.
func VAckBytes(first byte, id primitives.PrimitiveUint16) string {
	return vPacket(first, vAckBody(&Puback{PacketIdentifier: id}))
}

func VDisconnectBytes(reason byte, expiry uint32) string {
	return vPacket(0xE0, vDisconnectBody(&Disconnect{ReasonCode: primitives.PrimitiveByte(reason), SessionExpiryInterval: primitives.PrimitiveUint32(expiry)}))
}

// VReadHeader is the fixed header at a position.
func VReadHeader(s string, pos int) (first byte, remaining uint32, next int, ok bool) {
	return vReadHeader(s, pos)
}

const VMaxRemaining = vMaxRemaining

// The encoding of a topic in a SUBSCRIBE and in an UNSUBSCRIBE packet.
func VTopicBytes(t Topic) string  { return vs.Str(string(t.filter)) + vs.Byte(byte(t.options)) }
func VFilterBytes(t Topic) string { return vs.Str(string(t.filter)) }
func VTopicFits(t Topic) bool     { return vStrFits(t.filter) }

// VSubscribeRequest: a SUBSCRIBE packet without properties, for these topics; VUnsubscribeRequest: an UNSUBSCRIBE packet.
func VSubscribeRequest(id uint16, topics string) string {
	return vPacket(0x82, vs.U16(id)+vs.Byte(0)+topics)
}

func VUnsubscribeRequest(id uint16, topics string) string {
	return vPacket(0xA2, vs.U16(id)+vs.Byte(0)+topics)
}
