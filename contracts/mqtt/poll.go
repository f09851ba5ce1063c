package mqtt

import (
	"context"
	"errors"
	"os"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	vs "github.com/waj334/tinygo-mqtt/mqtt/verifspec"
)

/* ---- Poll, one contract for each kind of packet that may come next ---- */

// vNext: the next packet of the connection is of this type.
func vNext(c *Client, t byte) bool {
	in, pos := vs.In(c.conn), vs.Pos(c.conn)
	return pos < len(in) && in[pos]>>4 == t
}

// vLog is what a storage has been asked to do.
func vLog(c *Client) string {
	if c.storage == nil {
		return ""
	}
	return vs.StorageLog(c.storage)
}

func vAck(first byte, id uint16) string {
	return packets.VAckBytes(first, primitives.PrimitiveUint16(id))
}

// vPoll polls once. What every poll promises is checked here.
func vPoll(c *Client, ctx context.Context) (before Client, out0, events0, log0, replies0 string, id uint16, reason byte, err error) {
	conn := c.conn
	before = *c
	out0, events0, log0, replies0 = vs.Out(conn), vs.Events(), vLog(c), vs.Replies()
	pos := vs.Pos(conn)
	in := vs.In(conn)
	_, remaining, next, whole := packets.VReadHeader(in, pos)
	late := c.isConnected && c.keepAliveInterval > 0 && vs.Clock().After(c.pingRespDeadline)
	rf0 := vs.ReadFailed(conn)
	vs.Modifies(c)
	err = c.Poll(ctx)
	vs.Ensures("C25: a client that is not connected refuses", before.isConnected || err == ErrClientNotConnected && vs.Out(conn) == out0 && vs.Pos(conn) == pos)
	vs.Ensures("C25: after the deadline of the PINGRESP the connection is closed", !late || vs.ConnClosed(conn) && !c.isConnected && vs.Out(conn) == out0)
	vs.Ensures("C25: after the deadline of the PINGRESP the timeout is reported", !late || err != nil)
	vs.Ensures("C27: exactly one packet is consumed, or nothing", err != nil || vs.Pos(conn) == pos || whole && vs.Pos(conn) == next+int(remaining))
	if whole {
		id, reason = vs.GetU16(in, next), 0
		if remaining > 2 {
			reason = in[next+2]
		}
	}
	vs.Ensures("C20 C27: a failure of the connection is reported", err != nil || vs.Pos(conn) == pos || vs.ReadFailed(conn) == rf0)
	return
}

// vStays: a poll that changed nothing about the connection. vQuiet: a poll that succeeded without a packet that is answered, stored or counted.
func vStays(c *Client, before Client, closed0 bool) bool {
	return c.isConnected == before.isConnected && vs.ConnClosed(c.conn) == closed0
}

// vTimedOut: the answer to a ping is overdue.
func vTimedOut(before Client) bool {
	return before.isConnected && before.keepAliveInterval > 0 && vs.Clock().After(before.pingRespDeadline)
}

func vQuiet(c *Client, before Client, log0 string) bool {
	return c.sendQuota == before.sendQuota && c.receiveQuota == before.receiveQuota && vLog(c) == log0
}

//verif:contract (*Client).Poll
//verif:safety C25 C26 C27 C29 C32
func vcPollNothing(c *Client, ctx context.Context) {
	vStart(c)
	vs.Requires(vs.Pos(c.conn) == len(vs.In(c.conn)))
	pos, closed0 := vs.Pos(c.conn), vs.ConnClosed(c.conn)
	before, out0, events0, log0, _, _, _, err := vPoll(c, ctx)
	vs.Ensures("C25: the connection ends only if the PINGRESP is overdue", vStays(c, before, closed0) || vTimedOut(before))
	vs.Ensures("C27: nothing is consumed, sent or signalled if nothing arrives", vs.Pos(c.conn) == pos && vs.Out(c.conn) == out0 && vs.Events() == events0)
	vs.Ensures("C21 C31: nothing changes if nothing arrives", vQuiet(c, before, log0))
	vs.Ensures("C27: success means that the deadline expired before any byte arrived", err != nil || errors.Is(vs.ReadErr(c.conn), os.ErrDeadlineExceeded))
	vs.Ensures("C27: a deadline that expires before any byte arrived is success", err == nil || !errors.Is(vs.ReadErr(c.conn), os.ErrDeadlineExceeded) ||
		!before.isConnected || vTimedOut(before) || vs.WriteFailed(c.conn))
	vs.Cover("C27: an expired deadline is success", err == nil)
	vEnd(c)
}

// vGeneral: every general channel is offered the packet read last, and that is all.
func vGeneral(c *Client, events0 string, t packets.PacketType) bool {
	return vs.Events() == events0+vOffers(c, t, vs.LastEvent()) && (len(c.eventChans) == 0 || vs.LastEvent() == vs.LastRead())
}

// vConsumed: the poll consumed a packet (vPoll says that it is all of one).
func vConsumed(c *Client, pos int) bool { return vs.Pos(c.conn) > pos }

//verif:contract (*Client).Poll
//verif:safety C20 C21 C25 C26 C27 C29 C31 C32
func vcPollPuback(c *Client, ctx context.Context) {
	vStart(c)
	vs.Requires(vNext(c, 4))
	pos, closed0 := vs.Pos(c.conn), vs.ConnClosed(c.conn)
	before, out0, events0, log0, _, id, _, err := vPoll(c, ctx)
	vs.Ensures("C25: the connection ends only if the PINGRESP is overdue", vStays(c, before, closed0) || vTimedOut(before))
	vs.Ensures("C27: the packet is consumed", err != nil || vConsumed(c, pos))
	vs.Ensures("C20: nothing is sent in reply to a PUBACK", vs.Out(c.conn) == out0)
	vs.Ensures("C21: a PUBACK gives back one unit of the allowance", err != nil || vGivenBack(c, before))
	vs.Ensures("C21: a PUBACK does not change the inbound allowance", c.receiveQuota == before.receiveQuota)
	vs.Ensures("C31: a PUBACK drops the entry of its identifier", err != nil || c.storage == nil || vLog(c) == log0+vs.DropOp(id))
	vs.Ensures("C28: every general channel is offered the event", err != nil || vGeneral(c, events0, packets.PUBACK))
	vs.Cover("C20: success", err == nil)
	vEnd(c)
}

// vGivenBack: one unit of the outbound allowance is free again, unless all of it was.
func vGivenBack(c *Client, before Client) bool {
	return c.serverReceiveMaximum == before.serverReceiveMaximum &&
		(before.sendQuota < before.serverReceiveMaximum && c.sendQuota == before.sendQuota+1 || before.sendQuota == before.serverReceiveMaximum && c.sendQuota == before.sendQuota)
}

//verif:contract (*Client).Poll
//verif:safety C20 C21 C25 C26 C27 C29 C31 C32
func vcPollPubcomp(c *Client, ctx context.Context) {
	vStart(c)
	vs.Requires(vNext(c, 7))
	pos, closed0 := vs.Pos(c.conn), vs.ConnClosed(c.conn)
	before, out0, events0, log0, _, id, _, err := vPoll(c, ctx)
	vs.Ensures("C25: the connection ends only if the PINGRESP is overdue", vStays(c, before, closed0) || vTimedOut(before))
	vs.Ensures("C27: the packet is consumed", err != nil || vConsumed(c, pos))
	vs.Ensures("C20: nothing is sent in reply to a PUBCOMP", vs.Out(c.conn) == out0)
	vs.Ensures("C21: a PUBCOMP gives back one unit of the allowance", err != nil || vGivenBack(c, before))
	vs.Ensures("C21: a PUBCOMP does not change the inbound allowance", c.receiveQuota == before.receiveQuota)
	vs.Ensures("C31: a PUBCOMP drops the entry of its identifier", err != nil || c.storage == nil || vLog(c) == log0+vs.DropOp(id))
	ev, isAck := vs.LastEvent().(*packets.Pubcomp)
	vs.Ensures("C28: every general channel is offered the event", err != nil || vs.Events() == events0+vOffers(c, packets.PUBCOMP, vs.LastEvent()) && (len(c.eventChans) == 0 || isAck && uint16(ev.PacketIdentifier) == id))
	vs.Cover("C20: success", err == nil)
	vEnd(c)
}

//verif:contract (*Client).Poll
//verif:safety C20 C21 C25 C26 C27 C29 C31 C32
func vcPollPubrec(c *Client, ctx context.Context) {
	vStart(c)
	vs.Requires(vNext(c, 5))
	pos, closed0 := vs.Pos(c.conn), vs.ConnClosed(c.conn)
	before, out0, events0, log0, _, id, reason, err := vPoll(c, ctx)
	good := reason < 0x80
	vs.Ensures("C25: the connection ends only if the PINGRESP is overdue", vStays(c, before, closed0) || vTimedOut(before))
	vs.Ensures("C27: the packet is consumed", err != nil || vConsumed(c, pos))
	vs.Ensures("C20: a PUBREC that reports success is answered by one PUBREL with its identifier", err != nil || !good || vs.Out(c.conn) == out0+vAck(0x62, id))
	vs.Ensures("C20: a PUBREC that reports a failure is not answered", good || vs.Out(c.conn) == out0)
	vs.Ensures("C21: a PUBREC that reports a failure gives back one unit of the allowance", err != nil || good || vGivenBack(c, before))
	vs.Ensures("C21: a PUBREC that reports success does not change the outbound allowance", !good || c.sendQuota == before.sendQuota)
	vs.Ensures("C21: a PUBREC does not change the inbound allowance", c.receiveQuota == before.receiveQuota)
	if c.storage != nil {
		rec, is := vs.LastStored(c.storage).(*packets.Pubrec)
		vs.Ensures("C31: a PUBREC that reports success replaces the entry of its identifier", err != nil || !good || is && uint16(rec.PacketIdentifier) == id &&
			vLog(c) == log0+vs.DropOp(id)+vs.StoreOp(id, vs.LastStored(c.storage)))
		vs.Ensures("C31: a PUBREC that reports a failure drops the entry of its identifier", err != nil || good || vLog(c) == log0+vs.DropOp(id))
	}
	ev, isAck := vs.LastEvent().(*packets.Pubrec)
	vs.Ensures("C28: every general channel is offered the event", err != nil || vs.Events() == events0+vOffers(c, packets.PUBREC, vs.LastEvent()) && (len(c.eventChans) == 0 || isAck && uint16(ev.PacketIdentifier) == id))
	vs.Cover("C20: success", err == nil && good)
	vs.Cover("C20: failure", err == nil && !good)
	vEnd(c)
}

//verif:contract (*Client).Poll
//verif:safety C20 C21 C25 C26 C27 C29 C31 C32
func vcPollPubrel(c *Client, ctx context.Context) {
	vStart(c)
	vs.Requires(vNext(c, 6))
	pos, closed0 := vs.Pos(c.conn), vs.ConnClosed(c.conn)
	before, out0, events0, log0, _, id, _, err := vPoll(c, ctx)
	vs.Ensures("C25: the connection ends only if the PINGRESP is overdue", vStays(c, before, closed0) || vTimedOut(before))
	vs.Ensures("C27: the packet is consumed", err != nil || vConsumed(c, pos))
	vs.Ensures("C20: a PUBREL is answered by one PUBCOMP with its identifier", err != nil || vs.Out(c.conn) == out0+vAck(0x70, id))
	vs.Ensures("C21: a PUBCOMP that is sent gives back one unit of the inbound allowance", err != nil ||
		before.receiveQuota < before.clientReceiveMaximum && c.receiveQuota == before.receiveQuota+1 || before.receiveQuota == before.clientReceiveMaximum && c.receiveQuota == before.receiveQuota)
	vs.Ensures("C21: a PUBREL does not change the outbound allowance", c.sendQuota == before.sendQuota)
	vs.Ensures("C31: a PUBREL drops the entry of its identifier", err != nil || c.storage == nil || vLog(c) == log0+vs.DropOp(id))
	ev, isAck := vs.LastEvent().(*packets.Pubrel)
	vs.Ensures("C28: every general channel is offered the event", err != nil || vs.Events() == events0+vOffers(c, packets.PUBREL, vs.LastEvent()) && (len(c.eventChans) == 0 || isAck && uint16(ev.PacketIdentifier) == id))
	vs.Cover("C20: success", err == nil)
	vEnd(c)
}

//verif:contract (*Client).Poll
//verif:safety C20 C23 C25 C26 C27 C29 C31 C32
func vcPollSuback(c *Client, ctx context.Context) {
	vStart(c)
	vs.Requires(vNext(c, 9))
	pos, closed0 := vs.Pos(c.conn), vs.ConnClosed(c.conn)
	before, out0, events0, log0, replies0, id, _, err := vPoll(c, ctx)
	ch, waiting := c.responseChan[int(id)]
	vs.Ensures("C25: the connection ends only if the PINGRESP is overdue", vStays(c, before, closed0) || vTimedOut(before))
	vs.Ensures("C27: the packet is consumed", err != nil || vConsumed(c, pos))
	vs.Ensures("C20: nothing is sent in reply to a SUBACK", vs.Out(c.conn) == out0)
	vs.Ensures("C21 C31: a SUBACK changes no allowance and no storage", vQuiet(c, before, log0))
	vs.Ensures("C23: the SUBACK goes to the request with its identifier", err != nil || !waiting || vs.Replies() == replies0+vs.Reply(ch, vs.LastRead()))
	vs.Ensures("C23: the SUBACK goes to no other request", err == nil && waiting || vs.Replies() == replies0)
	vs.Ensures("C28: every general channel is offered the event", err != nil || vGeneral(c, events0, packets.SUBACK))
	vs.Cover("C20: success", err == nil)
	vs.Cover("C23: success", err == nil && waiting)
	vEnd(c)
}

//verif:contract (*Client).Poll
//verif:safety C20 C23 C25 C26 C27 C29 C31 C32
func vcPollUnsuback(c *Client, ctx context.Context) {
	vStart(c)
	vs.Requires(vNext(c, 11))
	pos, closed0 := vs.Pos(c.conn), vs.ConnClosed(c.conn)
	before, out0, events0, log0, replies0, id, _, err := vPoll(c, ctx)
	ch, waiting := c.responseChan[int(id)]
	vs.Ensures("C25: the connection ends only if the PINGRESP is overdue", vStays(c, before, closed0) || vTimedOut(before))
	vs.Ensures("C27: the packet is consumed", err != nil || vConsumed(c, pos))
	vs.Ensures("C20: nothing is sent in reply to an UNSUBACK", vs.Out(c.conn) == out0)
	vs.Ensures("C21 C31: an UNSUBACK changes no allowance and no storage", vQuiet(c, before, log0))
	vs.Ensures("C23: the UNSUBACK goes to the request with its identifier", err != nil || !waiting || vs.Replies() == replies0+vs.Reply(ch, vs.LastRead()))
	vs.Ensures("C23: the UNSUBACK goes to no other request", err == nil && waiting || vs.Replies() == replies0)
	vs.Ensures("C28: every general channel is offered the event", err != nil || vGeneral(c, events0, packets.UNSUBACK))
	vs.Cover("C20: success", err == nil)
	vs.Cover("C23: success", err == nil && waiting)
	vEnd(c)
}

//verif:contract (*Client).Poll
//verif:safety C20 C24 C25 C26 C27 C29 C31 C32
func vcPollDisconnect(c *Client, ctx context.Context) {
	vStart(c)
	vs.Requires(vNext(c, 14))
	pos := vs.Pos(c.conn)
	before, out0, events0, log0, _, _, _, err := vPoll(c, ctx)
	vs.Ensures("C27: the packet is consumed", err != nil || vConsumed(c, pos))
	vs.Ensures("C20: nothing is sent in reply to a DISCONNECT", vs.Out(c.conn) == out0)
	vs.Ensures("C21 C31: a DISCONNECT changes no allowance and no storage", vQuiet(c, before, log0))
	vs.Ensures("C24: a DISCONNECT closes the connection", err != nil || vs.ConnClosed(c.conn))
	vs.Ensures("C24: a DISCONNECT leaves the client not connected", err != nil || !c.isConnected)
	vs.Ensures("C24 C28: every general channel is offered the event", err != nil || vGeneral(c, events0, packets.DISCONNECT))
	vs.Cover("C24: success", err == nil)
	vEnd(c)
}

//verif:contract (*Client).Poll
//verif:safety C20 C25 C26 C27 C29 C31 C32
func vcPollAuth(c *Client, ctx context.Context) {
	vStart(c)
	vs.Requires(vNext(c, 15))
	pos, closed0 := vs.Pos(c.conn), vs.ConnClosed(c.conn)
	before, out0, events0, log0, _, _, _, err := vPoll(c, ctx)
	vs.Ensures("C25: the connection ends only if the PINGRESP is overdue", vStays(c, before, closed0) || vTimedOut(before))
	vs.Ensures("C27: the packet is consumed", err != nil || vConsumed(c, pos))
	vs.Ensures("C20: nothing is sent in reply to an AUTH", vs.Out(c.conn) == out0)
	vs.Ensures("C21 C31: an AUTH changes no allowance and no storage", vQuiet(c, before, log0))
	vs.Ensures("C28: every general channel is offered the event", err != nil || vGeneral(c, events0, packets.AUTH))
	vs.Cover("C20: success", err == nil)
	vEnd(c)
}

//verif:contract (*Client).Poll
//verif:safety C20 C25 C26 C27 C29 C31 C32
func vcPollPingresp(c *Client, ctx context.Context) {
	vStart(c)
	vs.Requires(vNext(c, 13))
	pos, closed0 := vs.Pos(c.conn), vs.ConnClosed(c.conn)
	before, out0, events0, log0, _, _, _, err := vPoll(c, ctx)
	vs.Ensures("C25: the connection ends only if the PINGRESP is overdue", vStays(c, before, closed0) || vTimedOut(before))
	vs.Ensures("C27: the packet is consumed", err != nil || vConsumed(c, pos))
	vs.Ensures("C20: nothing is sent in reply to a PINGRESP", vs.Out(c.conn) == out0 && vs.Events() == events0)
	vs.Ensures("C21 C31: a PINGRESP changes no allowance and no storage", vQuiet(c, before, log0))
	vs.Ensures("C25: after a PINGRESP the next is due two intervals from now", err != nil || c.pingRespDeadline == vs.Clock().Add(c.keepAliveInterval*2))
	vs.Ensures("C25: a PINGRESP does not change the interval", c.keepAliveInterval == before.keepAliveInterval)
	vs.Cover("C25: success", err == nil)
	vEnd(c)
}

//verif:contract (*Client).Poll
//verif:safety C20 C25 C26 C27 C29 C31 C32
func vcPollOther(c *Client, ctx context.Context) {
	vStart(c)
	vs.Requires(vNext(c, 0) || vNext(c, 1) || vNext(c, 2) || vNext(c, 8) || vNext(c, 10) || vNext(c, 12))
	closed0 := vs.ConnClosed(c.conn)
	before, out0, events0, log0, _, _, _, err := vPoll(c, ctx)
	vs.Ensures("C25: the connection ends only if the PINGRESP is overdue", vStays(c, before, closed0) || vTimedOut(before))
	vs.Ensures("C27: a packet a server does not send is an error", err != nil)
	vs.Ensures("C20: nothing is sent in reply to a packet a server does not send", vs.Out(c.conn) == out0 && vs.Events() == events0)
	vs.Ensures("C21 C31: a packet a server does not send changes no allowance and no storage", vQuiet(c, before, log0))
	vEnd(c)
}

//verif:contract (*Client).Poll
//verif:safety C20 C21 C22 C25 C26 C27 C29 C31 C32
func vcPollPublish(c *Client, ctx context.Context) {
	vStart(c)
	vs.Requires(vNext(c, 3))
	in, pos, closed0 := vs.In(c.conn), vs.Pos(c.conn), vs.ConnClosed(c.conn)
	qos := in[pos] >> 1 & 3
	_, _, next, _ := packets.VReadHeader(in, pos)
	topic, at, _ := vs.ReadStr(in, next)
	id := vs.GetU16(in, at)
	before, out0, events0, log0, _, _, _, err := vPoll(c, ctx)
	vs.Ensures("C25: the connection ends only if the PINGRESP is overdue or the server exceeds its allowance", vStays(c, before, closed0) || vTimedOut(before) || qos > 0 && before.receiveQuota == 0)
	vs.Ensures("C27: the packet is consumed", err != nil || vConsumed(c, pos))
	vs.Ensures("C20: nothing is sent in reply to a PUBLISH of QoS 0", qos != 0 || vs.Out(c.conn) == out0)
	vs.Ensures("C20: a PUBLISH of QoS 1 is answered by one PUBACK with its identifier", err != nil || qos != 1 || vs.Out(c.conn) == out0+vAck(0x40, id))
	vs.Ensures("C20: a PUBLISH of QoS 2 is answered by one PUBREC with its identifier", err != nil || qos != 2 || vs.Out(c.conn) == out0+vAck(0x50, id))
	vs.Ensures("C20: a PUBLISH of QoS 1 or 2 with identifier 0 is refused", err != nil || qos == 0 || qos == 3 || id != 0) // QoS 3 is malformed
	vs.Ensures("C21: a PUBLISH does not change the outbound allowance", c.sendQuota == before.sendQuota)
	vs.Ensures("C21: a PUBLISH of QoS 2 uses one unit of the inbound allowance", err != nil || qos != 2 || before.receiveQuota > 0 && c.receiveQuota == before.receiveQuota-1)
	vs.Ensures("C21: the PUBACK gives back the unit a PUBLISH of QoS 1 used", err != nil || qos != 1 || before.receiveQuota > 0 && c.receiveQuota == before.receiveQuota)
	vs.Ensures("C21: a PUBLISH of QoS 0 uses no allowance", qos != 0 || c.receiveQuota == before.receiveQuota)
	vs.Ensures("C21: a PUBLISH without allowance is an error", err != nil || qos == 0 || before.receiveQuota > 0)
	exceeded := before.isConnected && !vTimedOut(before) && qos > 0 && before.receiveQuota == 0
	vs.Ensures("C21: a PUBLISH without allowance ends the session with reason 0x93", !exceeded || err == ReasonCode(0x93) || vs.WriteFailed(c.conn) || vs.ReadFailed(c.conn))
	vs.Ensures("C21: the reason 0x93 is sent, and the connection closed", !exceeded || vs.WriteFailed(c.conn) || vs.ReadFailed(c.conn) ||
		vs.Out(c.conn) == out0+packets.VDisconnectBytes(0x93, 0) && vs.ConnClosed(c.conn) && !c.isConnected)
	vs.Ensures("C31: a PUBLISH of QoS 0 or 1 is not stored", qos == 2 || vLog(c) == log0)
	if c.storage != nil {
		rec, is := vs.LastStored(c.storage).(*packets.Pubrec)
		vs.Ensures("C31: for a PUBLISH of QoS 2 the PUBREC is stored", err != nil || qos != 2 || is && uint16(rec.PacketIdentifier) == id &&
			vLog(c) == log0+vs.StoreOp(id, vs.LastStored(c.storage)))
	}
	bound := vs.FoldMap(c.topicChans, func(filter string, v EventChannel) string {
		return vs.Opt(vMatch(topic, filter), vs.Offer(v.channel, byte(packets.PUBLISH), vs.LastRead()))
	})
	general := vs.FoldMap(c.eventChans, func(k int, v EventChannel) string { return vs.Offer(v.channel, byte(packets.PUBLISH), vs.LastRead()) })
	vs.Ensures("C22: every channel whose filter matches, no other, and every general one is offered the packet", err != nil || vs.Events() == events0+bound+general)
	vs.Cover("C20: success", err == nil)
	vs.Cover("C20: QoS 1", err == nil && qos == 1)
	vs.Cover("C20: QoS 2", err == nil && qos == 2)
	vEnd(c)
}
