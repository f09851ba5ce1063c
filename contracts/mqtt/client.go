package mqtt

import (
	"context"
	"net"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"github.com/waj334/tinygo-mqtt/mqtt/storage"
	vs "github.com/waj334/tinygo-mqtt/mqtt/verifspec"
)

/* ---- the invariant of a client, between operations ---- */

// vOpen: an event channel that is open, as CreateEventChannel made it.
func vOpen(v EventChannel) bool {
	return v.channel != nil && !vs.Closed(v.channel) && v.done != nil && !vs.Closed(v.done) && !vs.Full(v.done) &&
		vs.ChanID(v.channel) == v.id && vs.ChanID(v.done) == v.id && vs.ChanOf[*Event](v.id) == v.channel && vs.ChanOf[struct{}](v.id) == v.done
}

func vInv(c *Client) bool {
	return c.conn != nil && c.rngFn != nil && c.eventChans != nil && c.topicChans != nil && c.openChans != nil && c.responseChan != nil &&
		c.sendQuota <= c.serverReceiveMaximum && c.receiveQuota <= c.clientReceiveMaximum &&
		!vs.Closed(c.pendingSendSemaphore) && vs.ChanID(c.pendingSendSemaphore) == 0 && 0 < c.evChanIdCounter && c.evChanIdCounter < 1<<60 &&
		vs.ForallMap(c.openChans, func(k int, v bool) bool { return v && 0 < k && k < c.evChanIdCounter }) &&
		vs.ForallMap(c.eventChans, func(k int, v EventChannel) bool { return v.id == k && c.openChans[k] && vOpen(v) }) &&
		vs.ForallMap(c.topicChans, func(k string, v EventChannel) bool { return c.openChans[v.id] && vOpen(v) }) &&
		vs.ForallMap(c.responseChan, func(k int, v chan any) bool { return v != nil && !vs.Closed(v) }) &&
		vs.ForallClosed(func(ch chan *Event) bool { return vOver(c, vs.ChanID(ch)) }) &&
		vs.ForallClosed(func(ch chan struct{}) bool { return vOver(c, vs.ChanID(ch)) }) &&
		vs.ForallFull(func(ch chan struct{}) bool { return vOver(c, vs.ChanID(ch)) })
}

// vOver: the identifier is that of a closed channel, or of none.
func vOver(c *Client, id int) bool { return !c.openChans[id] && id < c.evChanIdCounter }

// vMade: an event channel that CreateEventChannel made, open or closed by now, or none.
func vMade(v EventChannel) bool {
	return v.id == 0 || v.channel != nil && v.done != nil && vs.ChanID(v.channel) == v.id && vs.ChanID(v.done) == v.id &&
		vs.ChanOf[*Event](v.id) == v.channel && vs.ChanOf[struct{}](v.id) == v.done
}

// vStart is the start of every contract of an operation.
func vStart(c *Client) {
	vs.Requires(vInv(c))
	vs.Shared(c, func() bool { return vInv(c) })
}

func vEnd(c *Client) {
	vs.Ensures("C21 C28 C29: the client is consistent afterwards", vInv(c))
}

//verif:contract NewClient
//verif:safety C26 C28 C29
func vcNewClient(conn net.Conn) {
	// identifiers are those the client will give to its channels: there are none yet
	vs.Assume(vs.ForallClosed(func(ch chan *Event) bool { return vs.ChanID(ch) == 0 }) &&
		vs.ForallClosed(func(ch chan struct{}) bool { return vs.ChanID(ch) == 0 }) && vs.ForallFull(func(ch chan struct{}) bool { return vs.ChanID(ch) == 0 }))
	c := NewClient(conn)
	vs.Ensures("C28 C29: a new client is consistent", vInv(c))
	vs.Ensures("C18: a new client is not connected", !c.isConnected && c.conn == conn)
}

//verif:contract (*Client).SetStorage
//verif:safety C26 C29 C32
func vcSetStorage(c *Client, storage storage.Storage) {
	vStart(c)
	vs.Modifies(&c.storage)
	c.SetStorage(storage)
	vs.Ensures("C31: the storage is used from now on", c.storage == storage)
}

//verif:contract (*Client).SetRngFn
//verif:safety C26 C29 C32
func vcSetRngFn(c *Client, fn func() uint32) {
	vStart(c)
	vs.Modifies(&c.rngFn)
	c.SetRngFn(fn)
}

//verif:contract (*Client).IsConnected
//verif:safety C18 C26 C29 C32
func vcIsConnected(c *Client) {
	vStart(c)
	r := c.IsConnected()
	vs.Ensures("C18: the connection state is reported", r == c.isConnected)
}

//verif:contract (*Client).KeepAliveInterval
//verif:safety C19 C26 C29 C32
func vcKeepAliveInterval(c *Client) {
	vStart(c)
	r := c.KeepAliveInterval()
	vs.Ensures("C19: the keep-alive interval is reported", r == c.keepAliveInterval)
}

/* ---- event channels ---- */

//verif:contract (*Client).CreateEventChannel
//verif:safety C26 C28 C29 C32
func vcCreateEventChannel(c *Client, n int) {
	vStart(c)
	vs.Requires(n < 1<<20)
	vs.Requires(c.evChanIdCounter < 1<<59)
	id0 := c.evChanIdCounter
	_, was := c.eventChans[id0]
	open := c.openChans[id0]
	general0, open0 := vs.MapCopy(c.eventChans), vs.MapCopy(c.openChans)
	vs.Modifies(&c.eventChans)
	vs.Modifies(&c.openChans)
	vs.Modifies(&c.evChanIdCounter)
	r := c.CreateEventChannel(n)
	vs.Assume(vs.ChanID(r.channel) == r.id && vs.ChanID(r.done) == r.id && vs.ChanOf[*Event](r.id) == r.channel && vs.ChanOf[struct{}](r.id) == r.done)
	vs.Ensures("C28: the identifier of a new channel is used by no other", r.id == id0 && !was && !open)
	vs.Ensures("C28: a new channel is a general channel, the others stay", vs.MapEq(c.eventChans, vs.MapPut(general0, r.id, r)))
	vs.Ensures("C28: a new channel is open, the others stay what they are", vs.MapEq(c.openChans, vs.MapPut(open0, r.id, true)))
	vs.Ensures("C28: the capacity is the requested one, at least one", cap(r.channel) == n || n < 1 && cap(r.channel) == 1)
	vs.Ensures("C28: the caller receives what the client sends", (<-chan *Event)(r.channel) == r.C && (<-chan struct{})(r.done) == r.Done)
	vEnd(c)
}

//verif:contract (*Client).CloseEventChannel
//verif:safety C26 C28 C29 C32
func vcCloseEventChannel(c *Client, channel EventChannel) {
	vStart(c)
	vs.Requires(!c.openChans[channel.id] || vOpen(channel))
	open := c.openChans[channel.id]
	general0, open0, bound0 := vs.MapCopy(c.eventChans), vs.MapCopy(c.openChans), vs.MapCopy(c.topicChans)
	vs.Modifies(&c.eventChans)
	vs.Modifies(&c.openChans)
	vs.Modifies(&c.topicChans)
	c.CloseEventChannel(channel)
	vs.Ensures("C28: an open channel is closed", !open || vs.Closed(channel.channel) && vs.Closed(channel.done))
	id := channel.id
	vs.Ensures("C28: closing removes a general channel and no other", vs.MapEq(c.eventChans, vs.MapDel(general0, id)) || !open && vs.MapEq(c.eventChans, general0))
	vs.Ensures("C28: closing closes no other channel", vs.MapEq(c.openChans, vs.MapDel(open0, id)) || !open && vs.MapEq(c.openChans, open0))
	vs.Ensures("C28: a closed channel gets no filter's messages", !open || vs.ForallMap(c.topicChans, func(k string, v EventChannel) bool { return v.id != id }))
	vs.Ensures("C28: closing adds no binding", vs.ForallMap(c.topicChans, func(k string, v EventChannel) bool { return bound0[k] == v }))
	vs.Ensures("C28: closing leaves the bindings of the other channels", vs.ForallMap(bound0, func(k string, v EventChannel) bool { return v.id == id || c.topicChans[k] == v }))
	vEnd(c)
}

/* ---- sessions ---- */

// vOffers: the offers of an event to every general channel.
func vOffers(c *Client, packetType packets.PacketType, data any) string {
	return vs.FoldMap(c.eventChans, func(k int, v EventChannel) string { return vs.Offer(v.channel, byte(packetType), data) })
}

//verif:contract (*Client).Connect
//verif:safety C18 C26 C29 C32
func vcConnect(c *Client, ctx context.Context, packet *packets.Connect) {
	vStart(c)
	vs.Requires(packets.VConnectFits(packet))
	conn, was, closed0 := c.conn, c.isConnected, vs.ConnClosed(c.conn)
	out0, f0, rf0, pos := vs.Out(conn), vs.WriteFailed(conn), vs.ReadFailed(conn), vs.Pos(conn)
	events0 := vs.Events()
	want := packets.VConnectBytes(packet)
	keep, receive, expiry := packet.KeepAlive, packet.ReceiveMaximum, packet.SessionExpiryInterval
	first, remaining, next, whole := packets.VReadHeader(vs.In(conn), pos)
	vs.Modifies(c)
	err := c.Connect(ctx, packet)
	vs.Assume(err != nil || vs.ChanID(c.pendingSendSemaphore) == 0) // a new channel that is nobody's event channel
	vs.Ensures("C18: success means connected", err != nil || c.isConnected)
	vs.Ensures("C18: a failed connect connects nobody", err == nil || c.isConnected == was)
	vs.Ensures("C18: exactly the CONNECT packet is written", err != nil || vs.Out(conn) == out0+want)
	vs.Ensures("C18: only an accepting CONNACK connects", err != nil || whole && first>>4 == 2 && vs.In(conn)[next+1] < 128)
	vs.Ensures("C18: exactly the CONNACK is consumed", err != nil || vs.Pos(conn) == next+int(remaining))
	vs.Ensures("C18: an error only if the connection fails or the answer is not accepting",
		err == nil || vs.WriteFailed(conn) || vs.ReadFailed(conn) || !whole || first>>4 != 2 || vs.In(conn)[next+1] >= 128)
	vs.Ensures("C18: a failure of the connection is reported", err != nil || vs.WriteFailed(conn) == f0 && vs.ReadFailed(conn) == rf0)
	vs.Ensures("C18: the connection stays open if the server accepts", err != nil || vs.ConnClosed(conn) == closed0)
	vs.Ensures("C18: the connection is closed if the server refuses", !whole || vs.WriteFailed(conn) || vs.ReadFailed(conn) || first>>4 != 2 || vs.In(conn)[next+1] < 128 || vs.ConnClosed(conn))
	vs.Ensures("C18: every general channel is offered the event", err != nil || vs.Events() == events0+vOffers(c, packets.CONNACK, vs.LastEvent()))
	vs.Ensures("C18: nothing is signalled if the connect failed", err == nil || vs.Events() == events0)
	vs.Ensures("C21: all of the server's allowance is free", err != nil || c.sendQuota == c.serverReceiveMaximum && c.sendQuota > 0)
	vs.Ensures("C19: the number of packets accepted is the maximum requested or 65535", err != nil ||
		c.receiveQuota == c.clientReceiveMaximum && (receive == 0 && c.receiveQuota == 65535 || receive != 0 && c.receiveQuota == uint16(receive)))
	vs.Ensures("C24: the session expiry interval is the one requested", err != nil || c.sessionExpiryInterval == uint32(expiry))
	connack, is := vs.LastRead().(*packets.Connack)
	seen := err == nil
	vs.Ensures("C18: the event is the CONNACK", !seen || is && (len(c.eventChans) == 0 || vs.LastEvent() == any(connack)))
	vs.Ensures("C19: the keep alive is the server's, or the one requested", !seen || is &&
		(connack.ServerKeepAlive > 0 && c.keepAliveInterval == time.Second*time.Duration(connack.ServerKeepAlive) ||
			connack.ServerKeepAlive == 0 && c.keepAliveInterval == time.Second*time.Duration(keep)))
	vs.Ensures("C19: the allowance is the server's receive maximum or 65535", !seen || is &&
		(connack.ReceiveMaximum > 0 && c.sendQuota == uint16(connack.ReceiveMaximum) || connack.ReceiveMaximum == 0 && c.sendQuota == 65535))
	vs.Ensures("C25: the first PINGRESP is due two intervals after connecting", err != nil || c.pingRespDeadline == vs.Clock().Add(c.keepAliveInterval*2))
	vs.Cover("C18: success", err == nil)
	vEnd(c)
}

//verif:contract (*Client).DisconnectWithSessionExpiry
//verif:safety C24 C26 C29 C32
func vcDisconnectWithSessionExpiry(c *Client, ctx context.Context, publishWill bool, sessionExpiryInterval int) {
	vStart(c)
	conn, was := c.conn, c.isConnected
	out0, f0, events0 := vs.Out(conn), vs.WriteFailed(conn), vs.Events()
	var reason byte
	var expiry uint32
	if publishWill {
		reason = 4
	}
	if c.sessionExpiryInterval != 0 {
		expiry = uint32(sessionExpiryInterval)
	}
	want := packets.VDisconnectBytes(reason, expiry)
	vs.Modifies(c)
	err := c.DisconnectWithSessionExpiry(ctx, publishWill, sessionExpiryInterval)
	vs.Ensures("C24: a client that is not connected refuses", was || err == ErrClientNotConnected)
	vs.Ensures("C24: a client that is not connected sends and signals nothing", was || vs.Out(conn) == out0 && vs.Events() == events0 && vs.WriteFailed(conn) == f0)
	vs.Ensures("C24: exactly the DISCONNECT packet is sent", err != nil || vs.Out(conn) == out0+want)
	vs.Ensures("C24: the connection is closed", err != nil || vs.ConnClosed(conn))
	vs.Ensures("C24: the client is not connected afterwards", err != nil || !c.isConnected)
	vs.Ensures("C24: disconnecting never connects", was || !c.isConnected)
	vs.Ensures("C24: disconnecting fails only if the connection fails", !was || err == nil || vs.WriteFailed(conn))
	vs.Ensures("C24: a failure of the connection is reported", err != nil || vs.WriteFailed(conn) == f0)
	vs.Ensures("C24: every general channel is offered the event", err != nil || vs.Events() == events0+vOffers(c, packets.DISCONNECT, vs.LastEvent()))
	vs.Cover("C24: success", err == nil)
	vEnd(c)
}

//verif:contract (*Client).Disconnect
//verif:safety C24 C26 C29 C32
func vcDisconnect(c *Client, ctx context.Context, publishWill bool) {
	vStart(c)
	conn, was := c.conn, c.isConnected
	out0, f0, events0 := vs.Out(conn), vs.WriteFailed(conn), vs.Events()
	var reason byte
	if publishWill {
		reason = 4
	}
	want := packets.VDisconnectBytes(reason, 0)
	vs.Modifies(c)
	err := c.Disconnect(ctx, publishWill)
	vs.Ensures("C24: a client that is not connected refuses", was || err == ErrClientNotConnected)
	vs.Ensures("C24: a client that is not connected sends and signals nothing", was || vs.Out(conn) == out0 && vs.Events() == events0 && vs.WriteFailed(conn) == f0)
	vs.Ensures("C24: exactly the DISCONNECT packet is sent", err != nil || vs.Out(conn) == out0+want)
	vs.Ensures("C24: the connection is closed", err != nil || vs.ConnClosed(conn))
	vs.Ensures("C24: the client is not connected afterwards", err != nil || !c.isConnected)
	vs.Ensures("C24: disconnecting fails only if the connection fails", !was || err == nil || vs.WriteFailed(conn))
	vs.Ensures("C24: every general channel is offered the event", err != nil || vs.Events() == events0+vOffers(c, packets.DISCONNECT, vs.LastEvent()))
	vs.Cover("C24: success", err == nil)
	vEnd(c)
}

//verif:contract (*Client).KeepAlive
//verif:safety C25 C26 C29 C32
func vcKeepAlive(c *Client) {
	vStart(c)
	was := c.isConnected
	out0, f0 := vs.Out(c.conn), vs.WriteFailed(c.conn)
	vs.Modifies(c)
	err := c.KeepAlive()
	vs.Ensures("C25: a client that is not connected refuses", was || err == ErrClientNotConnected)
	vs.Ensures("C25: a client that is not connected sends nothing", was || vs.Out(c.conn) == out0)
	vs.Ensures("C25: a keep alive is a PINGREQ", err != nil || vs.Out(c.conn) == out0+"\xc0\x00")
	vs.Ensures("C25: a keep alive fails only if the connection fails", !was || err == nil || vs.WriteFailed(c.conn))
	vs.Ensures("C25: a failure of the connection is reported", err != nil || vs.WriteFailed(c.conn) == f0)
	vs.Ensures("C25: a keep alive changes neither the connection state nor the interval", c.isConnected == was)
	vs.Cover("C25: success", err == nil)
	vEnd(c)
}

//verif:contract (*Client).Publish
//verif:safety C21 C26 C29 C30 C32
func vcPublish(c *Client, ctx context.Context, pub *packets.Publish) {
	vStart(c)
	vs.Requires(packets.VPublishFits(pub))
	conn, was := c.conn, c.isConnected
	out0, f0 := vs.Out(conn), vs.WriteFailed(conn)
	before, quota, receive := *pub, c.sendQuota, c.receiveQuota
	waits := before.QoS > 0 && quota == 0
	var log0 string
	var failed0 bool
	if c.storage != nil {
		log0, failed0 = vs.StorageLog(c.storage), vs.StorageFailed(c.storage)
	}
	vs.Modifies(c)
	vs.Modifies(pub)
	err := c.Publish(ctx, pub)
	vs.Ensures("C30: a client that is not connected refuses", was || err == ErrClientNotConnected)
	vs.Ensures("C30: a client that is not connected sends nothing", was || vs.Out(conn) == out0)
	vs.Ensures("C30: exactly one PUBLISH packet is sent, the message", err != nil || vs.Out(conn) == out0+packets.VPublishBytes(pub))
	after := before
	after.Header, after.PacketIdentifier = pub.Header, pub.PacketIdentifier
	vs.Ensures("C30: the message stays what it is", vs.Same(*pub, after))
	vs.Ensures("C30: a message of QoS 1 or 2 has an identifier, the caller's if there is one",
		err != nil || before.QoS == 0 || pub.PacketIdentifier != 0 && (before.PacketIdentifier == 0 || pub.PacketIdentifier == before.PacketIdentifier))
	_, pending := c.responseChan[int(pub.PacketIdentifier)]
	vs.Ensures("C30: a new identifier is used by no pending request", err != nil || before.QoS == 0 || before.PacketIdentifier != 0 || waits || !pending)
	if c.storage != nil {
		log := vs.StorageLog(c.storage)
		stored := log == log0+vs.StoreOp(uint16(pub.PacketIdentifier), pub)
		vs.Ensures("C30: a message of QoS 1 or 2 is stored under its identifier", err != nil || before.QoS == 0 || stored)
		vs.Ensures("C30: nothing of a message of QoS 1 or 2 is sent before it is stored", before.QoS == 0 || stored || vs.Out(conn) == out0)
		vs.Ensures("C30 C31: a message of QoS 0 is not stored", before.QoS > 0 || log == log0)
		vs.Ensures("C30: nothing is stored by a client that is not connected", was || log == log0)
		vs.Ensures("C30: nothing is sent if storing fails", vs.StorageFailed(c.storage) == failed0 || failed0 || err != nil && vs.Out(conn) == out0)
	}
	vs.Ensures("C30: a failure of the connection is reported", err != nil || vs.WriteFailed(conn) == f0)
	vs.Ensures("C21: a message of QoS 1 or 2 uses one unit of the allowance", err != nil || before.QoS == 0 || waits || c.sendQuota == quota-1)
	vs.Ensures("C21: a message of QoS 1 or 2 is sent only if there is allowance", err != nil || before.QoS == 0 || c.sendQuota < 65535)
	vs.Ensures("C21: a message of QoS 0 uses no allowance", before.QoS > 0 || c.sendQuota == quota)
	vs.Ensures("C21: publishing does not change the inbound allowance", waits || c.receiveQuota == receive)
	vs.Cover("C30: success", err == nil)
	vs.Cover("C30: success after waiting", err == nil && waits)
	vEnd(c)
}

var _ = primitives.PrimitiveByte(0)
var _ context.Context
var _ packets.PacketType
