package mqtt

import (
	"context"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	vs "github.com/waj334/tinygo-mqtt/mqtt/verifspec"
)

/* ---- subscriptions ---- */

func vTopicBytes(topics []Topic) string {
	return vs.FoldSlice(topics, func(t Topic) string { return packets.VTopicBytes(t.Topic) })
}

// vGranted: the last answer grants the topic.
func vGranted(w int) bool {
	ack, is := vs.LastReceived().(*packets.Suback)
	return is && 0 <= w && w < len(ack.ReasonCodes) && ack.ReasonCodes[w] < 0x80
}

// vBinds: a subscription binds the channel.
func vBinds(c *Client, channel EventChannel) bool { return channel.id != 0 && c.openChans[channel.id] }

// vBound: messages of the filter go to the channel, which gets no other event.
func vBound(c *Client, filter string, channel EventChannel) bool {
	v, bound := c.topicChans[filter]
	_, general := c.eventChans[channel.id]
	return bound && v == channel && !general
}

func vSameBinding(a, b map[string]EventChannel, filter string) bool {
	v, is := a[filter]
	u, was := b[filter]
	return is == was && v == u
}

//verif:contract (*Client).Subscribe
//verif:safety C23 C26 C29 C32
func vcSubscribe(c *Client, ctx context.Context, topics []Topic, w int, other string) {
	vStart(c)
	vs.Requires(vs.ForallSlice(topics, func(t Topic) bool { return packets.VTopicFits(t.Topic) && vMade(t.channel) }))
	vs.Requires(vs.ForallSlice(topics, func(t Topic) bool { return t.Topic.Filter() != other }))
	vs.Requires(w < 0 || w >= len(topics) || vs.ForallSlice(topics, func(t Topic) bool {
		return t.Topic.Filter() != topics[w].Topic.Filter() || t.channel == topics[w].channel
	}))
	vs.Requires(3+len(vTopicBytes(topics)) <= vs.MaxVarInt)
	conn, was := c.conn, c.isConnected
	out0, f0 := vs.Out(conn), vs.WriteFailed(conn)
	pending0 := vs.MapCopy(c.responseChan)
	vs.OnWait("C23: the answer awaited is that to this request", func() bool {
		s, is := vs.LastSent().(*packets.Subscribe)
		return is && vs.Awaiting(c.responseChan[int(s.PacketIdentifier)])
	})
	// an arbitrary topic, and an arbitrary filter
	var filter string
	var channel EventChannel
	if 0 <= w && w < len(topics) {
		filter, channel = topics[w].Topic.Filter(), topics[w].channel
	}
	bound0 := vs.MapCopy(c.topicChans)
	vs.OnResume(func() { vs.MapAssign(bound0, c.topicChans) })
	vs.Hint(func(t int) bool { return t <= w || !vGranted(w) || !vBinds(c, channel) || vBound(c, filter, channel) })
	vs.Hint(func(t int) bool { return vSameBinding(c.topicChans, bound0, other) })
	vs.Modifies(c)
	err := c.Subscribe(ctx, topics)
	sub, is := vs.LastSent().(*packets.Subscribe)
	id := uint16(0)
	if is {
		id = uint16(sub.PacketIdentifier)
	}
	_, pending := pending0[int(id)]
	ack, answered := vs.LastReceived().(*packets.Suback)
	vs.Ensures("C23: an empty list of topics is refused", err != nil || len(topics) > 0)
	vs.Ensures("C23: a client that is not connected refuses", was || err != nil)
	vs.Ensures("C23: a refused request sends nothing", was && len(topics) > 0 || vs.Out(conn) == out0)
	vs.Ensures("C23: exactly one SUBSCRIBE packet is sent, with the topics in their order", err != nil || is && vs.Out(conn) == out0+packets.VSubscribeRequest(id, vTopicBytes(topics)))
	vs.Ensures("C23: the request has an identifier that no other request uses", err != nil || id != 0 && !pending)
	vs.Ensures("C23: success means that every topic was granted", err != nil || answered && len(ack.ReasonCodes) == len(topics))
	vs.Ensures("C23: a failure of the connection is reported", err != nil || vs.WriteFailed(conn) == f0)
	_, left := c.responseChan[int(id)]
	vs.Ensures("C23: the identifier is free again afterwards", !is || pending || !left)
	granted := answered && vs.ForallSlice(ack.ReasonCodes, func(code byte) bool { return code < 0x80 })
	vs.Ensures("C23: a failure reason code is an error", err != nil || granted)
	vs.Ensures("C23: a request fails only if the connection or the server does", err == nil || !was || len(topics) == 0 || vs.WriteFailed(conn) ||
		!answered || len(ack.ReasonCodes) != len(topics) || !granted)
	vs.Ensures("C23: the channel of a granted topic is bound to its filter", !is || !answered || w < 0 || w >= len(topics) || len(ack.ReasonCodes) != len(topics) || ack.ReasonCodes[w] >= 0x80 ||
		channel.id == 0 || !c.openChans[channel.id] || vBound(c, filter, channel))
	vs.Ensures("C23: the other bindings stay", vSameBinding(c.topicChans, bound0, other))
	vs.Cover("C23: success", err == nil)
	vEnd(c)
}

/* ---- unsubscribing ---- */

func vFilterBytes(topics []string) string {
	return vs.FoldSlice(topics, func(t string) string { return vs.Str(t) })
}

// vReleased: the channel the filter was bound to, if any, is closed, and the filter is bound to none.
func vReleased(c *Client, bound0 map[string]EventChannel, filter string) bool {
	v, was := bound0[filter]
	_, is := c.topicChans[filter]
	return !is && (!was || vs.Closed(v.channel) && vs.Closed(v.done) && !c.openChans[v.id])
}

//verif:contract (*Client).Unsubscribe
//verif:safety C23 C26 C29 C32
func vcUnsubscribe(c *Client, ctx context.Context, topics []string, w int, other string) {
	vStart(c)
	vs.Requires(vs.ForallSlice(topics, func(t string) bool { return len(t) <= 65535 }))
	vs.Requires(3+len(vFilterBytes(topics)) <= vs.MaxVarInt)
	conn, was := c.conn, c.isConnected
	out0, f0 := vs.Out(conn), vs.WriteFailed(conn)
	pending0 := vs.MapCopy(c.responseChan)
	vs.OnWait("C23: the answer awaited is that to this request", func() bool {
		s, is := vs.LastSent().(*packets.Unsubscribe)
		return is && vs.Awaiting(c.responseChan[int(s.PacketIdentifier)])
	})
	// an arbitrary topic, and an arbitrary other filter
	var filter string
	if 0 <= w && w < len(topics) {
		filter = topics[w]
	}
	bound0 := vs.MapCopy(c.topicChans)
	vs.OnResume(func() { vs.MapAssign(bound0, c.topicChans) })
	spared := func() bool { // no topic is bound to the channel of the other filter
		return vs.ForallSlice(topics, func(t string) bool {
			v, is := bound0[t]
			return !is || v.id != bound0[other].id
		})
	}
	vs.Hint(func(t int) bool {
		return vs.ForallMap(c.topicChans, func(k string, v EventChannel) bool {
			u, was := bound0[k]
			return was && u == v
		})
	})
	vs.Hint(func(t int) bool {
		return w < 0 || vReleased(c, bound0, filter) || t <= w && vSameBinding(c.topicChans, bound0, filter)
	})
	vs.Hint(func(t int) bool { return !spared() || vSameBinding(c.topicChans, bound0, other) })
	vs.Modifies(c)
	err := c.Unsubscribe(ctx, topics)
	sent, is := vs.LastSent().(*packets.Unsubscribe)
	id := uint16(0)
	if is {
		id = uint16(sent.PacketIdentifier)
	}
	_, pending := pending0[int(id)]
	_, answered := vs.LastReceived().(*packets.Unsuback)
	vs.Ensures("C23: an empty list of topics is refused", err != nil || len(topics) > 0)
	vs.Ensures("C23: a client that is not connected refuses", was || err != nil)
	vs.Ensures("C23: a refused request sends nothing", was && len(topics) > 0 || vs.Out(conn) == out0)
	vs.Ensures("C23: exactly one UNSUBSCRIBE packet is sent, with the filters in their order", err != nil || is && vs.Out(conn) == out0+packets.VUnsubscribeRequest(id, vFilterBytes(topics)))
	vs.Ensures("C23: the request has an identifier that no other request uses", err != nil || id != 0 && !pending)
	vs.Ensures("C23: success means that the server has answered", err != nil || answered)
	vs.Ensures("C23: a failure of the connection is reported", err != nil || vs.WriteFailed(conn) == f0)
	_, left := c.responseChan[int(id)]
	vs.Ensures("C23: the identifier is free again afterwards", !is || pending || !left)
	vs.Ensures("C23: a request fails only if the connection or the server does", err == nil || !was || len(topics) == 0 || vs.WriteFailed(conn) || !answered)
	vs.Ensures("C23: the channels bound to the filters are closed", err != nil || w < 0 || w >= len(topics) || vReleased(c, bound0, filter))
	vs.Ensures("C23: the other bindings stay", vSameBinding(c.topicChans, bound0, other) || answered && !spared())
	vs.Cover("C23: success", err == nil)
	vEnd(c)
}
