package mqtt

import (
	"bytes"
	"context"
	"errors"
	"io"
	"math/rand"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"github.com/waj334/tinygo-mqtt/mqtt/storage"
	vs "github.com/waj334/tinygo-mqtt/mqtt/verifspec"
)

// --- topic matching -------------------------------------------------------------------------------------------------

// vLevels is the definition of matching by levels, independent of vMatch.
func vLevels(topic, filter string) bool {
	if strings.HasPrefix(topic, "$") && (strings.HasPrefix(filter, "+") || strings.HasPrefix(filter, "#")) {
		return false
	}
	fl, tl := strings.Split(filter, "/"), strings.Split(topic, "/")
	for i, l := range fl {
		if strings.Contains(l, "#") && (l != "#" || i != len(fl)-1) || strings.Contains(l, "+") && l != "+" {
			return false
		}
	}
	if fl[len(fl)-1] == "#" {
		fl = fl[:len(fl)-1]
		if len(tl) < len(fl) {
			return false
		}
		tl = tl[:len(fl)]
	}
	if len(fl) != len(tl) {
		return false
	}
	for i := range fl {
		if fl[i] != "+" && fl[i] != tl[i] {
			return false
		}
	}
	return true
}

var vPool = []string{"a", "b", "/", "+", "#", "$", "ab", "", "a/b", "/#", "+/", "/+"}

func vTopicStr(g *vs.Gen, name string) string {
	s := ""
	for i, n := 0, g.Intn("n."+name, 6); i < n; i++ {
		s += vPool[g.Intn(name, len(vPool))]
	}
	return s
}

func TestVReplayC16(t *testing.T) {
	vs.Replay("C16", map[string]vs.Case{"match": func(g *vs.Gen) string {
		topic, filter := vTopicStr(g, "topic"), vTopicStr(g, "filter")
		if strings.ContainsAny(topic, "+#") {
			topic = strings.NewReplacer("+", "p", "#", "h").Replace(topic)
		}
		g.Note("topic %q filter %q", topic, filter)
		res := make(chan string, 1)
		go func() {
			defer func() {
				if p := recover(); p != nil {
					res <- vs.Sprintf("panic: %v", p)
				}
			}()
			if got := NewClient(nil).matchTopic(topic, filter); got != vLevels(topic, filter) {
				res <- vs.Sprintf("matchTopic(%q, %q) = %v", topic, filter, got)
				return
			}
			res <- ""
		}()
		select {
		case m := <-res:
			return m
		case <-time.After(10 * time.Second):
			return vs.Sprintf("matchTopic(%q, %q) does not terminate", topic, filter)
		}
	}}, t.Errorf)
}

// TestVSpecMatch compares the byte-wise specification with the level-wise one exhaustively on short strings.
func TestVSpecMatch(t *testing.T) {
	var all func(alpha string, n int) []string
	all = func(alpha string, n int) []string {
		if n == 0 {
			return []string{""}
		}
		r := []string{""}
		for _, s := range all(alpha, n-1) {
			for _, c := range alpha {
				r = append(r, string(c)+s)
			}
		}
		return r
	}
	for _, f := range all("a/+#$", 6) {
		for _, tp := range all("a/$", 5) {
			if vMatch(tp, f) != vLevels(tp, f) {
				t.Fatalf("%q %q: %v", tp, f, vMatch(tp, f))
			}
		}
	}
}

// --- a scripted connection -------------------------------------------------------------------------------------------

type vConn struct {
	mu     sync.Mutex
	in     []byte
	endErr error // what a read reports when the input is used up
	step   func() int
	out    []byte
	closed bool
	closes int
	late   bool // bytes were written after the connection was closed
	wLimit int  // -1: writes never fail; otherwise bytes accepted before failing
	sdFail int  // SetDeadline calls before one fails; -1 never
	clFail bool
	dl     time.Time
	log    []string
}

func newVConn() *vConn {
	return &vConn{wLimit: -1, sdFail: -1, step: func() int { return 1 << 30 }, endErr: io.EOF}
}

func (c *vConn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, net.ErrClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	if len(c.in) == 0 {
		return 0, c.endErr
	}
	n := c.step()
	if n > len(b) {
		n = len(b)
	}
	if n > len(c.in) {
		n = len(c.in)
	}
	copy(b, c.in[:n])
	c.in = c.in[n:]
	return n, nil
}

func (c *vConn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		c.late = true
		return 0, net.ErrClosed
	}
	if !c.dl.IsZero() && c.dl.Before(time.Now().Add(-time.Minute)) {
		return 0, os.ErrDeadlineExceeded
	}
	if c.wLimit >= 0 {
		if len(b) > c.wLimit {
			return 0, io.ErrClosedPipe
		}
		c.wLimit -= len(b)
	}
	c.out = append(c.out, b...)
	c.log = append(c.log, "write")
	return len(b), nil
}

func (c *vConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closes++
	c.closed = true
	c.log = append(c.log, "close")
	if c.clFail {
		return io.ErrClosedPipe
	}
	return nil
}
func (c *vConn) LocalAddr() net.Addr  { return nil }
func (c *vConn) RemoteAddr() net.Addr { return nil }
func (c *vConn) SetDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.sdFail == 0 {
		return io.ErrClosedPipe
	}
	if c.sdFail > 0 {
		c.sdFail--
	}
	c.dl = t
	return nil
}
func (c *vConn) SetReadDeadline(t time.Time) error  { return c.SetDeadline(t) }
func (c *vConn) SetWriteDeadline(t time.Time) error { return c.SetDeadline(t) }

// take returns and forgets what was written so far.
func (c *vConn) take() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	s := string(c.out)
	c.out = nil
	return s
}

func (c *vConn) pending() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.out)
}

func (c *vConn) feed(s string, end error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.in = append(c.in, s...)
	c.endErr = end
}

func (c *vConn) left() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.in)
}

// --- a recording storage ---------------------------------------------------------------------------------------------

type vStore struct {
	mu     sync.Mutex
	m      map[uint16]any
	conn   *vConn
	log    []string
	failIn int // calls before one fails; -1 never
}

func (s *vStore) hit() bool {
	if s.failIn == 0 {
		s.failIn = -1
		return true
	}
	if s.failIn > 0 {
		s.failIn--
	}
	return false
}

var errVStore = errors.New("storage fault")

func (s *vStore) Store(id uint16, p any) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.log = append(s.log, vs.Sprintf("store %d %T after %d bytes", id, p, s.conn.pending()))
	if s.hit() {
		return errVStore
	}
	if _, ok := s.m[id]; ok {
		return storage.ErrDuplicateEntry
	}
	s.m[id] = p
	return nil
}
func (s *vStore) Get(id uint16) (any, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if p, ok := s.m[id]; ok {
		return p, nil
	}
	return nil, storage.ErrNoEntry
}
func (s *vStore) Drop(id uint16) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.log = append(s.log, vs.Sprintf("drop %d", id))
	if s.hit() {
		return errVStore
	}
	if _, ok := s.m[id]; !ok {
		return storage.ErrNoEntry
	}
	delete(s.m, id)
	return nil
}

func (s *vStore) view() map[uint16]string {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := map[uint16]string{}
	for k, v := range s.m {
		r[k] = vs.Sprintf("%T", v)
	}
	return r
}

// --- server packets --------------------------------------------------------------------------------------------------

func srvPacket(first byte, body string) string {
	return vs.Byte(first) + vs.VarInt(uint32(len(body))) + body
}

func srvUserProps(g *vs.Gen) string {
	p := ""
	for i, n := 0, 1+g.Intn("nuser", 3); i < n; i++ {
		p += vs.Byte(0x26) + vs.Str(g.StrOf("key", "ab \x00", 3)) + vs.Str(g.StrOf("value", "ab \x00", 3))
	}
	return p
}

// srvPubProps draws the properties of a PUBLISH, in any order.
func srvPubProps(g *vs.Gen, alias bool) string {
	p := ""
	if alias {
		p += "\x23" + vs.U16(uint16(1+g.Intn("alias", 300)))
	}
	for i, n := 0, g.Intn("npubprops", 4); i < n; i++ {
		switch 1 + g.Intn("pubprop", 6) {
		case 1:
			p += vs.Byte(2) + vs.U32(uint32(g.Uint("expiry", 32)))
		case 2:
			p += vs.Byte(3) + vs.Str(g.StrOf("ctype", "ab \x00", 4))
		case 3:
			p += vs.Byte(8) + vs.Str(g.StrOf("rtopic", "ab/ ", 4))
		case 4:
			p += vs.Byte(9) + vs.Str(g.Bytes("corr", 5))
		case 5:
			p += srvUserProps(g)
		case 6:
			p += vs.Byte(0x0b) + vs.VarInt(uint32(1+g.Uint("subid", 28)%268435455))
		}
	}
	return vs.VarInt(uint32(len(p))) + p
}

// vPayload is a payload of up to a few bytes, sometimes a long one.
func vPayload(g *vs.Gen) string {
	p := g.Bytes("payload", 5)
	if k := g.Intn("longpayload", 30); k < 4 {
		p += strings.Repeat("p", []int{120, 127, 300, 16390}[k])
	}
	return p
}

func vAckCodes(g *vs.Gen) string {
	switch g.Intn("ackcodes", 12) {
	case 0:
		return strings.Repeat("\x01", []int{64, 255, 256, 300}[g.Intn("manycodes", 4)])
	case 1, 2:
		return "\x00" + g.Bytes("codes", 4)
	}
	return "\x00\x01"[:1+g.Intn("ncodes", 2)]
}

func srvAckProps(g *vs.Gen) string {
	p := ""
	switch g.Intn("ackprops", 6) {
	case 1:
		p = vs.Byte(0x1f) + vs.Str(g.Str("reason"))
	case 2:
		p = vs.Byte(0x1f) + vs.Str(g.StrOf("blanks", " \x00\n a", 4))
	case 3:
		p = srvUserProps(g) + vs.Byte(0x1f) + vs.Str(g.StrOf("reason2", "a \x00\xff", 3))
	case 4:
		p = srvUserProps(g)
	}
	return vs.VarInt(uint32(len(p))) + p
}

// --- the world: a client, its connection, a model ----------------------------------------------------------------------

type vChan struct {
	ch      EventChannel
	cap     int
	closed  bool
	general bool
	binds   map[string]bool
}

type vWorld struct {
	g     *vs.Gen
	c     *Client
	conn  *vConn
	st    *vStore
	chans []*vChan
	// model
	connected      bool
	ka             time.Duration
	srvMax, cliMax int
	sendQ, recvQ   int
	sei            uint32
	store          map[uint16]string
	prop           string
	msg            string
}

// fail records a failure of the property under test.
func (w *vWorld) fail(props string, format string, a ...any) {
	if w.msg == "" && strings.Contains(props, w.prop) {
		w.msg = vs.Sprintf(format, a...)
	}
}

// call runs one operation, watching for panics, deadlocks and leaked locks.
func (w *vWorld) call(name string, f func() error) (err error, ok bool) {
	if err, ok = w.call1(name, f); !ok {
		w.msgOrStop()
	}
	return
}

func (w *vWorld) call1(name string, f func() error) (err error, ok bool) {
	done := make(chan struct{})
	pan := ""
	go func() {
		defer close(done)
		defer func() {
			if p := recover(); p != nil {
				pan = vs.Sprintf("%v", p)
			}
		}()
		err = f()
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		w.fail("C26 C29 C20 C21 C24", "%s did not return (deadlock)", name)
		return nil, false
	}
	if pan != "" {
		w.fail("C29 "+map[bool]string{true: "C26"}[strings.Contains(pan, "mutex")], "%s panicked: %s", name, pan)
		return nil, false
	}
	return err, strings.HasPrefix(name, "answering ") || w.locks(name)
}

func (w *vWorld) locks(name string) bool {
	if !w.c.connMutex.TryLock() {
		w.fail("C26", "%s returned with the connection mutex held", name)
		return false
	}
	w.c.connMutex.Unlock()
	if !w.c.mutex.TryLock() {
		w.fail("C26", "%s returned with the client mutex held", name)
		return false
	}
	w.c.mutex.Unlock()
	if !w.c.eventMutex.TryLock() {
		w.fail("C26", "%s returned with the event mutex held", name)
		return false
	}
	w.c.eventMutex.Unlock()
	return true
}

func (w *vWorld) common(name string) {
	if w.conn.late {
		w.fail("C24", "%s wrote after the connection was closed", name)
	}
}

func newWorld(g *vs.Gen, prop string) *vWorld {
	w := &vWorld{g: g, conn: newVConn(), prop: prop}
	w.c = NewClient(w.conn)
	if g.Intn("storage", 3) > 0 {
		w.st = &vStore{m: map[uint16]any{}, failIn: -1, conn: w.conn}
		w.c.SetStorage(w.st)
		w.store = map[uint16]string{}
		for i, n := 0, []int{0, 0, 0, 9, 30}[g.Intn("stfill", 5)]; i < n; i++ {
			w.st.m[uint16(5000+i)] = &packets.Publish{}
			w.store[uint16(5000+i)] = "*packets.Publish"
		}
	}
	seq := []uint32{}
	for i := 0; i < 3; i++ {
		seq = append(seq, uint32(g.Uint("rng", 17)), uint32([]uint16{0, 1, 2, 3, 0xffff, 0x100, 0x7fff, 0x8000}[g.Intn("rng8", 8)])|uint32(g.Intn("rnghigh", 2))<<16)
	}
	i := 0
	w.c.SetRngFn(func() uint32 { i++; return seq[i%len(seq)] })
	mode := g.Intn("chunking", 3)
	rng := rand.New(rand.NewSource(int64(g.Intn("chunkseed", 1000))))
	w.conn.step = func() int {
		if mode == 0 {
			return 1 << 30
		}
		return 1 + rng.Intn(3)
	}
	return w
}

func (w *vWorld) ctx() (context.Context, context.CancelFunc) {
	if w.g.Bool("ctxdeadline") {
		return context.WithTimeout(context.Background(), time.Hour)
	}
	return context.Background(), func() {}
}

// expectEvents compares the events that arrived on every channel with the expectation; before holds the fill levels.
func (w *vWorld) fill() []int {
	r := make([]int, len(w.chans))
	for i, c := range w.chans {
		r[i] = len(c.ch.C)
	}
	return r
}

func (w *vWorld) expectEvents(name, props string, before []int, typ packets.PacketType, general int, topic string, isPub bool) {
	for i, c := range w.chans {
		if c.closed {
			continue
		}
		want := 0
		if c.general {
			want += general
		}
		if isPub {
			for f := range c.binds {
				if vMatch(topic, f) {
					want++
				}
			}
		}
		if room := c.cap - before[i]; want > room {
			want = room
		}
		got := len(c.ch.C) - before[i]
		if got != want {
			w.fail(props, "%s: channel %d (general %v, filters %v) got %d events, want %d", name, i, c.general, c.binds, got, want)
			return
		}
		if got > 0 {
			for j := 0; j < before[i]; j++ {
				<-c.ch.C
			}
			for j := 0; j < got; j++ {
				e := <-c.ch.C
				if e == nil || e.PacketType != typ || e.Data == nil {
					w.fail(props, "%s: wrong event %v", name, e)
					return
				}
				if p, ok := e.Data.(*packets.Publish); isPub && (!ok || string(p.Topic) != topic) {
					w.fail(props, "%s: wrong event data %v", name, e.Data)
				}
			}
		}
		if w.g.Bool("drain") {
			for len(c.ch.C) > 0 {
				<-c.ch.C
			}
		}
	}
}

func (w *vWorld) newChan() {
	n := []int{1, 2, 4, 0, -1, 3}[w.g.Intn("chancap", 6)]
	var ch EventChannel
	if _, ok := w.call("CreateEventChannel", func() error { ch = w.c.CreateEventChannel(n); return nil }); !ok {
		return
	}
	if n < 1 {
		n = 1
	}
	if cap(ch.C) != n {
		w.fail("C28", "event channel has capacity %d, want %d", cap(ch.C), n)
	}
	for _, o := range w.chans {
		if !o.closed && o.ch.id == ch.id {
			w.fail("C28", "two live event channels share identifier %d", ch.id)
		}
	}
	w.chans = append(w.chans, &vChan{ch: ch, cap: n, general: true, binds: map[string]bool{}})
}

func (w *vWorld) closeChan(i int) {
	c := w.chans[i]
	w.g.Note("close channel %d", i)
	if _, ok := w.call("CloseEventChannel", func() error { w.c.CloseEventChannel(c.ch); return nil }); !ok {
		w.fail("C28", "closing a channel panicked or blocked")
		return
	}
	if !c.closed {
		c.closed, c.general, c.binds = true, false, map[string]bool{}
		w.checkClosed("CloseEventChannel", "C28")
	}
}

func (w *vWorld) checkClosed(name, props string) {
	for i, c := range w.chans {
		isClosed := false
		n := len(c.ch.C)
		for k := 0; k <= n; k++ {
			select {
			case _, ok := <-c.ch.C:
				isClosed = isClosed || !ok
			default:
			}
		}
		if isClosed != c.closed {
			w.fail(props, "%s: channel %d closed %v, want %v", name, i, isClosed, c.closed)
		}
		if c.closed {
			for k := 0; k < 2; k++ {
				select {
				case <-c.ch.Done:
				default:
					w.fail(props, "%s: done channel of closed channel %d is not closed", name, i)
				}
			}
		}
	}
}

// --- operations --------------------------------------------------------------------------------------------------------

func (w *vWorld) connect() {
	g := w.g
	p := &packets.Connect{
		Version: packets.MQTT5, CleanSession: g.Bool("clean"), ClientId: primitives.PrimitiveString(g.StrOf("clientid", "abc", 5)),
		KeepAlive:             primitives.PrimitiveUint16([]uint16{0, 10, 60, 65535}[g.Intn("ka", 4)]),
		ReceiveMaximum:        primitives.PrimitiveUint16([]uint16{0, 1, 2, 65535}[g.Intn("rm", 4)]),
		SessionExpiryInterval: primitives.PrimitiveUint32([]uint32{0, 0, 7, 0xffffffff}[g.Intn("sei", 4)]),
	}
	var ska, srm uint16
	props := ""
	if g.Bool("srv.ka") {
		ska = []uint16{1, 30, 256}[g.Intn("srvka", 3)]
		if g.Intn("srvka0", 5) == 0 {
			ska = 0
		}
		props += vs.Byte(0x13) + vs.U16(ska)
	}
	if g.Bool("srv.rm") {
		srm = []uint16{1, 2, 3, 65535}[g.Intn("srvrm", 4)]
		props += vs.Byte(0x21) + vs.U16(srm)
	}
	kind := []string{"ok", "ok", "ok", "ok", "short", "reason", "other", "bad", "trunc", "writefail", "garbage"}[g.Intn("connkind", 11)]
	rc := byte(0)
	reply := ""
	end := error(io.EOF)
	switch kind {
	case "ok":
		rc = []byte{0, 0, 1, 127}[g.Intn("okrc", 4)]
	case "short":
		ska, srm, props = 0, 0, ""
		reply = "\x20\x02\x00\x00"
	case "reason":
		rc = []byte{128, 129, 200, 255}[g.Intn("badrc", 4)]
	case "other":
		reply = srvPacket([]byte{0x30, 0x40, 0x90, 0xd0, 0xe0, 0xf0, 0x10, 0}[g.Intn("othertype", 8)], "\x00\x00\x00")
	case "bad":
		reply = []string{"\x20\x03\x00\x00\x05", "\x20\x05\x00\x00\x02\x99\x00", "\x20\x01\x00\x00\x00", "\x20\x00\x00\x00\x00", "\x20\x06\x00\x00\x01\x00\x00\x00"}[g.Intn("badka", 5)]
	case "garbage":
		reply = "\x20" + g.Bytes("garbage", 12)
	}
	if reply == "" {
		reply = srvPacket(0x20, vs.Byte(byte(g.Intn("sp", 2)))+vs.Byte(rc)+vs.VarInt(uint32(len(props)))+props)
	}
	switch kind {
	case "trunc":
		reply = reply[:g.Intn("cut", len(reply))]
		if g.Bool("enddl") {
			end = os.ErrDeadlineExceeded
		}
	case "writefail":
		w.conn.wLimit = g.Intn("wlimit", 5)
	}
	g.Note("connect %s ka=%d rm=%d sei=%d reply %q", kind, p.KeepAlive, p.ReceiveMaximum, p.SessionExpiryInterval, vs.Short(reply))
	w.conn.mu.Lock()
	w.conn.in = nil
	w.conn.mu.Unlock()
	w.conn.feed(reply, end)
	var exp bytes.Buffer
	_, _ = p.WriteTo(&exp)
	w.conn.take()
	before := w.fill()
	ctx, cancel := w.ctx()
	defer cancel()
	start := time.Now()
	err, ok := w.call("Connect", func() error { return w.c.Connect(ctx, p) })
	if !ok {
		return
	}
	w.common("Connect")
	out := w.conn.take()
	w.conn.wLimit = -1
	if kind != "writefail" {
		if m := vs.SamePacket(out, exp.String()); m != "" || out == "" {
			w.fail("C18", "Connect wrote %q: %s", out, m)
		}
	}
	good := kind == "ok" || kind == "short"
	if kind == "garbage" {
		return // only safety is checked; the state is taken over from the client below
	}
	if good != (err == nil) {
		w.fail("C18", "Connect (%s, reason %d) returned %v", kind, rc, err)
		return
	}
	if w.c.IsConnected() != (good || w.connected) {
		w.fail("C18", "after Connect (%s) connected is %v", kind, w.c.IsConnected())
		return
	}
	if kind == "reason" {
		var r ReasonCode
		if !errors.As(err, &r) || byte(r) != rc {
			w.fail("C18", "Connect with reason %d returned %v", rc, err)
		}
		if !w.conn.closed {
			w.fail("C18", "a refused connection was not closed")
		}
	} else if w.conn.closed {
		w.fail("C18", "Connect (%s) closed the connection", kind)
	}
	if !good {
		w.expectEvents("Connect", "C18", before, packets.CONNACK, 0, "", false)
		return
	}
	w.connected = true
	w.ka = time.Duration(p.KeepAlive) * time.Second
	if ska > 0 {
		w.ka = time.Duration(ska) * time.Second
	}
	if w.c.KeepAliveInterval() != w.ka {
		w.fail("C19", "keep alive %v, want %v (requested %d, server %d)", w.c.KeepAliveInterval(), w.ka, p.KeepAlive, ska)
	}
	dflt := func(x uint16) int {
		if x == 0 {
			return 65535
		}
		return int(x)
	}
	w.srvMax, w.cliMax = dflt(srm), dflt(uint16(p.ReceiveMaximum))
	w.sendQ, w.recvQ = w.srvMax, w.cliMax
	w.quotas("Connect", "C19")
	w.sei = uint32(p.SessionExpiryInterval)
	w.deadline("Connect", start)
	w.expectEvents("Connect", "C18", before, packets.CONNACK, 1, "", false)
}

func (w *vWorld) deadline(name string, start time.Time) {
	d := w.c.pingRespDeadline
	if w.ka > 0 && (d.Before(start.Add(2*w.ka)) || d.After(time.Now().Add(2*w.ka))) {
		w.fail("C25", "%s: response deadline is %v from now with keep alive %v", name, time.Until(d), w.ka)
	}
}

func (w *vWorld) quotas(name, props string) {
	if int(w.c.sendQuota) != w.sendQ {
		w.fail(props, "%s: send quota %d, want %d of %d", name, w.c.sendQuota, w.sendQ, w.srvMax)
	}
	if int(w.c.receiveQuota) != w.recvQ {
		w.fail(props, "%s: receive quota %d, want %d of %d", name, w.c.receiveQuota, w.recvQ, w.cliMax)
	}
	if int(w.c.serverReceiveMaximum) != w.srvMax || int(w.c.clientReceiveMaximum) != w.cliMax {
		w.fail(props, "%s: receive maximums %d %d, want %d %d", name, w.c.serverReceiveMaximum, w.c.clientReceiveMaximum, w.srvMax, w.cliMax)
	}
}

func (w *vWorld) storeCheck(name, props string) {
	if w.st == nil {
		return
	}
	v := w.st.view()
	same := len(v) == len(w.store)
	for k, t := range w.store {
		same = same && v[k] == t
	}
	if !same {
		w.fail(props, "%s: storage is %v, want %v", name, v, w.store)
	}
}

var vTopics = []string{"a", "a/b", "b", "a/b/c", "$s/x", "b/", "/", "a/bc", "c/long/topic/name/with/levels", ""}
var vFilters = []string{"a", "a/b", "#", "+", "a/#", "+/b", "b/+", "$s/#", "a/+/c", "+/+"}

func (w *vWorld) poll() {
	g := w.g
	ids := []uint16{1, 2, 3, 0xffff, 0x100, 0x7fff, 0x8000, uint16(g.Uint("id", 16))}
	id := ids[g.Intn("whichid", len(ids))]
	if id == 0 {
		id = 9
	}
	kinds := []string{"publish", "publish", "publish", "puback", "pubrec", "pubrel", "pubcomp", "suback", "unsuback", "disconnect", "auth", "pingresp", "pingbody", "other", "none", "garbage", "cut", "zeroid"}
	kind := kinds[g.Intn("pollkind", len(kinds))]
	if kind == "disconnect" && g.Intn("rare", 3) > 0 {
		kind = "publish"
	}
	end := error(io.EOF)
	if g.Bool("enddl") {
		end = os.ErrDeadlineExceeded
	}
	var pkt, topic string
	var qos int
	var rc byte
	var typ packets.PacketType
	ackBody := func() string {
		rcs := []byte{0, 0, 0x10, 0x7f, 0x80, 0x81, 0xff}
		rc = rcs[g.Intn("ackrc", len(rcs))]
		switch g.Intn("ackform", 3) {
		case 0:
			rc = 0
			return vs.U16(id)
		case 1:
			return vs.U16(id) + vs.Byte(rc)
		}
		return vs.U16(id) + vs.Byte(rc) + srvAckProps(g)
	}
	payload := vPayload(g)
	mkPublish := func() string {
		qos = g.Intn("qos", 3)
		topic = vTopics[g.Intn("topic", len(vTopics))]
		b := vs.Str(topic)
		if qos > 0 {
			b += vs.U16(id)
		}
		b += srvPubProps(g, topic == "" && g.Intn("noalias", 3) > 0 || g.Intn("withalias", 4) == 0) + payload
		dup := 0
		if qos > 0 {
			dup = g.Intn("dup", 2) << 3
		}
		return srvPacket(0x30|byte(qos)<<1|byte(g.Intn("retain", 2))|byte(dup), b)
	}
	short := g.Bool("shortform")
	switch kind {
	case "publish":
		pkt, typ = mkPublish(), packets.PUBLISH
	case "zeroid":
		id = 0
		pkt, typ = mkPublish(), packets.PUBLISH
	case "puback":
		pkt, typ = srvPacket(0x40, ackBody()), packets.PUBACK
	case "pubrec":
		pkt, typ = srvPacket(0x50, ackBody()), packets.PUBREC
	case "pubrel":
		pkt, typ = srvPacket(0x62, ackBody()), packets.PUBREL
	case "pubcomp":
		pkt, typ = srvPacket(0x70, ackBody()), packets.PUBCOMP
	case "suback":
		pkt, typ = srvPacket(0x90, vs.U16(id)+srvAckProps(g)+vAckCodes(g)), packets.SUBACK
	case "unsuback":
		pkt, typ = srvPacket(0xb0, vs.U16(id)+srvAckProps(g)+vAckCodes(g)), packets.UNSUBACK
	case "disconnect":
		pkt, typ = srvPacket(0xe0, []string{"", "\x00", "\x8e\x00"}[g.Intn("discform", 3)]), packets.DISCONNECT
	case "auth":
		pkt, typ = srvPacket(0xf0, []string{"", "\x18", "\x18\x00"}[g.Intn("authform", 3)]), packets.AUTH
	case "pingresp":
		pkt = "\xd0\x00"
	case "pingbody":
		pkt = srvPacket(0xd0, "\x00")
	case "other":
		pkt = srvPacket([]byte{0x00, 0x10, 0x20, 0x80, 0xa0, 0xc0}[g.Intn("othertype", 6)], g.Bytes("body", 4))
	case "garbage":
		pkt = vs.Byte(byte(g.Uint("first", 8))) + g.Bytes("garbage", 14)
	case "cut":
		full := mkPublish()
		if g.Bool("cutack") {
			full = srvPacket(0x40, ackBody())
		}
		if g.Bool("cuthdr") {
			full = "\x30\x80\x80\x01"
		}
		pkt = full[:1+g.Intn("cutat", len(full)-1)]
		qos, topic = 0, ""
	}
	_ = short
	stale := g.Intn("stale", 12) == 0 && w.connected
	if stale {
		w.c.mutex.Lock()
		w.c.pingRespDeadline = time.Now().Add(-time.Second)
		w.c.mutex.Unlock()
	}
	w.conn.clFail = g.Intn("clfail", 20) == 0
	fault := w.st != nil && g.Intn("stfault", 10) == 0
	if fault {
		w.st.failIn = g.Intn("stfaultat", 3)
	}
	if g.Intn("wfail", 12) == 0 {
		w.conn.wLimit = 0
		fault = true
	}
	if g.Intn("sdfail", 15) == 0 {
		w.conn.sdFail = g.Intn("sdfailat", 3)
		fault = true
	}
	g.Note("poll %s %q end=%v stale=%v fault=%v", kind, vs.Short(pkt), end, stale, fault)
	w.conn.mu.Lock()
	w.conn.in = nil
	w.conn.mu.Unlock()
	w.conn.feed(pkt, end)
	w.conn.take()
	before := w.fill()
	ctx, cancel := w.ctx()
	defer cancel()
	if w.st != nil {
		w.st.log = nil
	}
	start := time.Now()
	err, ok := w.call("Poll", func() error { return w.c.Poll(ctx) })
	if !ok {
		return
	}
	w.common("Poll")
	out := w.conn.take()
	left := w.conn.left()
	if w.st != nil {
		w.st.failIn = -1
	}
	w.conn.wLimit, w.conn.sdFail = -1, -1
	defer func() {
		w.conn.clFail = false
		w.conn.mu.Lock()
		w.conn.in = nil
		w.conn.mu.Unlock()
	}()
	if !w.connected {
		if !errors.Is(err, ErrClientNotConnected) || out != "" || left != len(pkt) {
			w.fail("C24 C27", "Poll on a disconnected client returned %v, wrote %q, read %d bytes", err, out, len(pkt)-left)
		}
		return
	}
	if stale && w.ka > 0 {
		var r ReasonCode
		if w.c.IsConnected() || !w.conn.closed || out != "" || !w.conn.clFail && (!errors.As(err, &r) || r != 0x8d) {
			w.fail("C25", "Poll after the response deadline returned %v, connected %v, closed %v", err, w.c.IsConnected(), w.conn.closed)
		}
		w.connected = false
		return
	}
	if stale && w.ka == 0 && !fault && w.conn.closed && kind != "disconnect" && !(kind == "publish" || kind == "garbage" || kind == "zeroid" || kind == "cut") {
		w.fail("C25", "Poll closed the connection without a keep alive interval")
	}
	// stream framing
	if err == nil {
		consumed := len(pkt) - left
		want := -1
		if len(pkt) >= 2 {
			if rem, next, ok := vs.ReadVarInt(pkt, 1); ok && next+int(rem) <= len(pkt) {
				want = next + int(rem)
			}
		}
		if consumed != 0 && consumed != want {
			w.fail("C27", "Poll reported success after consuming %d bytes of %q", consumed, pkt)
		}
		if consumed == 0 && len(pkt) > 0 {
			w.fail("C27 C20", "Poll reported success without consuming the waiting packet %q", pkt)
		}
		if kind == "none" && end == io.EOF {
			w.fail("C27", "Poll reported success on a closed stream")
		}
	} else if kind == "none" && end == os.ErrDeadlineExceeded && !fault {
		w.fail("C27", "Poll with nothing to read returned %v", err)
	}
	switch kind {
	case "cut":
		if err == nil {
			w.fail("C27", "Poll reported success on a truncated packet %q", pkt)
		}
	case "pingbody", "other":
		if err == nil {
			w.fail("C27", "Poll accepted %q", pkt)
		}
	}
	if kind == "garbage" || fault || kind == "cut" {
		w.resync()
		return
	}
	// effects of well-formed packets
	reply, disc := "", false
	wantErr := kind == "pingbody" || kind == "other" || (kind == "none" && end == io.EOF)
	has := w.st != nil && w.store[id] != ""
	general, isPub := 0, false
	switch kind {
	case "publish", "zeroid":
		isPub, general = true, 1
		if qos > 0 {
			if w.recvQ == 0 {
				disc, wantErr, isPub, general = true, true, false, 0
				reply = "\xe0\x02\x93\x00"
			} else if id == 0 {
				wantErr, isPub, general = true, false, 0
				w.recvQ--
			} else if qos == 1 {
				reply = "\x40\x02" + vs.U16(id)
			} else {
				w.recvQ--
				reply = "\x50\x02" + vs.U16(id)
				if w.st != nil && !has {
					w.store[id] = "*packets.Pubrec"
				}
			}
		}
	case "puback", "pubcomp":
		general = 1
		if w.sendQ < w.srvMax {
			w.sendQ++
		}
		if w.st != nil {
			wantErr = !has
			delete(w.store, id)
		}
	case "pubrec":
		general = 1
		if rc >= 128 && w.sendQ < w.srvMax {
			w.sendQ++
		}
		if w.st != nil {
			wantErr = !has
			delete(w.store, id)
			if has && rc < 128 {
				w.store[id] = "*packets.Pubrec"
			}
		}
		if rc < 128 {
			reply = "\x62\x02" + vs.U16(id)
		}
	case "pubrel":
		general = 1
		if w.st != nil {
			wantErr = !has
			delete(w.store, id)
		}
		reply = "\x70\x02" + vs.U16(id)
		if !wantErr && w.recvQ < w.cliMax {
			w.recvQ++
		}
	case "disconnect":
		general, disc = 1, true
		if w.conn.clFail {
			general, wantErr = 0, true
		}
	case "suback", "unsuback", "auth":
		general = 1
	}
	if wantErr && kind != "disconnect" && !(disc && kind != "disconnect") {
		general, isPub = 0, false
		if kind != "publish" {
			reply = ""
		}
	}
	if (err != nil) != wantErr {
		w.fail("C20 C21 C22 C27 C31", "Poll of %s %q returned %v", kind, pkt, err)
		w.resync()
		return
	}
	if reply == "" {
		if out != "" {
			w.fail("C20", "Poll of %s %q sent %q", kind, pkt, out)
		}
	} else {
		if m := vs.SamePacket(out, reply); m != "" {
			p := "C20"
			if disc {
				p = "C21"
			}
			w.fail(p, "Poll of %s %q answered %q: %s", kind, pkt, out, m)
		}
	}
	if disc {
		if w.c.IsConnected() || !w.conn.closed {
			w.fail(map[bool]string{true: "C24", false: "C21"}[kind == "disconnect"], "Poll of %s: connected %v, closed %v", kind, w.c.IsConnected(), w.conn.closed)
		}
		w.connected = false
	} else if !w.c.IsConnected() || w.conn.closed {
		w.fail("C24", "Poll of %s ended the connection", kind)
	}
	w.quotas("Poll of "+kind, "C21")
	w.storeCheck("Poll of "+kind, "C31")
	if kind == "pingresp" {
		w.deadline("Poll of PINGRESP", start)
	}
	if disc && kind != "disconnect" {
		return
	}
	props := "C22 C28"
	if kind == "disconnect" {
		props = "C24"
	}
	w.expectEvents("Poll of "+kind, props, before, typ, general, topic, isPub)
}

// resync takes the model over from the client after an operation whose effects are not modelled.
func (w *vWorld) resync() {
	w.connected = w.c.IsConnected()
	w.sendQ, w.recvQ = int(w.c.sendQuota), int(w.c.receiveQuota)
	if w.st != nil {
		w.store = w.st.view()
	}
	for _, c := range w.chans {
		if !c.closed {
			for len(c.ch.C) > 0 {
				<-c.ch.C
			}
		}
	}
	if w.sendQ > w.srvMax {
		w.fail("C21", "send quota %d exceeds the receive maximum %d", w.sendQ, w.srvMax)
	}
}

func (w *vWorld) keepAlive() {
	w.conn.take()
	w.g.Note("keepalive")
	err, ok := w.call("KeepAlive", func() error { return w.c.KeepAlive() })
	if !ok {
		return
	}
	w.common("KeepAlive")
	out := w.conn.take()
	if w.connected {
		if err != nil || out != "\xc0\x00" {
			w.fail("C25", "KeepAlive wrote %q and returned %v", out, err)
		}
		d := w.conn.dl
		if w.ka == 0 && !d.IsZero() {
			w.fail("C25", "KeepAlive without an interval set the deadline to %v", time.Until(d))
		}
	} else if !errors.Is(err, ErrClientNotConnected) || out != "" {
		w.fail("C25", "KeepAlive on a disconnected client wrote %q and returned %v", out, err)
	}
}

func (w *vWorld) disconnect() {
	g := w.g
	w.conn.take()
	will, ex := g.Bool("will"), []int{0, 0, 5, 0xffffffff}[g.Intn("expiry", 4)]
	fault := ""
	if g.Intn("dfault", 6) == 0 {
		fault = []string{"write", "close", "sd"}[g.Intn("dfaultkind", 3)]
		switch fault {
		case "write":
			w.conn.wLimit = 0
		case "close":
			w.conn.clFail = true
		case "sd":
			w.conn.sdFail = 0
		}
	}
	g.Note("disconnect will=%v expiry=%d fault=%s", will, ex, fault)
	before := w.fill()
	ctx, cancel := w.ctx()
	defer cancel()
	plain := ex == 0 && g.Bool("plain")
	err, ok := w.call("Disconnect", func() error {
		if plain {
			return w.c.Disconnect(ctx, will)
		}
		return w.c.DisconnectWithSessionExpiry(ctx, will, ex)
	})
	if !ok {
		return
	}
	w.common("Disconnect")
	w.conn.wLimit, w.conn.clFail, w.conn.sdFail = -1, false, -1
	out := w.conn.take()
	if !w.connected {
		if !errors.Is(err, ErrClientNotConnected) || out != "" {
			w.fail("C24", "Disconnect on a disconnected client wrote %q and returned %v", out, err)
		}
		return
	}
	if fault != "" {
		if err == nil {
			w.fail("C24", "Disconnect reported success although the %s failed", fault)
		}
		w.resync()
		return
	}
	rc := byte(0)
	if will {
		rc = 4
	}
	props := ""
	if w.sei != 0 && ex != 0 {
		props = vs.Byte(0x11) + vs.U32(uint32(ex))
	}
	want := srvPacket(0xe0, vs.Byte(rc)+vs.VarInt(uint32(len(props)))+props)
	if m := vs.SamePacket(out, want); m != "" || err != nil {
		w.fail("C24", "Disconnect wrote %q and returned %v: %s", out, err, m)
	}
	if !w.conn.closed || w.c.IsConnected() || w.conn.log[len(w.conn.log)-1] != "close" {
		w.fail("C24", "after Disconnect: closed %v, connected %v", w.conn.closed, w.c.IsConnected())
	}
	w.connected = false
	w.expectEvents("Disconnect", "C24 C28", before, packets.DISCONNECT, 1, "", false)
}

func (w *vWorld) publish() {
	g := w.g
	p := &packets.Publish{QoS: packets.QoS(g.Intn("qos", 3)), Retain: g.Bool("retain"),
		Topic: primitives.PrimitiveString(vTopics[g.Intn("topic", len(vTopics))]), Payload: []byte(vPayload(g)), Duplicate: g.Intn("dup", 3) == 0}
	if g.Intn("callerid", 3) == 0 {
		p.PacketIdentifier = primitives.PrimitiveUint16([]uint16{1, 2, 3, 77, 256, 0x7fff, 0x8000, 0xffff}[g.Intn("pubid", 8)])
	}
	if p.Topic == "" || g.Intn("alias", 5) == 0 {
		p.TopicAlias = primitives.PrimitiveUint16(1 + g.Intn("aliasno", 300))
	}
	switch g.Intn("pubextra", 8) {
	case 0:
		p.ContentType = "text"
	case 1:
		p.MessageExpiryInterval = 7
	case 2:
		p.ResponseTopic = "r/t"
	case 3:
		p.UserProperties = primitives.PrimitiveStringMap{"k": "v"}
	case 4:
		p.CorrelationData = primitives.PrimitiveString("corr")
	}
	caller := uint16(p.PacketIdentifier)
	w.conn.take()
	stf := false
	if w.st != nil {
		w.st.log = nil
		if g.Intn("stfault", 8) == 0 && p.QoS > 0 && w.connected {
			w.st.failIn, stf = 0, true
		}
	}
	wf := g.Intn("wfail", 10) == 0
	if wf {
		w.conn.wLimit = 0
	}
	g.Note("publish qos=%d id=%d storagefault=%v writefault=%v quota=%d", p.QoS, caller, stf, wf, w.sendQ)
	ctx, cancel := w.ctx()
	defer cancel()
	blocked := w.connected && p.QoS > 0 && w.sendQ == 0
	var wasDup bool
	var err error
	if blocked && !stf && !wf {
		done := make(chan struct{})
		go func() { defer close(done); err = w.c.Publish(ctx, p) }()
		end := time.Now().Add(15 * time.Millisecond)
		for time.Now().Before(end) && w.conn.pending() == 0 {
			time.Sleep(time.Millisecond)
		}
		if w.conn.pending() > 0 {
			w.fail("C21", "a QoS %d publish was sent with no allowance left", p.QoS)
			return
		}
		select {
		case <-done:
			if err == nil {
				w.fail("C21 C30", "Publish with no allowance left reported success without sending")
			}
			w.resync()
			return
		default:
		}
		// free one unit and let it go
		free := uint16(40000)
		if w.st != nil {
			w.st.mu.Lock()
			w.st.m[free] = p
			w.st.mu.Unlock()
		}
		for k := 0; k < 200; k++ {
			w.conn.feed(srvPacket(0x40, vs.U16(free)), os.ErrDeadlineExceeded)
			if k > 0 {
				if w.c.sendQuota > 0 { // the wake-up was lost: wake the publisher by hand
					select {
					case <-w.c.pendingSendSemaphore:
					default:
					}
				}
				w.conn.mu.Lock()
				w.conn.in = nil
				w.conn.mu.Unlock()
			} else if perr, ok := w.call("answering Poll", func() error { return w.c.Poll(context.Background()) }); !ok || perr != nil {
				return
			}
			select {
			case <-done:
				k = 1000
			case <-time.After(3 * time.Millisecond):
			}
		}
		select {
		case <-done:
		default:
			w.fail("C21", "a blocked publish did not resume")
			return
		}
		w.sendQ++
		if w.st != nil {
			delete(w.store, free)
		}
	} else if blocked {
		w.conn.wLimit = -1
		if w.st != nil {
			w.st.failIn = -1
		}
		return
	} else {
		var ok bool
		if err, ok = w.call("Publish", func() error { return w.c.Publish(ctx, p) }); !ok {
			return
		}
	}
	w.common("Publish")
	out := w.conn.take()
	w.conn.wLimit = -1
	if w.st != nil {
		w.st.failIn = -1
		_, wasDup = w.store[uint16(p.PacketIdentifier)]
		wasDup = wasDup && p.QoS > 0
	}
	if !w.connected {
		if !errors.Is(err, ErrClientNotConnected) || out != "" || w.st != nil && len(w.st.log) > 0 {
			w.fail("C30", "Publish on a disconnected client wrote %q and returned %v", out, err)
		}
		return
	}
	if stf || wasDup {
		if err == nil || out != "" {
			w.fail("C30", "Publish with a failing storage wrote %q and returned %v", out, err)
		}
		w.resync()
		return
	}
	if wf {
		if err == nil {
			w.fail("C30", "Publish reported success although the write failed")
		}
		w.resync()
		return
	}
	if err != nil {
		w.fail("C30", "Publish returned %v", err)
		w.resync()
		return
	}
	id := uint16(p.PacketIdentifier)
	if p.QoS > 0 && (id == 0 || caller != 0 && caller != id) {
		w.fail("C30", "Publish used packet identifier %d (caller's %d)", id, caller)
	}
	var exp bytes.Buffer
	q := *p
	q.PacketIdentifier = primitives.PrimitiveUint16(id)
	q.Reset()
	_, _ = q.WriteTo(&exp)
	if m := vs.SamePacket(out, exp.String()); m != "" || out == "" {
		w.fail("C30", "Publish wrote %q: %s", out, m)
	}
	if p.QoS > 0 {
		w.sendQ--
		if w.st != nil {
			w.store[id] = "*packets.Publish"
			if len(w.st.log) == 0 || w.st.log[0] != vs.Sprintf("store %d *packets.Publish after 0 bytes", id) {
				w.fail("C30", "Publish did not store the message under %d before sending: %v", id, w.st.log)
			}
		}
	} else if w.st != nil && len(w.st.log) > 0 {
		w.fail("C30", "a QoS 0 publish used the storage: %v", w.st.log)
	}
	w.quotas("Publish", "C21")
	w.storeCheck("Publish", "C30")
}

func (w *vWorld) request1(name string, f func() error, answer func(id uint16) []string) (out string, err error, ok bool) {
	if out, err, ok = w.request(name, f, answer); !ok {
		w.msgOrStop()
	}
	return
}

// request runs Subscribe or Unsubscribe with a scripted reply. answer gets the packet identifier and returns the server
// packets to poll while the request is pending.
func (w *vWorld) request(name string, f func() error, answer func(id uint16) []string) (out string, err error, ok bool) {
	done := make(chan struct{})
	pan := ""
	go func() {
		defer close(done)
		defer func() {
			if p := recover(); p != nil {
				pan = vs.Sprintf("%v", p)
			}
		}()
		err = f()
	}()
	finished := func() bool {
		select {
		case <-done:
			return true
		default:
			return false
		}
	}
	end := time.Now().Add(10 * time.Second)
	for w.conn.pending() == 0 && !finished() {
		if time.Now().After(end) {
			w.fail("C26 C29 C23", "%s neither sent nor returned", name)
			return "", nil, false
		}
		time.Sleep(20 * time.Microsecond)
	}
	out = w.conn.take()
	if !finished() && len(out) > 4 {
		_, next, _ := vs.ReadVarInt(out, 1)
		id := vs.GetU16(out, next)
		for _, s := range answer(id) {
			w.conn.feed(s, os.ErrDeadlineExceeded)
			if _, ok := w.call("answering Poll", func() error { return w.c.Poll(context.Background()) }); !ok {
				return out, err, false
			}
			w.conn.mu.Lock()
			w.conn.in = nil
			w.conn.mu.Unlock()
		}
	}
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		w.fail("C23 C26 C29", "%s did not complete on its acknowledgement", name)
		return out, err, false
	}
	if pan != "" {
		w.fail("C29", "%s panicked: %s", name, pan)
		return out, err, false
	}
	return out, err, w.locks(name)
}

func (w *vWorld) subscribe() {
	g := w.g
	n := g.Intn("ntopics", 4)
	var topics []Topic
	var filters []string
	var ch []*vChan
	body := ""
	for i := 0; i < n; i++ {
		f := vFilters[g.Intn("filter", len(vFilters))]
		var t Topic
		t.SetFilter(f)
		q := g.Intn("subqos", 3)
		t.SetQoS(packets.QoS(q))
		var c *vChan
		if len(w.chans) > 0 && g.Intn("withchan", 3) > 0 {
			c = w.chans[g.Intn("whichchan", len(w.chans))]
			t.SetEventChannel(c.ch)
		}
		ch = append(ch, c)
		topics = append(topics, t)
		filters = append(filters, f)
		body += vs.Str(f) + vs.Byte(byte(q))
	}
	kind := []string{"ok", "ok", "ok", "few", "many", "type", "dup", "alien", "fail", "fail"}[g.Intn("subkind", 10)]
	var codes []byte
	var first error
	for range topics {
		c := byte(g.Intn("code", 3))
		if kind == "fail" && g.Bool("failcode") {
			c = []byte{0x80, 0x87, 0xff}[g.Intn("failrc", 3)]
			if first == nil {
				first = ReasonCode(c)
			}
		}
		codes = append(codes, c)
	}
	subProps := srvAckProps(g)
	ack := func(id uint16) string {
		return srvPacket(0x90, vs.U16(id)+subProps+string(codes))
	}
	g.Note("subscribe %v %s codes %v", filters, kind, codes)
	w.conn.take()
	wf := g.Intn("wfail", 12) == 0
	if wf {
		w.conn.wLimit = 0
	}
	used := w.pendingIDs()
	ctx, cancel := w.ctx()
	defer cancel()
	out, err, ok := w.request1("Subscribe", func() error { return w.c.Subscribe(ctx, topics) }, func(id uint16) []string {
		if w.c.responseChan[int(id)] == nil {
			return nil
		}
		switch kind {
		case "few":
			return []string{srvPacket(0x90, vs.U16(id)+"\x00"+string(codes[:1])), ack(id)}
		case "many":
			return []string{srvPacket(0x90, vs.U16(id)+"\x00"+string(codes)+"\x00\x01")}
		case "type":
			return []string{srvPacket(0xb0, vs.U16(id)+"\x00"+string(codes)), ack(id)}
		case "dup":
			return []string{ack(id), ack(id), ack(id)}
		case "alien":
			return []string{srvPacket(0x90, vs.U16(id+1)+"\x00\x00"), srvPacket(0xb0, vs.U16(id+2)+"\x00\x00"), ack(id)}
		}
		return []string{ack(id)}
	})
	w.conn.wLimit = -1
	if !ok {
		return
	}
	for id := range w.pendingIDs() {
		if !used[id] {
			w.fail("C23", "Subscribe has returned %v but identifier %d is still pending", err, id)
		}
	}
	w.common("Subscribe")
	if n == 0 || !w.connected {
		want := ErrClientNotConnected
		if n == 0 {
			want = ErrInvalidArgument
		}
		if out != "" || err == nil || (n == 0 || !w.connected) && !(n == 0 && !w.connected) && !errors.Is(err, want) {
			w.fail("C23", "Subscribe (%d topics, connected %v) wrote %q and returned %v", n, w.connected, out, err)
		}
		return
	}
	w.drainAll()
	if wf {
		if err == nil {
			w.fail("C23", "Subscribe reported success although the write failed")
		}
		return
	}
	w.checkRequest("Subscribe", out, 0x82, body, used)
	switch kind {
	case "ok", "dup", "alien", "fail":
		if err != first {
			w.fail("C23", "Subscribe with reason codes %v returned %v", codes, err)
		}
	case "few", "many", "type":
		// only safety is specified; bindings are not predictable
		w.msgOrStop()
		return
	}
	for i, c := range ch {
		if c == nil || c.closed || codes[i] >= 0x80 {
			continue
		}
		c.general = false
		for _, o := range w.chans {
			delete(o.binds, filters[i])
		}
		c.binds[filters[i]] = true
	}
	w.bindings("Subscribe")
}

// msgOrStop ends the scenario: the model cannot follow any further.
func (w *vWorld) msgOrStop() {
	if w.msg == "" {
		w.msg = "stop"
	}
}

func (w *vWorld) drainAll() {
	for _, c := range w.chans {
		if !c.closed {
			for len(c.ch.C) > 0 {
				<-c.ch.C
			}
		}
	}
}

func (w *vWorld) pendingIDs() map[int]bool {
	r := map[int]bool{}
	w.c.mutex.Lock()
	for k := range w.c.responseChan {
		r[k] = true
	}
	w.c.mutex.Unlock()
	return r
}

func (w *vWorld) checkRequest(name, out string, first byte, body string, used map[int]bool) {
	if out == "" {
		w.fail("C23", "%s sent nothing", name)
		return
	}
	_, next, ok := vs.ReadVarInt(out, 1)
	if !ok || next+2 > len(out) {
		w.fail("C23", "%s sent %q", name, out)
		return
	}
	id := vs.GetU16(out, next)
	if id == 0 || used[int(id)] {
		w.fail("C23", "%s used packet identifier %d", name, id)
	}
	if m := vs.SamePacket(out, srvPacket(first, vs.U16(id)+"\x00"+body)); m != "" {
		w.fail("C23", "%s: %s", name, m)
	}
}

// bindings compares the registrations with the model.
func (w *vWorld) bindings(name string) {
	var want, got []string
	for _, c := range w.chans {
		for f := range c.binds {
			want = append(want, vs.Sprintf("%s->%d", f, c.ch.id))
		}
		if c.general {
			want = append(want, vs.Sprintf("general %d", c.ch.id))
		}
	}
	for f, c := range w.c.topicChans {
		got = append(got, vs.Sprintf("%s->%d", f, c.id))
	}
	for _, c := range w.c.eventChans {
		got = append(got, vs.Sprintf("general %d", c.id))
	}
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(want, " ") != strings.Join(got, " ") {
		w.fail("C23 C28", "%s: registrations %v, want %v", name, got, want)
	}
}

func (w *vWorld) unsubscribe() {
	g := w.g
	n := g.Intn("ntopics", 3)
	var filters []string
	body := ""
	for i := 0; i < n; i++ {
		f := vFilters[g.Intn("filter", len(vFilters))]
		filters = append(filters, f)
		body += vs.Str(f)
	}
	kind := []string{"ok", "ok", "dup", "type"}[g.Intn("unsubkind", 4)]
	unsubProps := srvAckProps(g)
	g.Note("unsubscribe %v %s", filters, kind)
	w.conn.take()
	wf := g.Intn("wfail", 12) == 0
	if wf {
		w.conn.wLimit = 0
	}
	used := w.pendingIDs()
	ctx, cancel := w.ctx()
	defer cancel()
	out, err, ok := w.request1("Unsubscribe", func() error { return w.c.Unsubscribe(ctx, filters) }, func(id uint16) []string {
		a := srvPacket(0xb0, vs.U16(id)+unsubProps+strings.Repeat("\x00", n))
		switch kind {
		case "dup":
			return []string{a, a, a}
		case "type":
			return []string{srvPacket(0x90, vs.U16(id)+"\x00\x00"), a}
		}
		return []string{srvPacket(0xb0, vs.U16(id+1)+"\x00\x00"), a}
	})
	w.conn.wLimit = -1
	if !ok {
		return
	}
	for id := range w.pendingIDs() {
		if !used[id] {
			w.fail("C23", "Unsubscribe has returned %v but identifier %d is still pending", err, id)
		}
	}
	w.common("Unsubscribe")
	if n == 0 || !w.connected {
		if out != "" || err == nil {
			w.fail("C23", "Unsubscribe (%d topics, connected %v) wrote %q and returned %v", n, w.connected, out, err)
		}
		return
	}
	if wf {
		if err == nil {
			w.fail("C23", "Unsubscribe reported success although the write failed")
		}
		w.drainAll()
		return
	}
	w.checkRequest("Unsubscribe", out, 0xa2, body, used)
	if kind == "type" {
		w.msgOrStop()
		return
	}
	if err != nil {
		w.fail("C23", "Unsubscribe returned %v", err)
	}
	for _, f := range filters {
		for _, c := range w.chans {
			if c.binds[f] {
				c.closed, c.general, c.binds = true, false, map[string]bool{}
			}
		}
	}
	w.checkClosed("Unsubscribe", "C23")
	w.bindings("Unsubscribe")
}

func vScenario(prop string, extra ...string) vs.Case {
	ops := append([]string{"poll", "poll", "poll", "publish", "keepalive", "chan", "subscribe"}, extra...)
	return func(g *vs.Gen) string {
		w := newWorld(g, prop)
		for i, n := 0, g.Intn("nchans", 3); i < n; i++ {
			w.newChan()
		}
		if g.Intn("early", 6) == 0 {
			switch g.Intn("earlyop", 4) {
			case 0:
				w.publish()
			case 1:
				w.subscribe()
			case 2:
				w.disconnect()
			default:
				w.keepAlive()
			}
		}
		w.connect()
		n := g.Intn("nops", 9)
		if g.Intn("long", 12) == 0 {
			n = 40
		}
		for i := 0; i < n && w.msg == "" && w.c.IsConnected() == w.connected; i++ {
			switch ops[g.Intn("op", len(ops))] {
			case "poll":
				w.poll()
			case "publish":
				w.publish()
			case "keepalive":
				w.keepAlive()
			case "chan":
				if len(w.chans) > 0 && g.Intn("close", 3) == 0 {
					w.closeChan(g.Intn("closewhich", len(w.chans)))
					if w.msg == "" {
						w.bindings("CloseEventChannel")
					}
				} else {
					w.newChan()
				}
			case "subscribe":
				w.subscribe()
			case "unsubscribe":
				w.unsubscribe()
			case "disconnect":
				w.disconnect()
			case "connect":
				if !w.conn.closed && !w.connected {
					w.connect()
				}
			}
		}
		if w.msg == "stop" {
			return ""
		}
		return w.msg
	}
}

func vReplayScenario(t *testing.T, prop string, extra ...string) {
	vs.Replay(prop, map[string]vs.Case{"scenario": vScenario(prop, extra...)}, t.Errorf)
}

func TestVReplayC18(t *testing.T) { vReplayScenario(t, "C18", "connect") }
func TestVReplayC19(t *testing.T) { vReplayScenario(t, "C19", "connect") }
func TestVReplayC20(t *testing.T) { vReplayScenario(t, "C20", "poll", "poll", "poll", "poll", "poll") }
func TestVReplayC21(t *testing.T) { vReplayScenario(t, "C21", "poll", "poll", "publish", "publish") }
func TestVReplayC22(t *testing.T) {
	vReplayScenario(t, "C22", "subscribe", "poll", "poll", "unsubscribe")
}
func TestVReplayC23(t *testing.T) {
	vReplayScenario(t, "C23", "subscribe", "subscribe", "unsubscribe", "unsubscribe")
}
func TestVReplayC24(t *testing.T) { vReplayScenario(t, "C24", "disconnect", "disconnect", "connect") }
func TestVReplayC25(t *testing.T) { vReplayScenario(t, "C25", "keepalive", "poll", "disconnect") }
func TestVReplayC27(t *testing.T) {
	vReplayScenario(t, "C27", "poll", "poll", "poll", "poll", "poll", "poll")
}
func TestVReplayC28(t *testing.T) {
	vReplayScenario(t, "C28", "chan", "chan", "subscribe", "unsubscribe")
}
func TestVReplayC29(t *testing.T) {
	vReplayScenario(t, "C29", "poll", "poll", "subscribe", "unsubscribe", "disconnect", "chan", "connect")
}
func TestVReplayC30(t *testing.T) { vReplayScenario(t, "C30", "publish", "publish", "publish", "poll") }
func TestVReplayC31(t *testing.T) { vReplayScenario(t, "C31", "poll", "poll", "poll", "publish") }

func TestVReplayC26(t *testing.T) {
	vs.Replay("C26", map[string]vs.Case{
		"scenario":   vScenario("C26", "disconnect", "unsubscribe", "chan"),
		"concurrent": vConcurrent,
	}, t.Errorf)
}

// vConcurrent runs several client operations at once and watches for a deadlock.
func vConcurrent(g *vs.Gen) string {
	w := newWorld(g, "C26")
	w.conn.step = func() int { return 1 << 30 }
	connack := "\x20\x03\x00\x00\x00"
	w.conn.feed(connack, io.EOF)
	p := &packets.Connect{Version: packets.MQTT5, KeepAlive: 60}
	if err := w.c.Connect(context.Background(), p); err != nil {
		return ""
	}
	w.conn.feed("", os.ErrDeadlineExceeded)
	names := []string{"Poll", "Publish", "KeepAlive", "Connect", "Subscribe", "Unsubscribe", "Channels", "Disconnect"}
	picked := []string{names[g.Intn("a", len(names))], names[g.Intn("b", len(names))], names[g.Intn("c", len(names))]}
	g.Note("concurrently %v", picked)
	var wg sync.WaitGroup
	for k, nm := range picked {
		wg.Add(1)
		go func(k int, nm string) {
			defer wg.Done()
			defer func() { _ = recover() }()
			ctx := context.Background()
			for i := 0; i < 60; i++ {
				switch nm {
				case "Poll":
					_ = w.c.Poll(ctx)
				case "Publish":
					_ = w.c.Publish(ctx, &packets.Publish{Topic: "a", QoS: packets.QoS(i % 2), PacketIdentifier: primitives.PrimitiveUint16(1000*k + i + 1)})
				case "KeepAlive":
					_ = w.c.KeepAlive()
				case "Connect":
					_ = w.c.Connect(ctx, p)
				case "Subscribe", "Unsubscribe":
					// a failing write ends the call without waiting
					w.conn.mu.Lock()
					w.conn.wLimit = 0
					w.conn.mu.Unlock()
					if nm == "Subscribe" {
						_ = w.c.Subscribe(ctx, nil)
					} else {
						_ = w.c.Unsubscribe(ctx, nil)
					}
					w.conn.mu.Lock()
					w.conn.wLimit = -1
					w.conn.mu.Unlock()
				case "Channels":
					w.c.CloseEventChannel(w.c.CreateEventChannel(1))
				default:
					if i == 30 {
						_ = w.c.Disconnect(ctx, false)
					}
				}
			}
		}(k, nm)
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		return ""
	case <-time.After(10 * time.Second):
		return vs.Sprintf("concurrent %v deadlock", picked)
	}
}

// vServer is a network connection with a small server behind it. It has no lock of its own, so that it neither orders the
// client's accesses nor survives a use outside the client's locks unnoticed (the check runs under the race detector).
type vServer struct {
	in, out []byte
	n       int
	g       []byte
}

func (s *vServer) Read(b []byte) (int, error) {
	if len(s.in) == 0 {
		s.n++
		if s.n%3 != 0 {
			return 0, os.ErrDeadlineExceeded
		}
		switch s.g[s.n%len(s.g)] % 4 {
		case 0:
			s.in = append(s.in, "\x30\x04\x00\x01a\x00"...)
		case 1:
			s.in = append(s.in, "\x32\x06\x00\x01a\x00\x07\x00"...)
		case 2:
			s.in = append(s.in, "\x34\x06\x00\x01a\x00\x08\x00"...)
		default:
			return 0, os.ErrDeadlineExceeded
		}
	}
	n := copy(b, s.in)
	s.in = s.in[n:]
	return n, nil
}

func (s *vServer) Write(b []byte) (int, error) {
	s.out = append(s.out, b...)
	for len(s.out) >= 2 && int(s.out[1]) < 128 && len(s.out) >= 2+int(s.out[1]) {
		p := s.out[:2+int(s.out[1])]
		s.out = s.out[len(p):]
		id := func(i int) string { return string(p[i : i+2]) }
		switch p[0] & 0xf0 {
		case 0x10:
			s.in = append(s.in, "\x20\x03\x00\x00\x00"...)
		case 0x30:
			if at := 4 + int(p[3]); p[0]&2 != 0 {
				s.in = append(s.in, "\x40\x02"+id(at)...)
			} else if p[0]&4 != 0 {
				s.in = append(s.in, "\x50\x02"+id(at)...)
			}
		case 0x50:
			s.in = append(s.in, "\x62\x02"+id(2)...)
		case 0x60:
			s.in = append(s.in, "\x70\x02"+id(2)...)
		case 0x80:
			s.in = append(s.in, "\x90\x04"+id(2)+"\x00\x00"...)
		case 0xa0:
			s.in = append(s.in, "\xb0\x04"+id(2)+"\x00\x00"...)
		case 0xc0:
			s.in = append(s.in, "\xd0\x00"...)
		}
	}
	return len(b), nil
}

func (s *vServer) Close() error                       { return nil }
func (s *vServer) LocalAddr() net.Addr                { return nil }
func (s *vServer) RemoteAddr() net.Addr               { return nil }
func (s *vServer) SetDeadline(t time.Time) error      { return nil }
func (s *vServer) SetReadDeadline(t time.Time) error  { return nil }
func (s *vServer) SetWriteDeadline(t time.Time) error { return nil }

// vNoStore keeps nothing (and orders nothing).
type vNoStore struct{}

func (vNoStore) Store(uint16, any) error      { return nil }
func (vNoStore) Get(uint16) (any, error)      { return nil, nil }
func (vNoStore) Drop(identifier uint16) error { return nil }

func TestVReplayC32(t *testing.T) {
	vs.Replay("C32", map[string]vs.Case{"race": vRace}, t.Errorf)
}

// vRace runs several operations of one client at once; the race detector watches.
func vRace(g *vs.Gen) string {
	srv := &vServer{}
	for i := 0; i < 8; i++ {
		srv.g = append(srv.g, byte(g.Uint("inbound", 8)))
	}
	c := NewClient(srv)
	n := uint32(0)
	c.SetRngFn(func() uint32 { n++; return n })
	if g.Bool("storage") {
		c.SetStorage(vNoStore{})
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	connect := func() error { return c.Connect(ctx, &packets.Connect{Version: packets.MQTT5, KeepAlive: 60}) }
	if err := connect(); err != nil {
		return ""
	}
	names := []string{"Publish", "KeepAlive", "Connect", "Subscribe", "Unsubscribe", "Channels", "Disconnect", "Disconnect", "Queries", "Setters"}
	picked := []string{names[g.Intn("a", len(names))], names[g.Intn("b", len(names))], names[g.Intn("c", len(names))]}
	g.Note("concurrently Poll and %v", picked)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
				if err := c.Poll(ctx); err != nil {
					time.Sleep(20 * time.Microsecond)
				}
			}
		}
	}()
	done := make(chan struct{}, 3)
	for k, nm := range picked {
		go func(k int, nm string) {
			defer func() { done <- struct{}{} }()
			for i := 0; i < 12; i++ {
				if i == 6 {
					_ = connect()
				}
				switch nm {
				case "Publish":
					_ = c.Publish(ctx, &packets.Publish{Topic: "a", QoS: packets.QoS(i % 3)})
				case "KeepAlive":
					_ = c.KeepAlive()
				case "Connect":
					_ = connect()
				case "Subscribe":
					tp := Topic{}
					tp.SetFilter("a")
					_ = c.Subscribe(ctx, []Topic{tp})
				case "Unsubscribe":
					_ = c.Unsubscribe(ctx, []string{"a"})
				case "Channels":
					ch := c.CreateEventChannel(3)
					c.CloseEventChannel(ch)
				case "Disconnect":
					if i%4 == 3 {
						_ = c.DisconnectWithSessionExpiry(ctx, i%8 == 3, i)
						_ = connect()
					}
				case "Queries":
					_ = c.IsConnected()
					_ = c.KeepAliveInterval()
				default:
					c.SetStorage(vNoStore{})
					c.SetRngFn(func() uint32 { return 5 })
				}
			}
		}(k, nm)
	}
	for range picked {
		select {
		case <-done:
		case <-time.After(250 * time.Millisecond): // a blocked operation is not this property's business
			close(stop)
			return ""
		}
	}
	close(stop)
	wg.Wait()
	return ""
}
