package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The environment of the client: connections, storages, contexts, time, channels, and the other operations that run while
// one of them waits.

/* ---- the world: what the specifications can observe besides the memory ---- */

const worldID = 900_000

var chanSet = Sort{K: KMap, T: "any→bool"}

// world is the object that records what happened to channels, and the clock.
//
//	events     every offer of an event to an event channel, in order
//	lastevent  the data of the last one
//	replies    every offer of any other value to a channel
//	lastreply  the last such value
//	lastread   the packet decoded last
//	lastsent   the packet encoded last
//	received   the value received last from a channel
//	awaiting   the channel an operation waits to receive from
//	clock      the last reading of the clock
//	closed     the channels that are closed
//	full       the channels without room
func (ex *Exec) world(st *State) (*Term, *GhostV) {
	p := ex.c.Ptr(worldID, "")
	return p, ex.ghost(st, p)
}

func (ex *Exec) initWorld(st *State) {
	c := ex.c
	g := &GhostV{Kind: "world", F: map[string]Value{
		"events": c.Var("events", Bytes), "lastevent": c.Var("lastevent", RefS), "replies": c.Var("replies", Bytes),
		"lastreply": c.Var("lastreply", RefS), "lastread": c.Var("lastread", RefS),
		"lastsent": c.Nil, "received": c.Nil, "awaiting": c.Var("awaiting", RefS), "clock": c.Var("clock", BV(64)),
	}}
	for _, e := range []string{"event", "done", "any"} {
		for _, k := range []string{"closed", "full"} {
			g.F[k+"."+e] = c.Var(k+"."+e, chanSet)
		}
	}
	o := &Object{ID: worldID, Name: "world", T: types.Typ[types.Int], Val: g}
	st.heap[worldID] = o
	ex.lazyInit[worldID] = o
	ex.clockRange(st, g.F["clock"].(*Term))
}

func (ex *Exec) setWorld(st *State, k string, v Value) {
	p, _ := ex.world(st)
	ex.setGhost(st, p, k, v)
}

func (ex *Exec) worldTerm(st *State, k string) *Term {
	_, g := ex.world(st)
	return g.F[k].(*Term)
}

// clockRange: times are positive and far from the end of their range.
func (ex *Exec) clockRange(st *State, t *Term) {
	c := ex.c
	st.assume(c.Slt(c.I(0), t))
	st.assume(c.Slt(t, c.I(1<<61)))
}

// token is the one-byte name of an event in a log.
func (c *Ctx) token(kind string, args ...*Term) *Term {
	return c.Unit(Bytes, c.UF(kind, BV(8), args...))
}

// chans is the name of the set of channels of an element type: channels of different types are different.
func chans(kind string, t types.Type) string {
	elem := under(t).(*types.Chan).Elem()
	if p, ok := under(elem).(*types.Pointer); ok && typeName(p.Elem()) == "mqtt.Event" {
		return kind + ".event"
	}
	if types.IsInterface(elem) {
		return kind + ".any"
	}
	return kind + ".done"
}

func (ex *Exec) in(set, ch *Term) *Term { return ex.c.MapHas(set, []*Term{ch}) }

func (ex *Exec) add(set, ch *Term) *Term { return ex.c.MapPut(set, []*Term{ch}, []*Term{ex.c.T}) }

/* ---- channels ---- */

func (ex *Exec) makeChan(st *State, in *ssa.MakeChan) Value {
	c := ex.c
	n := c.toInt(ex.term(st, in.Size), in.Size.Type())
	ex.safety(st, "make-size", in, c.Sle(c.I(0), n))
	id := st.newObj("chan", in.Type(), &GhostV{Kind: "newchan", F: map[string]Value{}})
	p := c.Ptr(id, "")
	st.assume(c.Eq(c.UF("chancap", BV(64), p), n))
	st.assume(c.Not(ex.in(ex.worldTerm(st, chans("closed", in.Type())), p)))
	st.assume(c.Implies(c.Slt(c.I(0), n), c.Not(ex.in(ex.worldTerm(st, chans("full", in.Type())), p))))
	return p
}

// offer records a value sent to a channel.
func (ex *Exec) offer(st *State, ch, v *Term, elem types.Type) {
	c := ex.c
	if pt, ok := under(elem).(*types.Pointer); ok && v.Op == OpPtr && typeName(pt.Elem()) == "mqtt.Event" {
		s, ok := st.load(v).(*StructV)
		if ok && len(s.F) == 2 {
			ls := st.toLeaves(s)
			ex.setWorld(st, "events", c.Cat(Bytes, ex.worldTerm(st, "events"), c.token("offer", append([]*Term{ch}, ls...)...)))
			ex.setWorld(st, "lastevent", ls[1])
			return
		}
	}
	if v.S.K == KRef {
		if v.Op == OpBox && len(v.Args) == 1 && v.Args[0].S.K == KRef {
			ex.oblige(st, "C29: no request receives a nil pointer", "", c.Ne(v.Args[0], c.Nil))
		}
		ex.setWorld(st, "replies", c.Cat(Bytes, ex.worldTerm(st, "replies"), c.token("reply", ch, v)))
		ex.setWorld(st, "lastreply", v)
	}
}

func (ex *Exec) notClosed(st *State, ch *Term, t types.Type, in ssa.Instruction) {
	c := ex.c
	if ch.Op == OpNil {
		return
	}
	ex.oblige(st, "C29: nothing is sent on a closed channel", ex.prog.pos(in.Pos()),
		c.Or(c.Eq(ch, c.Nil), c.Not(ex.in(ex.worldTerm(st, chans("closed", t)), ch))))
}

func (ex *Exec) doSelect(st *State, in *ssa.Select) []outcome {
	c := ex.c
	if in.Blocking {
		for _, s := range in.States {
			if s.Dir == types.RecvOnly {
				ex.await(st, ex.term(st, s.Chan), in)
			}
		}
		ex.wait(st, in)
	}
	idx := c.Fresh("select", BV(64))
	lo := int64(0)
	if !in.Blocking {
		lo = -1
	}
	st.assume(c.Sle(c.I(lo), idx))
	st.assume(c.Slt(idx, c.I(int64(len(in.States)))))
	recvOk := c.Fresh("recvok", BoolS)
	tup := TupleV{idx, recvOk}
	for i, s := range in.States {
		ch := ex.term(st, s.Chan)
		elem := under(s.Chan.Type()).(*types.Chan).Elem()
		if s.Dir == types.SendOnly {
			ex.notClosed(st, ch, s.Chan.Type(), in)
			var v *Term
			if t, ok := ex.val(st, s.Send).(*Term); ok {
				v = t
			}
			if v != nil && len(in.States) == 1 {
				ex.offer(st, ch, v, elem)
			}
			continue
		}
		v := st.freshValue(elem, fmt.Sprintf("received%d", i))
		if len(in.States) == 1 {
			ex.received(st, v)
		}
		tup = append(tup, v)
	}
	return []outcome{{st, []Value{tup}}}
}

func (ex *Exec) chanRecv(st *State, in *ssa.UnOp) []outcome {
	c := ex.c
	ch := ex.term(st, in.X)
	ex.await(st, ch, in)
	ex.wait(st, in)
	elem := under(in.X.Type()).(*types.Chan).Elem()
	v := st.freshValue(elem, "received")
	ex.received(st, v)
	if in.CommaOk {
		return []outcome{{st, []Value{TupleV{v, c.Fresh("recvok", BoolS)}}}}
	}
	return []outcome{{st, []Value{v}}}
}

// await: the operation is about to wait for a value from a channel.
func (ex *Exec) await(st *State, ch *Term, in ssa.Instruction) {
	if len(ex.shared) == 0 {
		return
	}
	ex.setWorld(st, "awaiting", ch)
	for _, o := range st.hooks("wait") {
		ex.oblige(st, o.name, ex.prog.pos(in.Pos()), ex.pure(st, o.f, nil)[0])
	}
}

func (ex *Exec) received(st *State, v Value) {
	if t, ok := v.(*Term); ok && t.S.K == KRef && len(ex.shared) > 0 {
		ex.setWorld(st, "received", t)
	}
}

type hook struct {
	kind, name string
	f          *FuncV
}

// hooks are the closures of one kind the contract under verification has registered.
func (st *State) hooks(kind string) []hook {
	var out []hook
	for _, f := range st.frames {
		if f.con != nil && !f.use {
			for _, h := range f.hooks {
				if h.kind == kind {
					out = append(out, h)
				}
			}
		}
	}
	return out
}

func (st *State) addHook(h hook) {
	f := st.top()
	if f.con == nil || f.use {
		return
	}
	g := *f
	g.hooks = append(f.hooks[:len(f.hooks):len(f.hooks)], h)
	st.frames[len(st.frames)-1] = &g
}

// anyHeld: some lock is held.
func (ex *Exec) anyHeld(st *State) *Term {
	var hs []*Term
	for _, id := range heapIDs(st.heap) {
		eachLock(st.heap[id], func(_ string, _ []int, g *GhostV) { hs = append(hs, ex.held(g)) })
	}
	return ex.c.Or(hs...)
}

func (ex *Exec) chanSend(st *State, in *ssa.Send) {
	c := ex.c
	ch := ex.term(st, in.Chan)
	ex.notClosed(st, ch, in.Chan.Type(), in)
	held := ex.decide(st.pc, ex.anyHeld(st))
	if held == nil || held.isTrue() {
		k := chans("full", in.Chan.Type())
		full := ex.worldTerm(st, k)
		ex.oblige(st, "C26 C28: nothing blocks while a lock is held", ex.prog.pos(in.Pos()), c.And(c.Ne(ch, c.Nil), c.Not(ex.in(full, ch))))
		ex.setWorld(st, k, ex.add(full, ch))
	} else {
		ex.wait(st, in)
	}
	if v, ok := ex.val(st, in.X).(*Term); ok {
		ex.offer(st, ch, v, under(in.Chan.Type()).(*types.Chan).Elem())
	}
}

func (ex *Exec) chanClose(st *State, ch *Term, site ssa.CallInstruction) {
	c := ex.c
	k := chans("closed", site.Common().Args[0].Type())
	closed := ex.worldTerm(st, k)
	ex.oblige(st, "C29: no channel is closed twice", ex.prog.pos(site.Pos()), c.And(c.Ne(ch, c.Nil), c.Not(ex.in(closed, ch))))
	ex.setWorld(st, k, ex.add(closed, ch))
}

func (ex *Exec) chanLen(st *State, ch *Term, what string) *Term {
	if what == "cap" {
		return ex.c.UF("chancap", BV(64), ch)
	}
	n := ex.c.Fresh("chanlen", BV(64))
	st.assume(ex.c.Sle(ex.c.I(0), n))
	return n
}

/* ---- shared clients, guards and waiting ---- */

type shared struct {
	ptr *Term
	inv *FuncV
}

// guards: which locks protect the fields of the client. both: written holding both the conn mutex and the client mutex,
// read holding either.
var guards = map[string]string{
	"conn": "immutable", "isConnected": "both", "keepAliveInterval": "both", "pingRespDeadline": "both", "sessionExpiryInterval": "both",
	"clientReceiveMaximum": "both", "serverReceiveMaximum": "both", "sendQuota": "both", "receiveQuota": "both", "pendingSendSemaphore": "both",
	"eventChans": "eventMutex", "openChans": "eventMutex", "evChanIdCounter": "eventMutex",
	"topicChans": "mutex", "responseChan": "mutex", "storage": "mutex", "rngFn": "mutex",
}

// clientField is the field of a shared client a pointer leads to.
func (ex *Exec) clientField(st *State, p *Term) (*Object, string) {
	if p.Op != OpPtr {
		return nil, ""
	}
	for _, s := range ex.shared {
		if s.ptr.V != p.V {
			continue
		}
		steps := ptrSteps(p)
		o := st.obj(p)
		u, ok := under(o.T).(*types.Struct)
		if !ok || len(steps) == 0 || steps[0].index != nil {
			return nil, ""
		}
		return o, u.Field(steps[0].field).Name()
	}
	return nil, ""
}

func (ex *Exec) guard(st *State, o *Object, field string, write bool, in ssa.Instruction) {
	c := ex.c
	if ex.isSpec(in.Parent()) || ex.mute > 0 {
		return
	}
	how := guards[field]
	if how == "" {
		return
	}
	var conn, mutex, event, rmutex = c.F, c.F, c.F, c.F
	eachLock(o, func(name string, _ []int, g *GhostV) {
		switch name {
		case "connMutex":
			conn = g.F["held"].(*Term)
		case "mutex":
			mutex, rmutex = g.F["held"].(*Term), ex.held(g)
		case "eventMutex":
			event = g.F["held"].(*Term)
		}
	})
	var k *Term
	what := "read"
	if write {
		what = "written"
	}
	switch how {
	case "immutable":
		k = c.B(!write)
	case "both":
		k = c.Or(conn, rmutex)
		if write {
			k = c.And(conn, mutex)
		}
	case "eventMutex":
		k = event
	case "mutex":
		k = rmutex
		if write {
			k = mutex
		}
	}
	if !k.isTrue() {
		ex.oblige(st, "C32: "+field+" is "+what+" only while holding a lock that guards it", ex.prog.pos(in.Pos()), k)
	}
}

func (ex *Exec) loadHook(st *State, in *ssa.UnOp, p *Term) {
	if len(ex.shared) == 0 {
		return
	}
	if o, f := ex.clientField(st, p); o != nil {
		ex.guard(st, o, f, false, in)
	}
}

func (ex *Exec) storeHook(st *State, in *ssa.Store, p *Term) {
	if len(ex.shared) == 0 {
		return
	}
	if o, f := ex.clientField(st, p); o != nil {
		ex.guard(st, o, f, true, in)
	}
}

func (ex *Exec) mapHook(st *State, in ssa.Instruction, m *MapV, v ssa.Value) {
	for _, s := range ex.shared {
		o := st.obj(s.ptr)
		sv, ok := o.Val.(*StructV)
		if !ok {
			continue
		}
		u := under(sv.T).(*types.Struct)
		for i, f := range sv.F {
			if fm, ok := f.(*MapV); ok && fm.Obj == m.Obj && m.Obj >= 0 {
				write := false
				switch in.(type) {
				case *ssa.MapUpdate, *ssa.Call, *ssa.Defer:
					write = true
				}
				ex.guard(st, o, u.Field(i).Name(), write, in)
			}
		}
	}
}

// ownChans are the channels this operation made.
func (ex *Exec) ownChans(st *State) []*Term {
	var out []*Term
	for _, id := range heapIDs(st.heap) {
		if g, ok := st.heap[id].Val.(*GhostV); ok && g.Kind == "newchan" {
			out = append(out, ex.c.Ptr(id, ""))
		}
	}
	return out
}

// entryHook: the entries of a shared map of channels belong to the operations that made the channels.
func (ex *Exec) entryHook(st *State, in ssa.Instruction, m *MapV, key []*Term) {
	if _, ok := under(m.T.Elem()).(*types.Chan); !ok || m.Obj < 0 {
		return
	}
	for _, s := range ex.shared {
		sv, ok := st.obj(s.ptr).Val.(*StructV)
		if !ok {
			continue
		}
		for _, f := range sv.F {
			if fm, ok := f.(*MapV); ok && fm.Obj == m.Obj {
				c := ex.c
				old := st.mapContent(m)
				k := c.Not(c.MapHas(old, key))
				for _, p := range ex.ownChans(st) {
					k = c.Or(k, c.Eq(c.MapGet(old, key, 0, RefS), p))
				}
				ex.oblige(st, "C23: no operation changes the entry of another request", ex.prog.pos(in.Pos()), k)
			}
		}
	}
}

// ownEntries: what this operation knows about the entries of its channels after a wait.
func (ex *Exec) ownEntries(st *State, old, now *Term, t *types.Map) {
	if _, ok := under(t.Elem()).(*types.Chan); !ok {
		return
	}
	c := ex.c
	own := ex.ownChans(st)
	keys := map[*Term][][]*Term{}
	for m := old; ; {
		if m.Op == OpMapDel {
			m = m.Args[0]
			continue
		}
		if m.Op == OpMapPut {
			n := int(m.V)
			v := m.Args[1+n]
			keys[v] = append(keys[v], m.Args[1:1+n])
			m = m.Args[0]
			continue
		}
		var known func(m *Term) bool
		known = func(m *Term) bool {
			return m.Op == OpVar || m.Op == OpMapEmpty || m.Op == OpIte && known(m.Args[1]) && known(m.Args[2])
		}
		if !known(m) {
			return
		}
		break
	}
	for _, p := range own {
		ks := keys[p]
		if len(ks) == 0 {
			st.assume(c.Forall(now, c.Not(c.Eq(c.Var("#v.0", RefS), p))))
		}
		if len(ks) == 1 {
			var eq []*Term
			for j, k := range ks[0] {
				eq = append(eq, c.Eq(c.Var(fmt.Sprintf("#k.%d", j), k.S), k))
			}
			st.assume(c.Implies(c.Eq(c.MapGet(old, ks[0], 0, RefS), p), c.And(c.MapHas(now, ks[0]), c.Eq(c.MapGet(now, ks[0], 0, RefS), p))))
			st.assume(c.Forall(now, c.Implies(c.Eq(c.Var("#v.0", RefS), p), c.And(eq...))))
		}
	}
}

// MaxPacket is the largest number of bytes an MQTT packet can have.
const maxPacket = 1 << 28

func (ex *Exec) allocHook(st *State, in *ssa.MakeSlice, n *Term) {
	if ex.isSpec(in.Parent()) || n.isConst() && n.V <= maxPacket || !ex.bounded {
		return
	}
	ex.oblige(st, "C29: no allocation exceeds the largest packet", ex.prog.pos(in.Pos()), ex.c.Sle(n, ex.c.I(maxPacket)))
}

// wait is a point where the operation stops until another one lets it go on: everything the other operations may change is
// unknown afterwards, except that the invariant of the client holds, which must hold before.
func (ex *Exec) wait(st *State, in ssa.Instruction) {
	c := ex.c
	where := ex.prog.pos(in.Pos())
	if tmp := st.clone(); true {
		// a wait with a lock held is reported; what follows it is still checked
		free := c.Not(ex.anyHeld(st))
		ex.oblige(tmp, "C26 C28: nothing blocks while a lock is held", where, free)
		if !tmp.infeasible() {
			st.assume(free)
		}
	}
	ex.waited = true
	for _, s := range ex.shared {
		ex.oblige(st, "C28 C29: the client is consistent while an operation waits", where, ex.pure(st, s.inv, nil)[0])
		o := st.obj(s.ptr)
		sv := o.Val.(*StructV)
		u := under(sv.T).(*types.Struct)
		n := &StructV{T: sv.T, F: append([]Value{}, sv.F...)}
		for i := range sv.F {
			name := u.Field(i).Name()
			switch name {
			case "conn", "rngFn", "storage", "connMutex", "mutex", "eventMutex":
				continue
			}
			if m, ok := sv.F[i].(*MapV); ok {
				if m.Obj >= 0 {
					old, now := st.mapContent(m), ex.FreshC("wait."+name, mapSort(m.T))
					st.setObj(m.Obj, now)
					ex.ownEntries(st, old, now, m.T)
				}
				continue
			}
			n.F[i] = st.symb(u.Field(i).Type(), func(leaf string, so Sort) *Term { return ex.FreshC("wait."+name+leaf, so) }, "wait."+name)
		}
		st.setObj(o.ID, n)
	}
	// what the other operations did. What this operation did stays on record: the packets it sent, its offers and its
	// storage operations.
	_, w := ex.world(st)
	clock := ex.FreshC("wait.clock", BV(64))
	st.assume(c.Sle(w.F["clock"].(*Term), clock))
	ex.clockRange(st, clock)
	w = w.with("clock", clock)
	for _, k := range sortedKeys(w.F) {
		if !strings.Contains(k, ".") {
			continue
		}
		old := w.F[k].(*Term)
		now := ex.FreshC("wait."+k, chanSet)
		for _, id := range heapIDs(st.heap) {
			// channels of this operation are touched by nobody else
			if g, ok := st.heap[id].Val.(*GhostV); ok && g.Kind == "newchan" && strings.HasPrefix(k, "closed") {
				p := c.Ptr(id, "")
				st.assume(c.Eq(ex.in(now, p), ex.in(old, p)))
			}
		}
		w = w.with(k, now)
	}
	st.setObj(worldID, w)
	for _, id := range heapIDs(st.heap) {
		g, ok := st.heap[id].Val.(*GhostV)
		if !ok {
			continue
		}
		switch g.Kind {
		case "conn":
			p := ex.FreshC("wait.pos", BV(64))
			st.assume(c.Sle(g.F["pos"].(*Term), p))
			st.assume(c.Sle(p, c.Len(g.F["in"].(*Term))))
			st.setObj(id, g.with("pos", p).with("closed", ex.FreshC("wait.closed", BoolS)).with("deadline", ex.FreshC("wait.deadline", BV(64))))
		}
	}
	for _, s := range ex.shared {
		ex.assumeSolve(st, ex.pure(st, s.inv, nil)[0])
	}
	for _, h := range st.hooks("resume") {
		outs := ex.inline(st, h.f.Fn, nil, h.f.Bind)
		if len(outs) != 1 {
			unsupported("OnResume branches")
		}
		*st = *outs[0].st
	}
}

/* ---- connections ---- */

// underLock: what the operation does is done only while it holds a lock of the client.
func (ex *Exec) underLock(st *State, lock, what string, site ssa.CallInstruction) {
	if ex.mute > 0 || site == nil || ex.isSpec(site.Parent()) {
		return
	}
	for _, s := range ex.shared {
		eachLock(st.obj(s.ptr), func(name string, _ []int, l *GhostV) {
			if h := ex.held(l); name == lock && !h.isTrue() {
				ex.oblige(st, "C32: "+what+" only while holding "+lock, ex.prog.pos(site.Pos()), h)
			}
		})
	}
}

func (ex *Exec) connWrite(st *State, w *Term, site ssa.CallInstruction) {
	g := ex.ghost(st, w)
	ex.underLock(st, "connMutex", "the connection is written", site)
	ex.oblige(st, "C24: nothing is sent on a connection this operation has closed", ex.prog.pos(site.Pos()), ex.c.Not(g.F["shut"].(*Term)))
}

func init() {
	type C = ssa.CallInstruction
	more = append(more, func() {
		vs := func(name string, f intrinsic) { intrinsics[specPkg+name] = f }
		worldGet := func(name, field string) {
			vs(name, func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
				return ret(st, ex.worldTerm(st, field))
			})
		}
		worldGet("Events", "events")
		worldGet("LastEvent", "lastevent")
		worldGet("LastRead", "lastread")
		worldGet("LastSent", "lastsent")
		worldGet("LastReceived", "received")
		vs("Awaiting", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			return ret(st, ex.c.Eq(ex.worldTerm(st, "awaiting"), args[0].(*Term)))
		})
		vs("OnWait", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			st.addHook(hook{"wait", constName(args[0]), args[1].(*FuncV)})
			return ret(st)
		})
		vs("OnResume", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			st.addHook(hook{"resume", "", args[0].(*FuncV)})
			return ret(st)
		})
		vs("Hint", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			st.addHook(hook{"hint", "", args[0].(*FuncV)})
			return ret(st)
		})
		forall := func(name, field string) {
			vs(name, func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
				f := args[0].(*FuncV)
				t := f.Fn.Signature.Params().At(0).Type()
				body := ex.pure(st, f, []Value{ex.c.Var("#k.0", RefS)})[0]
				return ret(st, ex.c.Forall(ex.worldTerm(st, chans(field, t)), body))
			})
		}
		forall("ForallClosed", "closed")
		forall("ForallFull", "full")
		worldGet("Replies", "replies")
		worldGet("LastReply", "lastreply")
		worldGet("Clock", "clock")
		vs("Offer", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			return ret(st, ex.c.token("offer", args[0].(*Term), args[1].(*Term), args[2].(*Term)))
		})
		vs("Reply", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			return ret(st, ex.c.token("reply", args[0].(*Term), args[1].(*Term)))
		})
		vs("StoreOp", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			return ret(st, ex.c.token("st.store", args[0].(*Term), args[1].(*Term)))
		})
		vs("DropOp", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			return ret(st, ex.c.token("st.drop", args[0].(*Term)))
		})
		set := func(name, field string) {
			vs(name, func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
				ch := args[0].(*Term)
				return ret(st, ex.c.And(ex.c.Not(ex.c.Eq(ch, ex.c.Nil)), ex.in(ex.worldTerm(st, chans(field, site.Common().Args[0].Type())), ch)))
			})
		}
		set("Closed", "closed")
		set("Full", "full")
		vs("ChanID", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			ch := args[0].(*Term)
			return ret(st, ex.c.Ite(ex.c.Eq(ch, ex.c.Nil), ex.c.I(0), ex.c.UF("chanid", BV(64), ch)))
		})
		vs("ChanOf", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			return ret(st, ex.c.UF(chans("chanof", site.Value().Type()), RefS, args[0].(*Term)))
		})
		field := func(name, field string) {
			vs(name, func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
				return vsOut(ex, st, fn, args, site, field)
			})
		}
		field("ConnClosed", "closed")
		field("ConnShut", "shut")
		field("ConnDeadline", "deadline")
		field("ReadFailed", "readfailed")
		field("StorageLog", "log")
		field("LastStored", "last")
		field("StorageFailed", "failed")
		vs("CtxDeadline", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			g := ex.ghost(st, ex.ghostArg(st, args, 0, site))
			return ret(st, ex.c.Ite(g.F["has"].(*Term), g.F["deadline"].(*Term), ex.c.I(0)))
		})
		vs("At", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			return ret(st, args[0])
		})
		vs("Shared", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			p := args[0].(*Term)
			f, ok := args[1].(*FuncV)
			if !ok {
				unsupported("Shared with a %T", args[1])
			}
			if fr, _ := st.specFrame(); fr == nil || !fr.use {
				ex.shared = append(ex.shared, shared{p, f})
			}
			return ret(st)
		})
		vs("Waited", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			return ret(st, ex.c.B(ex.waited))
		})

		/* connections */
		fail := func(ex *Exec, st *State, recv *Term) *State {
			bad := st.clone()
			f := ex.c.Fresh("connfails", BoolS)
			st.assume(ex.c.Not(f))
			bad.assume(f)
			ex.setGhost(bad, recv, "failed", ex.c.T)
			return bad
		}
		for _, n := range []string{"SetDeadline", "SetReadDeadline", "SetWriteDeadline"} {
			n := n
			ghostMethods["conn."+n] = func(ex *Exec, st *State, recv *Term, args []Value, site C) []outcome {
				bad := fail(ex, st, recv)
				if n != "SetWriteDeadline" {
					ex.setGhost(st, recv, "deadline", args[0])
				}
				return []outcome{{st, []Value{ex.c.Nil}}, {bad, []Value{ex.newErr(bad, "deadlineerr")}}}
			}
		}
		ghostMethods["conn.Close"] = func(ex *Exec, st *State, recv *Term, args []Value, site C) []outcome {
			ex.setGhost(st, recv, "closed", ex.c.T)
			ex.setGhost(st, recv, "shut", ex.c.T)
			bad := fail(ex, st, recv)
			return []outcome{{st, []Value{ex.c.Nil}}, {bad, []Value{ex.newErr(bad, "closeerr")}}}
		}

		/* storages */
		stor := func(name string, log func(ex *Exec, args []Value) *Term) {
			ghostMethods["storage."+name] = func(ex *Exec, st *State, recv *Term, args []Value, site C) []outcome {
				ex.underLock(st, "mutex", "the storage is used", site)
				g := ex.ghost(st, recv)
				g = g.with("log", ex.c.Cat(Bytes, g.F["log"].(*Term), log(ex, args)))
				if name == "Store" {
					g = g.with("last", args[1])
				}
				st.store(recv, g)
				bad := st.clone()
				f := ex.c.Fresh("storagefails", BoolS)
				st.assume(ex.c.Not(f))
				bad.assume(f)
				ex.setGhost(bad, recv, "failed", ex.c.T)
				return []outcome{{st, []Value{ex.c.Nil}}, {bad, []Value{ex.newErr(bad, "storageerr")}}}
			}
		}
		stor("Store", func(ex *Exec, args []Value) *Term { return ex.c.token("st.store", args[0].(*Term), args[1].(*Term)) })
		stor("Drop", func(ex *Exec, args []Value) *Term { return ex.c.token("st.drop", args[0].(*Term)) })
		ghostMethods["storage.Get"] = func(ex *Exec, st *State, recv *Term, args []Value, site C) []outcome {
			ex.underLock(st, "mutex", "the storage is used", site)
			bad := st.clone()
			return []outcome{{st, []Value{ex.c.Fresh("stored", RefS), ex.c.Nil}}, {bad, []Value{ex.c.Nil, ex.newErr(bad, "storageerr")}}}
		}

		/* contexts */
		ghostMethods["ctx.Deadline"] = func(ex *Exec, st *State, recv *Term, args []Value, site C) []outcome {
			g := ex.ghost(st, recv)
			return ret(st, g.F["deadline"], g.F["has"])
		}
		ghostMethods["ctx.Err"] = func(ex *Exec, st *State, recv *Term, args []Value, site C) []outcome {
			return ret(st, ex.c.Fresh("ctxerr", RefS))
		}
		ghostMethods["ctx.Done"] = func(ex *Exec, st *State, recv *Term, args []Value, site C) []outcome {
			return ret(st, ex.c.UF("ctxdone", RefS, recv))
		}
		newCtx := func(ex *Exec, st *State, has, deadline *Term) *Term {
			id := st.newObj("context", types.Typ[types.Int], &GhostV{Kind: "ctx", F: map[string]Value{"has": has, "deadline": deadline}})
			return ex.c.Ptr(id, "")
		}
		bg := func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			return ret(st, newCtx(ex, st, ex.c.F, ex.c.I(0)))
		}
		intrinsics["context.Background"] = bg
		intrinsics["context.TODO"] = bg
		nop := &FuncV{Spec: "builtin:nop"}
		intrinsics["context.WithTimeout"] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			now := ex.now(st)
			d := ex.c.Fresh("ctxdeadline", BV(64))
			_ = now
			return ret(st, newCtx(ex, st, ex.c.T, d), nop)
		}
		intrinsics["context.WithDeadline"] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			return ret(st, newCtx(ex, st, ex.c.T, args[1].(*Term)), nop)
		}
		intrinsics["context.WithCancel"] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			g := ex.ghost(st, ex.ghostArg(st, args, 0, site))
			return ret(st, newCtx(ex, st, g.F["has"].(*Term), g.F["deadline"].(*Term)), nop)
		}

		/* time */
		intrinsics["time.Now"] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			return ret(st, ex.now(st))
		}
		intrinsics["time.Sleep"] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			return ret(st)
		}
		tm := func(name string, f func(c *Ctx, a []*Term) *Term) {
			intrinsics["(time.Time)."+name] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
				ex.note(ex.trusted, "model of time.Time as a number of nanoseconds")
				var ts []*Term
				for _, a := range args {
					ts = append(ts, a.(*Term))
				}
				return ret(st, f(ex.c, ts))
			}
		}
		tm("Add", func(c *Ctx, a []*Term) *Term { return c.Add(a[0], a[1]) })
		tm("Sub", func(c *Ctx, a []*Term) *Term { return c.Sub(a[0], a[1]) })
		tm("After", func(c *Ctx, a []*Term) *Term { return c.Slt(a[1], a[0]) })
		tm("Before", func(c *Ctx, a []*Term) *Term { return c.Slt(a[0], a[1]) })
		tm("Equal", func(c *Ctx, a []*Term) *Term { return c.Eq(a[0], a[1]) })
		tm("IsZero", func(c *Ctx, a []*Term) *Term { return c.Eq(a[0], c.I(0)) })
		intrinsics["time.Since"] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			return ret(st, ex.c.Sub(ex.now(st), args[0].(*Term)))
		}
		intrinsics["time.Until"] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			return ret(st, ex.c.Sub(args[0].(*Term), ex.now(st)))
		}
		for _, n := range []string{"Seconds", "Minutes", "Hours"} {
			n := n
			intrinsics["(time.Duration)."+n] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
				return ret(st, ex.c.UF("duration."+n, BV(64), args[0].(*Term)))
			}
		}
	})
}

// now reads the clock, which never goes back.
func (ex *Exec) now(st *State) *Term {
	c := ex.c
	ex.note(ex.trusted, "model of time.Now: the clock does not go back")
	t := c.Fresh("now", BV(64))
	st.assume(c.Sle(ex.worldTerm(st, "clock"), t))
	ex.clockRange(st, t)
	ex.setWorld(st, "clock", t)
	return t
}

func init() { mapKeys.Store(chanSet.T, []Sort{RefS}) }
