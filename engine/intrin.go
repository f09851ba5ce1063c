package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(ex *Exec, st *State, fn *ssa.Function, args []Value, site ssa.CallInstruction) []outcome
type ghostMethod func(ex *Exec, st *State, recv *Term, args []Value, site ssa.CallInstruction) []outcome

var intrinsics map[string]intrinsic
var ghostMethods map[string]ghostMethod

// more registers further models.
var more []func()

const specPkg = modPath + "/verifspec."

func prefixIntrinsic(name string) intrinsic { return nil }

func ret(st *State, v ...Value) []outcome { return []outcome{{st, v}} }

/* ---- ghosts ---- */

// ghostOf gives the abstract object an interface or pointer term stands for, creating it on first use.
func (ex *Exec) ghostOf(st *State, t *Term, typ types.Type) *Term {
	switch t.Op {
	case OpPtr:
		return t
	case OpBox:
		if len(t.Args) == 1 && t.Args[0].Op == OpPtr {
			return t.Args[0]
		}
	}
	if id, ok := st.lazy[t]; ok {
		return ex.c.Ptr(id, "")
	}
	if rt, ok := ex.ifaceType[t]; ok {
		typ = rt
	}
	kind := ""
	switch typeName(typ) {
	case "io.Writer", "io.ByteWriter", "io.StringWriter":
		kind = "writer"
	case "io.Reader", "io.ByteReader":
		kind = "reader"
	case "net.Conn", "io.ReadWriter", "io.ReadWriteCloser":
		kind = "conn"
	case "storage.Storage":
		kind = "storage"
	case "context.Context":
		kind = "ctx"
	}
	if kind == "" {
		return nil
	}
	id, ok := ex.lazyIDs[t]
	if !ok {
		ex.nobj++
		id = ex.nobj
		ex.lazyIDs[t] = id
	}
	o := &Object{ID: id, Name: t.String(), T: typ, Val: ex.newGhost(st, kind, t.String())}
	st.heap[id] = o
	st.lazy[t] = id
	ex.lazyInit[id] = o
	return ex.c.Ptr(id, "")
}

func (ex *Exec) newGhost(st *State, kind, name string) *GhostV {
	c := ex.c
	g := &GhostV{Kind: kind, F: map[string]Value{}}
	if kind == "writer" || kind == "conn" {
		g.F["out"] = c.Var(name+".out", Bytes)
		g.F["failed"] = c.Var(name+".failed", BoolS)
	}
	if kind == "reader" || kind == "conn" {
		in, pos, e := c.Var(name+".in", Bytes), c.Var(name+".pos", BV(64)), c.Var(name+".readerr", RefS)
		g.F["in"], g.F["pos"], g.F["err"] = in, pos, e
		g.F["readfailed"] = c.Var(name+".readfailed", BoolS)
		st.assume(c.Sle(c.I(0), pos))
		st.assume(c.Sle(pos, c.Len(in)))
		st.assume(c.Ne(e, c.Nil))
	}
	if kind == "conn" {
		g.F["closed"] = c.Var(name+".closed", BoolS)
		g.F["shut"] = c.F
		g.F["deadline"] = c.Var(name+".deadline", BV(64))
	}
	if kind == "ctx" {
		g.F["deadline"] = c.Var(name+".deadline", BV(64))
		g.F["has"] = c.Var(name+".has", BoolS)
		st.assume(c.Implies(g.F["has"].(*Term), c.Slt(c.I(0), g.F["deadline"].(*Term))))
	}
	if kind == "storage" {
		g.F["log"] = c.Var(name+".log", Bytes)
		g.F["last"] = c.Var(name+".last", RefS)
		g.F["failed"] = c.Var(name+".failed", BoolS)
	}
	return g
}

func (ex *Exec) ghost(st *State, p *Term) *GhostV {
	g, ok := st.load(p).(*GhostV)
	if !ok {
		unsupported("not an abstract object: %v", p)
	}
	return g
}

func (ex *Exec) setGhost(st *State, p *Term, k string, v Value) {
	g := ex.ghost(st, p)
	st.store(p, g.with(k, v))
}

func siteType(site ssa.CallInstruction, i int) types.Type {
	c := site.Common()
	if c.IsInvoke() {
		return c.Args[i].Type()
	}
	return c.Args[i].Type()
}

// ghostArg is the abstract object passed as argument i.
func (ex *Exec) ghostArg(st *State, args []Value, i int, site ssa.CallInstruction) *Term {
	t, ok := args[i].(*Term)
	if !ok {
		unsupported("argument %d is a %T", i, args[i])
	}
	g := ex.ghostOf(st, t, siteType(site, i))
	if g == nil {
		unsupported("no model for argument %v of type %v", t, siteType(site, i))
	}
	return g
}

// newErr is an unknown error.
func (ex *Exec) newErr(st *State, name string) *Term {
	e := ex.c.Fresh(name, RefS)
	st.assume(ex.c.Ne(e, ex.c.Nil))
	return e
}

/* ---- writers and readers ---- */

// writeBytes appends data to a writer; the writer may fail, and then anything may have been written.
func (ex *Exec) writeBytes(st *State, w *Term, data *Term) (ok *State, okErr *Term, bad *State, err *Term) {
	c := ex.c
	g := ex.ghost(st, w)
	if g.Kind == "buffer" {
		st.store(w, g.with("out", c.Cat(Bytes, g.F["out"].(*Term), data)))
		return st, c.Nil, nil, nil
	}
	if g.F["out"] == nil {
		unsupported("write to a %s", g.Kind)
	}
	bad = st.clone()
	f := c.Fresh("writefails", BoolS)
	st.assume(c.Not(f))
	bad.assume(f)
	st.store(w, g.with("out", c.Cat(Bytes, g.F["out"].(*Term), data)))
	bad.store(w, g.with("out", c.Fresh("partial", Bytes)).with("failed", c.T))
	return st, c.Nil, bad, ex.newErr(bad, "writeerr")
}

func (ex *Exec) writerWrite(st *State, w *Term, data *Term) []outcome {
	c := ex.c
	ex.note(ex.trusted, "model of io.Writer.Write: on success exactly the given bytes are appended, and it may fail at any call")
	ok, e, bad, be := ex.writeBytes(st, w, data)
	out := []outcome{{ok, []Value{c.Len(data), e}}}
	if bad != nil {
		n := c.Fresh("written", BV(64))
		bad.assume(c.Sle(c.I(0), n))
		bad.assume(c.Sle(n, c.Len(data)))
		out = append(out, outcome{bad, []Value{n, be}})
	}
	return out
}

// readFull reads exactly n bytes, as io.ReadFull does.
func (ex *Exec) readFull(st *State, r *Term, n *Term) (ok *State, data *Term, bad *State, got, err *Term) {
	c := ex.c
	ex.note(ex.trusted, "model of io.ReadFull: the bytes of a fixed stream, in order, then a permanent error")
	g := ex.ghost(st, r)
	if g.F["in"] == nil {
		unsupported("read from a %s", g.Kind)
	}
	in, pos := g.F["in"].(*Term), g.F["pos"].(*Term)
	have := c.Sle(c.Add(pos, n), c.Len(in))
	have = st.known(have)
	if !have.isTrue() {
		bad = st.clone()
		bad.assume(c.Not(have))
		bad.store(r, g.with("pos", c.Len(in)).with("readfailed", c.T))
		got = c.Sub(c.Len(in), pos)
		err = ex.newErr(bad, "readerr")
		bad.assume(c.Implies(c.Eq(got, c.I(0)), c.Eq(err, g.F["err"].(*Term))))
		if bad.infeasible() {
			bad = nil
		}
	}
	if have.isFalse() {
		return nil, nil, bad, got, err
	}
	st.assume(have)
	st.store(r, g.with("pos", c.Add(pos, n)))
	return st, c.SubSeq(in, pos, n), bad, got, err
}

func (ex *Exec) putSlice(st *State, d *SliceV, data *Term) {
	c := ex.c
	if d.Base.Op == OpNil {
		return
	}
	old := st.loadSeq(d.Base, d.Elem)
	n := c.Len(data)
	end := c.Add(d.Off, n)
	st.storeSeq(d.Base, d.Elem, c.Cat(old.S, c.SubSeq(old, c.I(0), d.Off), data, c.SubSeq(old, end, c.Sub(c.Len(old), end))))
}

func (ex *Exec) readFullInto(st *State, r *Term, d *SliceV) []outcome {
	c := ex.c
	var out []outcome
	n := d.Len
	ok, data, bad, got, err := ex.readFull(st, r, n)
	if ok != nil {
		ex.putSlice(ok, d, data)
		out = append(out, outcome{ok, []Value{n, c.Nil}})
	}
	if bad != nil {
		g := ex.ghost(bad, r)
		in := g.F["in"].(*Term)
		ex.putSlice(bad, d, c.SubSeq(in, c.Sub(c.Len(in), got), got))
		out = append(out, outcome{bad, []Value{got, err}})
	}
	return out
}

func (ex *Exec) readSome(st *State, r *Term, d *SliceV) []outcome {
	c := ex.c
	ex.note(ex.trusted, "model of io.Reader.Read: any number of the next bytes, or an error")
	g := ex.ghost(st, r)
	in, pos := g.F["in"].(*Term), g.F["pos"].(*Term)
	k := c.Fresh("readn", BV(64))
	bad := st.clone()
	st.assume(c.Sle(c.I(0), k))
	st.assume(c.Sle(k, d.Len))
	st.assume(c.Sle(c.Add(pos, k), c.Len(in)))
	st.store(r, g.with("pos", c.Add(pos, k)))
	ex.putSlice(st, d, c.SubSeq(in, pos, k))
	e := ex.newErr(bad, "readerr")
	ex.setGhost(bad, r, "readfailed", c.T)
	return []outcome{{st, []Value{k, c.Nil}}, {bad, []Value{c.I(0), e}}}
}

/* ---- encoding/binary ---- */

func (ex *Exec) beBytes(t *Term, little bool) *Term {
	c := ex.c
	var us []*Term
	n := t.S.W / 8
	for i := 0; i < n; i++ {
		k := n - 1 - i
		if little {
			k = i
		}
		us = append(us, c.Unit(Bytes, c.Extract(t, 8*k, 8)))
	}
	return c.Cat(Bytes, us...)
}

func (ex *Exec) beGet(seq *Term, off *Term, n int, little bool) *Term {
	c := ex.c
	w := 8 * n
	r := c.K(0, w)
	for i := 0; i < n; i++ {
		k := n - 1 - i
		if little {
			k = i
		}
		b := c.Zext(c.At(seq, c.Add(off, c.I(int64(i))), 0, BV(8)), w)
		if w == 8 {
			r = b
		} else {
			r = c.OrB(r, c.Shl(b, c.K(uint64(8*k), w)))
		}
	}
	return r
}

func littleEndian(v Value) bool {
	t, ok := v.(*Term)
	return ok && strings.Contains(t.Name, "littleEndian")
}

func (ex *Exec) binaryWrite(st *State, fn *ssa.Function, args []Value, site ssa.CallInstruction) []outcome {
	w := ex.ghostArg(st, args, 0, site)
	ex.note(ex.trusted, "model of encoding/binary.Write")
	b := args[2].(*Term)
	if b.Op != OpBox {
		unsupported("binary.Write of %v", b)
	}
	v, _ := ex.unbox(st, b)
	if p, ok := v.(*Term); ok && p.Op == OpPtr {
		v = st.load(p)
	}
	var data *Term
	switch x := v.(type) {
	case *Term:
		if x.S.K != KBV {
			unsupported("binary.Write of %v", b)
		}
		data = ex.beBytes(x, littleEndian(args[1]))
	case *SliceV:
		if elemSort(x.Elem) != Bytes {
			unsupported("binary.Write of %v", b)
		}
		data = st.sliceContent(x)
	default:
		unsupported("binary.Write of %v", b)
	}
	ok, e, bad, be := ex.writeBytes(st, w, data)
	out := []outcome{{ok, []Value{e}}}
	if bad != nil {
		out = append(out, outcome{bad, []Value{be}})
	}
	return out
}

func (ex *Exec) binaryRead(st *State, fn *ssa.Function, args []Value, site ssa.CallInstruction) []outcome {
	c := ex.c
	r := ex.ghostArg(st, args, 0, site)
	ex.note(ex.trusted, "model of encoding/binary.Read")
	b := args[2].(*Term)
	if b.Op != OpBox {
		unsupported("binary.Read into %v", b)
	}
	v, t := ex.unbox(st, b)
	p, ok := v.(*Term)
	if !ok || p.S.K != KRef {
		unsupported("binary.Read into %v", t)
	}
	et := under(t).(*types.Pointer).Elem()
	s, _ := scalarSort(et)
	if s.K != KBV || s.W%8 != 0 {
		unsupported("binary.Read into %v", t)
	}
	if p.Op != OpPtr {
		if p.Op == OpNil {
			ex.safety(st, "nil-dereference", site, c.F)
			return nil
		}
		p = ex.materialize(st, p, et)
	}
	n := s.W / 8
	g := ex.ghost(st, r)
	in, pos := g.F["in"].(*Term), g.F["pos"].(*Term)
	var out []outcome
	okS, _, bad, _, err := ex.readFull(st, r, c.I(int64(n)))
	if okS != nil {
		okS.store(p, ex.beGet(in, pos, n, littleEndian(args[1])))
		out = append(out, outcome{okS, []Value{c.Nil}})
	}
	if bad != nil {
		out = append(out, outcome{bad, []Value{err}})
	}
	return out
}

/* ---- specification vocabulary ---- */

// pure evaluates a specification function without side effects; the results of its paths are joined into one term per leaf.
func (ex *Exec) pure(st *State, f Value, args []Value) []*Term {
	c := ex.c
	fv, ok := f.(*FuncV)
	if !ok {
		unsupported("specification closure is a %T", f)
	}
	s := st.clone()
	base := len(s.pc)
	outs := ex.inline(s, fv.Fn, args, fv.Bind)
	if len(outs) == 0 {
		unsupported("specification function without result: %s", fv.Fn)
	}
	var res []*Term
	for i := len(outs) - 1; i >= 0; i-- {
		var ls []*Term
		for _, r := range outs[i].rets {
			ls = append(ls, outs[i].st.toLeaves(r)...)
		}
		if res == nil {
			res = ls
			continue
		}
		k := c.And(outs[i].st.pc[base:]...)
		for j := range res {
			res[j] = c.Ite(k, ls[j], res[j])
		}
	}
	return res
}

func (ex *Exec) boundLeaves(prefix string, t types.Type) []*Term {
	var out []*Term
	for j, l := range leaves(t) {
		out = append(out, ex.c.Var(fmt.Sprintf("#%s.%d", prefix, j), l.S))
	}
	return out
}

func (ex *Exec) mapBody(st *State, m *MapV, f Value) *Term {
	k, _ := st.fromLeaves(m.T.Key(), ex.boundLeaves("k", m.T.Key()))
	v, _ := st.fromLeaves(m.T.Elem(), ex.boundLeaves("v", m.T.Elem()))
	return ex.pure(st, f, []Value{k, v})[0]
}

func (ex *Exec) sliceBody(st *State, s *SliceV, f Value) *Term {
	e, _ := st.fromLeaves(s.Elem, ex.boundLeaves("e", s.Elem))
	return ex.pure(st, f, []Value{e})[0]
}

func constName(v Value) string {
	t, ok := v.(*Term)
	if !ok {
		return "?"
	}
	var b strings.Builder
	for _, it := range items(t) {
		if it.Op != OpUnit || !it.Args[0].isConst() {
			return "?"
		}
		b.WriteByte(byte(it.Args[0].V))
	}
	return b.String()
}

// specFrame is the innermost frame that executes a contract.
func (st *State) specFrame() (*Frame, int) {
	for i := len(st.frames) - 1; i >= 0; i-- {
		if st.frames[i].con != nil {
			return st.frames[i], i
		}
	}
	return nil, -1
}

func vsOut(ex *Exec, st *State, fn *ssa.Function, args []Value, site ssa.CallInstruction, field string) []outcome {
	g := ex.ghost(st, ex.ghostArg(st, args, 0, site))
	v := g.F[field]
	if v == nil {
		unsupported("%s of a %s", field, g.Kind)
	}
	return ret(st, v)
}

func initIntrinsics() {
	type C = ssa.CallInstruction
	vs := func(name string, f intrinsic) { intrinsics[specPkg+name] = f }
	intrinsics = map[string]intrinsic{}
	ghostMethods = map[string]ghostMethod{}

	/* contracts */
	vs("Requires", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		fr, _ := st.specFrame()
		k := args[0].(*Term)
		if fr != nil && fr.use {
			ex.oblige(st, "pre:"+fr.con.Name, ex.prog.pos(site.Pos()), k)
		} else {
			ex.assumeSolveSoft(st, k)
		}
		return ret(st)
	})
	vs("Ensures", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		fr, _ := st.specFrame()
		k := args[1].(*Term)
		if fr != nil && fr.use {
			ex.assumeSolve(st, k)
		} else {
			ex.oblige(st, constName(args[0]), ex.prog.pos(site.Pos()), k)
		}
		return ret(st)
	})
	vs("Cover", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		fr, _ := st.specFrame()
		if fr == nil || !fr.use {
			o := &Obligation{Name: constName(args[0]), Where: ex.prog.pos(site.Pos()), Facts: append([]*Term{}, st.pc...), Goal: ex.c.Not(args[1].(*Term)), Cover: true, Contract: ex.main.Name}
			ex.obls = append(ex.obls, o)
		}
		return ret(st)
	})
	vs("Assume", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		ex.assumeSolveSoft(st, args[0].(*Term))
		return ret(st)
	})
	vs("Same", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		return ret(st, ex.same(st, args[0], args[1]))
	})
	vs("Modifies", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		i := len(st.frames)
		for i > 0 && st.frames[i-1].con == nil {
			i--
		}
		if i == 0 {
			unsupported("Modifies outside a contract")
		}
		p := args[0].(*Term)
		f := *st.frames[i-1]
		f.mods = append(append([]*Term{}, f.mods...), p)
		st.frames[i-1] = &f
		return ret(st)
	})
	vs("ModifiesBytes", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		i := len(st.frames)
		for i > 0 && st.frames[i-1].con == nil {
			i--
		}
		if i == 0 {
			unsupported("ModifiesBytes outside a contract")
		}
		b := args[0].(*SliceV).Base
		if b.Op == OpNil {
			return ret(st)
		}
		f := *st.frames[i-1]
		f.mods = append(append([]*Term{}, f.mods...), b)
		st.frames[i-1] = &f
		return ret(st)
	})
	vs("Out", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		return vsOut(ex, st, fn, args, site, "out")
	})
	vs("WriteFailed", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		return vsOut(ex, st, fn, args, site, "failed")
	})
	vs("In", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		return vsOut(ex, st, fn, args, site, "in")
	})
	vs("Pos", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		return vsOut(ex, st, fn, args, site, "pos")
	})
	vs("ReadErr", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		return vsOut(ex, st, fn, args, site, "err")
	})

	/* bytes */
	vs("Byte", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		return ret(st, ex.c.Unit(Bytes, args[0].(*Term)))
	})
	be := func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		return ret(st, ex.beBytes(args[0].(*Term), false))
	}
	vs("U16", be)
	vs("U32", be)
	get := func(n int) intrinsic {
		return func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			return ret(st, ex.beGet(args[0].(*Term), args[1].(*Term), n, false))
		}
	}
	vs("GetU16", get(2))
	vs("GetU32", get(4))
	vs("VarIntLen", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		return ret(st, ex.c.UF("varintlen", BV(64), args[0].(*Term)))
	})
	vs("VarInt", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		if ex.opts["reveal"] {
			return ex.inline(st, fn, args, nil)
		}
		return ret(st, ex.c.UF("varint", Bytes, args[0].(*Term)))
	})
	vs("Index", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		if ex.opts["reveal"] {
			return ex.inline(st, fn, args, nil)
		}
		ex.hasIndex = true
		return ret(st, ex.c.UF("index", BV(64), args[0].(*Term), args[1].(*Term), args[2].(*Term)))
	})
	vs("ReadVarInt", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		if ex.opts["reveal"] {
			return ex.inline(st, fn, args, nil)
		}
		c := ex.c
		s, pos := args[0].(*Term), args[1].(*Term)
		v, n, ok := c.UF("readvarint.v", BV(32), s, pos), c.UF("readvarint.next", BV(64), s, pos), c.UF("readvarint.ok", BoolS, s, pos)
		return ret(st, v, n, ok)
	})
	// The readers are unspecified where they fail: specifications use the value and the position only after testing ok.
	reader := func(n int) intrinsic {
		return func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			c := ex.c
			s, pos := args[0].(*Term), args[1].(*Term)
			next := c.Add(pos, c.I(int64(n)))
			return ret(st, ex.beGet(s, pos, n, false), next, c.Sle(next, c.Len(s)))
		}
	}
	vs("ReadByte", reader(1))
	vs("ReadU16", reader(2))
	vs("ReadU32", reader(4))
	vs("ReadStr", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		c := ex.c
		s, pos := args[0].(*Term), args[1].(*Term)
		from := c.Add(pos, c.I(2))
		n := c.Zext(ex.beGet(s, pos, 2, false), 64)
		next := c.Add(from, n)
		return ret(st, c.SubSeq(s, from, n), next, c.And(c.Sle(from, c.Len(s)), c.Sle(next, c.Len(s))))
	})
	vs("Opt", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		return ret(st, ex.c.Ite(args[0].(*Term), args[1].(*Term), ex.c.Empty(Bytes)))
	})
	vs("FoldMap", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		m := args[0].(*MapV)
		return ret(st, ex.c.Fold(st.mapContent(m), ex.mapBody(st, m, args[1])))
	})
	vs("ForallMap", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		m := args[0].(*MapV)
		return ret(st, ex.c.Forall(st.mapContent(m), ex.mapBody(st, m, args[1])))
	})
	vs("FoldSlice", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		s := args[0].(*SliceV)
		return ret(st, ex.c.Fold(st.sliceContent(s), ex.sliceBody(st, s, args[1])))
	})
	vs("ForallSlice", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		s := args[0].(*SliceV)
		return ret(st, ex.c.Forall(st.sliceContent(s), ex.sliceBody(st, s, args[1])))
	})
	vs("MapPut", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		m := args[0].(*MapV)
		r := st.mapOf(m.T, ex.c.MapPut(st.mapContent(m), st.toLeaves(args[1]), st.toLeaves(args[2])), ex.c.F)
		return ret(st, r)
	})
	vs("MapCopy", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		m := args[0].(*MapV)
		r := st.mapOf(m.T, st.mapContent(m), ex.c.F)
		ex.specMaps[r.Obj] = true
		return ret(st, r)
	})
	vs("MapAssign", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		if !ex.specMaps[args[0].(*MapV).Obj] {
			unsupported("MapAssign to a map that is not a copy")
		}
		st.setObj(args[0].(*MapV).Obj, st.mapContent(args[1].(*MapV)))
		return ret(st)
	})
	vs("MapDel", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		m := args[0].(*MapV)
		return ret(st, st.mapOf(m.T, ex.c.MapDel(st.mapContent(m), st.toLeaves(args[1])), ex.c.F))
	})
	vs("MapEq", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		return ret(st, ex.c.Eq(st.mapContent(args[0].(*MapV)), st.mapContent(args[1].(*MapV))))
	})

	/* io */
	for _, k := range []string{"writer", "conn", "buffer"} {
		k := k
		ghostMethods[k+".Write"] = func(ex *Exec, st *State, recv *Term, args []Value, site C) []outcome {
			if k == "conn" {
				ex.connWrite(st, recv, site)
			}
			return ex.writerWrite(st, recv, st.sliceContent(args[0].(*SliceV)))
		}
		ghostMethods[k+".WriteString"] = func(ex *Exec, st *State, recv *Term, args []Value, site C) []outcome {
			return ex.writerWrite(st, recv, args[0].(*Term))
		}
	}
	for _, k := range []string{"reader", "conn"} {
		ghostMethods[k+".Read"] = func(ex *Exec, st *State, recv *Term, args []Value, site C) []outcome {
			return ex.readSome(st, recv, args[0].(*SliceV))
		}
	}
	intrinsics["io.ReadFull"] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		return ex.readFullInto(st, ex.ghostArg(st, args, 0, site), args[1].(*SliceV))
	}
	intrinsics["io.ReadAtLeast"] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		d := args[1].(*SliceV)
		if args[2].(*Term) != d.Len {
			unsupported("io.ReadAtLeast of less than the buffer")
		}
		return ex.readFullInto(st, ex.ghostArg(st, args, 0, site), d)
	}
	intrinsics["io.WriteString"] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		return ex.writerWrite(st, ex.ghostArg(st, args, 0, site), args[1].(*Term))
	}
	intrinsics["encoding/binary.Write"] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		return ex.binaryWrite(st, fn, args, site)
	}
	intrinsics["encoding/binary.Read"] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		return ex.binaryRead(st, fn, args, site)
	}
	for _, e := range []string{"bigEndian", "littleEndian"} {
		little := e == "littleEndian"
		for _, w := range []int{16, 32, 64} {
			w := w
			n := w / 8
			intrinsics[fmt.Sprintf("(encoding/binary.%s).PutUint%d", e, w)] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
				d := args[1].(*SliceV)
				ex.safety(st, "index", site, ex.c.Sle(ex.c.I(int64(n)), d.Len))
				ex.putSlice(st, d, ex.beBytes(args[2].(*Term), little))
				return ret(st)
			}
			intrinsics[fmt.Sprintf("(encoding/binary.%s).Uint%d", e, w)] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
				d := args[1].(*SliceV)
				ex.safety(st, "index", site, ex.c.Sle(ex.c.I(int64(n)), d.Len))
				return ret(st, ex.beGet(st.sliceContent(d), ex.c.I(0), n, little))
			}
			intrinsics[fmt.Sprintf("(encoding/binary.%s).AppendUint%d", e, w)] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
				return ret(st, ex.appendTo(st, args[1].(*SliceV), ex.beBytes(args[2].(*Term), little), site))
			}
		}
	}

	/* bytes.Buffer */
	buf := func(name string, f func(ex *Exec, st *State, b *Term, args []Value, site C) []outcome) {
		intrinsics["(*bytes.Buffer)."+name] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			ex.note(ex.trusted, "model of bytes.Buffer."+name)
			p := args[0].(*Term)
			if p.Op != OpPtr {
				unsupported("bytes.Buffer at %v", p)
			}
			return f(ex, st, p, args, site)
		}
	}
	buf("Write", func(ex *Exec, st *State, b *Term, args []Value, site C) []outcome {
		return ex.writerWrite(st, b, st.sliceContent(args[1].(*SliceV)))
	})
	buf("WriteString", func(ex *Exec, st *State, b *Term, args []Value, site C) []outcome {
		return ex.writerWrite(st, b, args[1].(*Term))
	})
	buf("WriteByte", func(ex *Exec, st *State, b *Term, args []Value, site C) []outcome {
		o := ex.writerWrite(st, b, ex.c.Unit(Bytes, args[1].(*Term)))
		return ret(o[0].st, ex.c.Nil)
	})
	buf("Bytes", func(ex *Exec, st *State, b *Term, args []Value, site C) []outcome {
		return ret(st, st.sliceOf(types.Typ[types.Uint8], ex.ghost(st, b).F["out"].(*Term), ex.c.F))
	})
	buf("String", func(ex *Exec, st *State, b *Term, args []Value, site C) []outcome {
		return ret(st, ex.ghost(st, b).F["out"])
	})
	buf("Len", func(ex *Exec, st *State, b *Term, args []Value, site C) []outcome {
		return ret(st, ex.c.Len(ex.ghost(st, b).F["out"].(*Term)))
	})
	buf("Reset", func(ex *Exec, st *State, b *Term, args []Value, site C) []outcome {
		ex.setGhost(st, b, "out", ex.c.Empty(Bytes))
		return ret(st)
	})
	buf("Grow", func(ex *Exec, st *State, b *Term, args []Value, site C) []outcome { return ret(st) })
	buf("WriteTo", func(ex *Exec, st *State, b *Term, args []Value, site C) []outcome {
		w := ex.ghostArg(st, args, 1, site)
		if ex.ghost(st, w).Kind == "conn" {
			ex.connWrite(st, w, site)
		}
		data := ex.ghost(st, b).F["out"].(*Term)
		outs := ex.writerWrite(st, w, data)
		ex.setGhost(outs[0].st, b, "out", ex.c.Empty(Bytes))
		if len(outs) > 1 {
			ex.setGhost(outs[1].st, b, "out", ex.c.Fresh("unwritten", Bytes))
		}
		return outs
	})
	intrinsics["bytes.NewBuffer"] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		id := st.newObj("buffer", t, &GhostV{Kind: "buffer", F: map[string]Value{"out": st.sliceContent(args[0].(*SliceV)), "failed": ex.c.F}})
		return ret(st, ex.c.Ptr(id, ""))
	}

	/* errors, fmt */
	intrinsics["errors.New"] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		return ret(st, ex.newErr(st, "errors.New"))
	}
	intrinsics["fmt.Errorf"] = intrinsics["errors.New"]
	intrinsics["errors.Is"] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		c := ex.c
		e, t := args[0].(*Term), args[1].(*Term)
		if r := st.known(c.Eq(e, c.Nil)); r.isTrue() || e == c.Nil {
			return ret(st, c.Eq(t, c.Nil))
		} else if r.isFalse() {
			is := c.UF("errors.Is", BoolS, e, t)
			if e == t {
				return ret(st, c.T)
			}
			return ret(st, c.Or(c.Eq(e, t), is))
		}
		is := c.UF("errors.Is", BoolS, e, t)
		return ret(st, c.Ite(c.Eq(e, c.Nil), c.Eq(t, c.Nil), c.Or(c.Eq(e, t), is)))
	}

	/* unsafe.Slice, via the builtin */
	intrinsics["strings.HasPrefix"] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		c := ex.c
		s, p := args[0].(*Term), args[1].(*Term)
		return ret(st, c.And(c.Sle(c.Len(p), c.Len(s)), c.Eq(c.SubSeq(s, c.I(0), c.Len(p)), p)))
	}
	intrinsics["strings.HasSuffix"] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		c := ex.c
		s, p := args[0].(*Term), args[1].(*Term)
		return ret(st, c.And(c.Sle(c.Len(p), c.Len(s)), c.Eq(c.SubSeq(s, c.Sub(c.Len(s), c.Len(p)), c.Len(p)), p)))
	}
	vs("Tok", func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
		return ret(st, ex.c.Unit(Bytes, ex.c.UF("tok", BV(8), args[0].(*Term))))
	})
	for _, f := range more {
		f()
	}
}

// assumeSolveSoft assumes a precondition.
func (ex *Exec) assumeSolveSoft(st *State, k *Term) {
	st.assume(k)
}
