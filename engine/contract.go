package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Result of verifying one contract.
type Result struct {
	Contract string
	Target   string
	ok       bool
	Err      string // the engine could not process the code
	Obls     []*Obligation
	Used     []string // contracts of callees that were used
	Inlined  []string // functions executed in place
	Trusted  []string // models used
	Queries  int
	ByBack   map[string]int
	Solver   time.Duration
	Wall     time.Duration
	Notes    map[string]string
}

func newExec(p *Program, c *Contract) *Exec {
	ctx := NewCtx()
	ex := &Exec{c: ctx, sol: NewSolver(ctx), prog: p, main: c, freshVars: map[*Term]bool{}, recIdx: map[string]*RecApp{},
		used: map[string]bool{}, inlined: map[string]bool{}, trusted: map[string]bool{}, loopNote: map[string]string{},
		opts: map[string]bool{}, lazyIDs: map[*Term]int{}, lazyInit: map[int]*Object{}, lazyParts: map[int][]*Object{}, specMaps: map[int]bool{}, ifaceType: map[*Term]types.Type{},
		instPtr: map[string]bool{}, next: map[ssa.Value]*elemBind{}}
	for o := range c.Opts {
		ex.opts[o] = true
	}
	return ex
}

// verify checks one contract against the current code.
func (p *Program) verify(c *Contract, debugOn bool) *Result {
	t0 := time.Now()
	ex := newExec(p, c)
	ex.debug = debugOn
	for _, t := range c.Tags {
		ex.bounded = ex.bounded || t == "C29"
	}
	ex.sol.hook = ex.lemmas
	defer ex.sol.Close()
	res := &Result{Contract: c.Name}
	if c.Target != nil {
		res.Target = shortFn(c.Target)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(Unsupported); ok {
					res.Err = u.Msg
				} else {
					res.Err = fmt.Sprint("internal: ", r)
					if os.Getenv("VERIF_TRACE") != "" {
						fmt.Fprintln(os.Stderr, string(debug.Stack()))
					}
				}
			}
		}()
		ex.execContract(c)
	}()
	res.Obls = ex.discharge(ex.obls)
	res.ok = res.Err == ""
	covers := map[string]bool{}
	for _, o := range res.Obls {
		if o.Cover {
			if o.Status == Proved { // reachable
				covers[o.Name] = true
			} else if !covers[o.Name] {
				covers[o.Name] = false
			}
			continue
		}
		if o.Status != Proved {
			res.ok = false
		}
	}
	for _, ok := range covers {
		if !ok {
			res.ok = false
		}
	}
	for _, k := range sortedKeys(ex.used) {
		res.Used = append(res.Used, k)
	}
	res.Inlined, res.Trusted = sortedKeys(ex.inlined), sortedKeys(ex.trusted)
	res.Queries, res.ByBack, res.Solver, res.Wall = ex.sol.Queries, ex.sol.ByBack, ex.sol.Time, time.Since(t0)
	res.Notes = ex.loopNote
	return res
}

func (ex *Exec) execContract(c *Contract) {
	st := &State{ex: ex, heap: map[int]*Object{}, lazy: map[*Term]int{}}
	ex.initWorld(st)
	fr := &Frame{fn: c.Harness, env: map[ssa.Value]Value{}, con: c}
	for _, p := range c.Harness.Params {
		v := ex.param(st, p.Type(), p.Name())
		fr.env[p] = v
		fr.args = append(fr.args, v)
	}
	outs := ex.runFrame(st, fr)
	if c.Target != nil && !ex.verified {
		unsupported("the contract does not call its target")
	}
	// the contract must have a reachable end
	any := false
	for _, o := range outs {
		if !o.st.infeasible() {
			any = true
			ob := &Obligation{Name: "reachable", Facts: append([]*Term{}, o.st.pc...), Goal: ex.c.F, Cover: true, Contract: c.Name}
			ex.obls = append(ex.obls, ob)
		}
	}
	if !any {
		ex.obls = append(ex.obls, &Obligation{Name: "reachable", Goal: ex.c.T, Cover: true, Contract: c.Name})
	}
}

// param is an arbitrary argument: pointers point to separate objects, interfaces are not nil.
func (ex *Exec) param(st *State, t types.Type, name string) Value {
	c := ex.c
	switch u := under(t).(type) {
	case *types.Pointer:
		id := st.newObj(name, u.Elem(), nil)
		st.heap[id].Val = st.symbolic(u.Elem(), name)
		return c.Ptr(id, "")
	case *types.Interface:
		v := c.Var(name, RefS)
		ex.ifaceType[v] = t
		if typeName(t) != "error" && typeName(t) != "any" && typeName(t) != "interface{}" {
			st.assume(c.Ne(v, c.Nil))
		}
		return v
	}
	return st.symbolic(t, name)
}

/* ---- the target call inside a harness: verification ---- */

// k is the frame of the harness.
func (ex *Exec) verifyCall(st *State, k int, fn *ssa.Function, args []Value) []outcome {
	ex.verified = true
	f := *st.frames[k]
	f.called = true
	st.frames[k] = &f
	pre := make(map[int]*Object, len(st.heap))
	for k, v := range st.heap {
		pre[k] = v
	}
	mods := f.mods
	outs := ex.inline(st, fn, args, nil)
	for _, o := range outs {
		ex.locksReleased(o.st, pre, fn)
		ex.checkFrame(o.st, pre, mods, fn)
	}
	return outs
}

// modObjs: the objects behind the pointers of Modifies: the cells themselves and, for maps and slices, their contents.
func (ex *Exec) modObjs(pre map[int]*Object, mods []*Term) (cells map[int][]*Term, whole map[int]bool) {
	cells, whole = map[int][]*Term{}, map[int]bool{}
	for _, p := range mods {
		if p.Op != OpPtr {
			continue
		}
		id := int(p.V)
		if o := pre[id]; isContents(o) {
			whole[id] = true
			continue
		}
		cells[id] = append(cells[id], p)
		if o := pre[id]; o != nil {
			tmp := &State{ex: ex, heap: pre}
			ex.reachObjs(tmp.nav(o.Val, o.T, ptrSteps(p)), whole)
		}
	}
	return
}

// isContents: the object is the backing array of a slice.
func isContents(o *Object) bool {
	if o == nil {
		return false
	}
	t, ok := o.Val.(*Term)
	_, sl := under(o.T).(*types.Slice)
	return ok && sl && t.S.K == KSeq
}

func (ex *Exec) reachObjs(v Value, whole map[int]bool) {
	switch x := v.(type) {
	case *MapV:
		if x.Obj >= 0 {
			whole[x.Obj] = true
		}
	case *SliceV:
		if x.Base.Op == OpPtr {
			whole[int(x.Base.V)] = true
		}
	case *StructV:
		for _, f := range x.F {
			ex.reachObjs(f, whole)
		}
	}
}

// checkFrame: nothing that existed before the call has changed, except what the contract says may change.
func (ex *Exec) checkFrame(st *State, pre map[int]*Object, mods []*Term, fn *ssa.Function) {
	cells, whole := ex.modObjs(pre, mods)
	check := func(id int, o *Object) {
		now := st.heap[id]
		if now == nil || now == o || whole[id] || ex.specMaps[id] {
			return
		}
		if _, ok := o.Val.(*GhostV); ok {
			return
		}
		old := o.Val
		tmp := &State{ex: ex, heap: st.heap}
		for _, p := range cells[id] {
			steps := ptrSteps(p)
			old = tmp.upd(old, o.T, steps, tmp.nav(now.Val, o.T, steps))
		}
		var goals []*Term
		ex.diffCells(st, old, now.Val, &goals)
		for _, g := range goals {
			ex.oblige(st, "frame:"+o.Name+"@"+shortFn(fn), ex.prog.pos(fn.Pos()), g)
		}
	}
	for _, id := range heapIDs(pre) {
		check(id, pre[id])
	}
	for _, id := range heapIDs(ex.lazyInit) {
		o := ex.lazyInit[id]
		if _, ok := pre[id]; !ok {
			check(id, o)
		}
	}
}

// diffCells collects the equalities that say two cell values are the same.
func (ex *Exec) diffCells(st *State, a, b Value, goals *[]*Term) {
	c := ex.c
	if sameValue(a, b) {
		return
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			*goals = append(*goals, c.Eq(x, y))
			return
		}
	case *StructV:
		if y, ok := b.(*StructV); ok {
			for i := range x.F {
				ex.diffCells(st, x.F[i], y.F[i], goals)
			}
			return
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok && x.Base == y.Base {
			*goals = append(*goals, c.Eq(x.Off, y.Off), c.Eq(x.Len, y.Len), c.Eq(x.IsNil, y.IsNil))
			return
		}
	case *GhostV:
		if y, ok := b.(*GhostV); ok && y.Kind == x.Kind {
			for _, k := range ghostKeys(x) {
				ex.diffCells(st, x.F[k], y.F[k], goals)
			}
			return
		}
	}
	*goals = append(*goals, c.F)
}

/* ---- use of a contract in place of a call ---- */

func (ex *Exec) useContract(st *State, con *Contract, args []Value) []outcome {
	fr := &Frame{fn: con.Harness, env: map[ssa.Value]Value{}, con: con, use: true, args: args}
	// the target's receiver and parameters are the harness's
	for i, p := range con.Harness.Params {
		fr.env[p] = args[i]
	}
	return ex.runFrame(st, fr)
}

// havocCall replaces the target call while a contract is used: results and modified cells become unknown, to be pinned
// down by the Ensures that follow.
// k is the frame of the harness.
func (ex *Exec) havocCall(st *State, k int, fn *ssa.Function, args []Value, site ssa.CallInstruction) []outcome {
	c := ex.c
	mk := func(name string) func(string, Sort) *Term {
		return func(leaf string, s Sort) *Term { return ex.FreshC(name+leaf, s) }
	}
	sig := fn.Signature
	short := fn.Name()
	var reads []*Term
	for i := range args {
		t, ok := args[i].(*Term)
		if !ok || t.S.K != KRef {
			continue
		}
		if _, isI := under(siteType(site, i)).(*types.Interface); !isI {
			continue
		}
		g := ex.ghostOf(st, t, siteType(site, i))
		if g == nil {
			continue
		}
		gv, ok := st.load(g).(*GhostV)
		if !ok {
			continue
		}
		it := siteType(site, i)
		if gv.F["out"] != nil && hasMethod(it, "Write") {
			gv = gv.with("out", ex.FreshC(short+".out", Bytes))
			if gv.Kind != "buffer" {
				gv = gv.with("failed", ex.FreshC(short+".failed", BoolS))
			}
		}
		if gv.F["pos"] != nil && hasMethod(it, "Read") {
			reads = append(reads, g)
			p := ex.FreshC(short+".pos", BV(64))
			in := gv.F["in"].(*Term)
			st.assume(c.Sle(gv.F["pos"].(*Term), p))
			st.assume(c.Sle(p, c.Len(in)))
			gv = gv.with("pos", p)
		}
		st.store(g, gv)
	}
	mods := st.frames[k].mods
	_, whole := ex.modObjs(st.heap, mods)
	var wids []int
	for id := range whole {
		wids = append(wids, id)
	}
	sortInts(wids)
	for _, id := range wids {
		o := st.heap[id]
		if t, ok := o.Val.(*Term); ok {
			f := ex.FreshC(short+".contents", t.S)
			if t.S.K == KSeq {
				st.assume(c.Eq(c.Len(f), c.Len(t)))
			}
			st.setObj(id, f)
		}
	}
	for _, p := range mods {
		if p.Op != OpPtr {
			unsupported("Modifies of %v", p)
		}
		o := st.obj(p)
		if isContents(o) {
			continue
		}
		t := pathType(o.T, ptrSteps(p))
		st.store(p, st.symb(t, mk(short+".mod"), short+".mod"))
	}
	n := sig.Results().Len()
	errAt := -1
	for i := 0; i < n; i++ {
		if typeName(sig.Results().At(i).Type()) == "error" {
			errAt = i
		}
	}
	var rets []Value
	for i := 0; i < n; i++ {
		if i == errAt {
			rets = append(rets, c.Nil)
			continue
		}
		rets = append(rets, st.symb(sig.Results().At(i).Type(), mk(fmt.Sprintf("%s.r%d", short, i)), short))
	}
	fin := func(s *State, rets []Value) outcome {
		f := s.top().clone()
		f.rets = rets
		s.frames[len(s.frames)-1] = f
		return outcome{s, rets}
	}
	if errAt < 0 {
		return []outcome{fin(st, rets)}
	}
	st2 := st.clone()
	rets2 := append([]Value{}, rets...)
	rets2[errAt] = ex.newErr(st2, short+".err")
	for _, g := range reads {
		ex.setGhost(st2, g, "readfailed", c.T)
	}
	return []outcome{fin(st, rets), fin(st2, rets2)}
}

func pathType(t types.Type, path []step) types.Type {
	for _, s := range path {
		if s.index != nil {
			t = seqElem(t)
		} else {
			t = structField(t, s.field)
		}
	}
	return t
}

/* ---- recursive specification functions ---- */

// RecApp is an application of a recursive specification function: an uninterpreted term per result leaf, with a one-step
// unfolding on demand.
type RecApp struct {
	Fn   *ssa.Function
	Args []*Term
	Res  []*Term
	def  []*Term
}

func recName(fn *ssa.Function, j int) string { return fmt.Sprintf("rec:%s:%d", fn.Name(), j) }

func (ex *Exec) recApp(fn *ssa.Function, args []*Term) *RecApp {
	key := fn.Name()
	for _, a := range args {
		key += fmt.Sprintf("|%d", a.ID)
	}
	if r, ok := ex.recIdx[key]; ok {
		return r
	}
	r := &RecApp{Fn: fn, Args: args}
	k := 0
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		for _, l := range leaves(fn.Signature.Results().At(i).Type()) {
			r.Res = append(r.Res, ex.c.UF(recName(fn, k), l.S, args...))
			k++
		}
	}
	ex.recIdx[key] = r
	ex.recApps = append(ex.recApps, r)
	return r
}

func (ex *Exec) callRec(st *State, fn *ssa.Function, args []Value) []outcome {
	var ls []*Term
	for _, a := range args {
		ls = append(ls, st.toLeaves(a)...)
	}
	r := ex.recApp(fn, ls)
	res := r.Res
	var out []Value
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		var v Value
		v, res = st.fromLeaves(fn.Signature.Results().At(i).Type(), res)
		out = append(out, v)
	}
	return []outcome{{st, out}}
}

// unfold is the definition of the application, one step deep.
func (ex *Exec) unfold(st *State, r *RecApp) []*Term {
	if r.def != nil {
		return r.def
	}
	s := &State{ex: ex, heap: map[int]*Object{}, lazy: map[*Term]int{}}
	var args []Value
	ls := r.Args
	for _, p := range r.Fn.Params {
		var v Value
		v, ls = s.fromLeaves(p.Type(), ls)
		args = append(args, v)
	}
	r.def = ex.pure(s, &FuncV{Fn: r.Fn}, args)
	return r.def
}

func hasTag(name string, tag string) bool {
	for _, t := range strings.FieldsFunc(strings.SplitN(name, ":", 2)[0], func(r rune) bool { return r == ' ' || r == ',' }) {
		if t == tag {
			return true
		}
	}
	return false
}

// lemmas gives the facts about the uninterpreted parts of the vocabulary; each is proved by a contract of its own
// (contracts/primitives) from the definition of the function.
func (ex *Exec) lemmas(t *Term) []*Term {
	c := ex.c
	if t.Op != OpUF || len(t.Name) < 10 || t.Name[:10] != "readvarint" {
		return nil
	}
	s, pos := t.Args[0], t.Args[1]
	v, n, ok := c.UF("readvarint.v", BV(32), s, pos), c.UF("readvarint.next", BV(64), s, pos), c.UF("readvarint.ok", BoolS, s, pos)
	in := c.And(c.Sle(c.I(0), pos), c.Sle(pos, c.Len(s)))
	return []*Term{
		c.Implies(c.And(in, ok), c.And(c.Sle(c.Add(pos, c.I(1)), n), c.Sle(n, c.Add(pos, c.I(4))), c.Sle(n, c.Len(s)), c.Ule(v, c.K(268_435_455, 32)))),
		c.Implies(c.Not(ok), c.And(c.Eq(n, pos), c.Eq(v, c.K(0, 32)))),
		c.Implies(c.Sle(c.Len(s), pos), c.Not(ok)),
	}
}

func hasMethod(t types.Type, name string) bool {
	u, ok := under(t).(*types.Interface)
	if !ok {
		return true
	}
	for i := 0; i < u.NumMethods(); i++ {
		if u.Method(i).Name() == name {
			return true
		}
	}
	return false
}
