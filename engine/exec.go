package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Exec is one verification run: the symbolic execution of one contract.
type Exec struct {
	c         *Ctx
	sol       *Solver
	prog      *Program
	nobj      int
	obls      []*Obligation
	specDepth int
	main      *Contract
	freshVars map[*Term]bool
	recApps   []*RecApp
	recIdx    map[string]*RecApp
	used      map[string]bool // contracts used at call sites
	inlined   map[string]bool
	trusted   map[string]bool // models of library functions used
	steps     int
	noInv     int
	debug     bool
	loopNote  map[string]string
	opts      map[string]bool
	lazyIDs   map[*Term]int
	lazyParts map[int][]*Object
	specMaps  map[int]bool // copies of maps that only the contract knows
	lazyInit  map[int]*Object
	ifaceType map[*Term]types.Type
	hasIndex  bool
	instPtr   map[string]bool
	mute      int // obligations are not recorded (loop discovery)
	noMerge   int
	shared    []shared // clients other operations may use at the same time
	waited    bool
	verified  bool                    // the target has been called
	bounded   bool                    // allocations are checked against the largest packet
	next      map[ssa.Value]*elemBind // map iterations being summarised
}

type Obligation struct {
	Name     string
	Where    string
	Facts    []*Term
	Goal     *Term
	Status   int
	Model    map[string]string
	Detail   string
	Cover    bool // must NOT be provable: reachability of the contract's end
	Trace    []string
	Contract string
}

type outcome struct {
	st   *State
	rets []Value
}

type edge struct {
	st   *State
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
}

func (ex *Exec) note(kind map[string]bool, name string) { kind[name] = true }

/* ---- obligations ---- */

func (ex *Exec) oblige(st *State, name, where string, goal *Term) {
	if st.infeasible() {
		return
	}
	if ex.mute > 0 {
		st.assume(goal)
		return
	}
	o := &Obligation{Name: name, Where: where, Facts: append([]*Term{}, st.pc...), Goal: goal, Trace: st.trace}
	if ex.main != nil {
		o.Contract = ex.main.Name
	}
	ex.obls = append(ex.obls, o)
	st.assume(goal)
}

// safety is an obligation that the code does not panic; specification code is total by convention.
func (ex *Exec) safety(st *State, kind string, in ssa.Instruction, goal *Term) {
	if goal.isTrue() {
		return
	}
	if ex.isSpec(in.Parent()) {
		st.assume(goal)
		return
	}
	ex.oblige(st, "safe:"+kind+"@"+shortFn(in.Parent()), ex.prog.pos(in.Pos()), goal)
}

func shortFn(f *ssa.Function) string {
	n := f.RelString(nil)
	n = strings.ReplaceAll(n, "github.com/waj334/tinygo-mqtt/", "")
	return n
}

func (ex *Exec) isSpec(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	return ex.prog.isSpecFn(f)
}

/* ---- calls ---- */

func (ex *Exec) callFn(st *State, fn *ssa.Function, args, bind []Value, site ssa.CallInstruction) []outcome {
	conn := ex.connArg(st, fn, args, site)
	var pos, sent Value
	if conn != nil {
		g := ex.ghost(st, conn)
		pos, sent = g.F["pos"], g.F["out"]
	}
	out := ex.callFn1(st, fn, args, bind, site)
	for _, o := range out {
		if conn == nil {
			break
		}
		if g := ex.ghost(o.st, conn); g.F["out"] != sent {
			ex.connWrite(o.st, conn, site)
		} else if g.F["pos"] != pos {
			ex.underLock(o.st, "connMutex", "the connection is read", site)
		}
	}
	if len(ex.shared) > 0 && isPacket(fn, "WriteTo") {
		for _, o := range out {
			ex.setWorld(o.st, "lastsent", ex.box(o.st, args[0], fn.Signature.Recv().Type()))
		}
	}
	if len(ex.shared) > 0 && isPacket(fn, "ReadFrom") {
		for _, o := range out {
			ex.setWorld(o.st, "lastread", ex.box(o.st, args[0], fn.Signature.Recv().Type()))
		}
	}
	return out
}

// connArg is the connection of a client that the client hands to another package.
func (ex *Exec) connArg(st *State, fn *ssa.Function, args []Value, site ssa.CallInstruction) *Term {
	if len(ex.shared) == 0 || site == nil || ex.isSpec(site.Parent()) || fn.Pkg == nil || fn.Pkg == site.Parent().Pkg {
		return nil
	}
	for _, a := range args {
		p, ok := a.(*Term)
		if !ok {
			continue
		}
		if id, ok := st.lazy[p]; ok {
			p = ex.c.Ptr(id, "")
		}
		if p.Op == OpPtr {
			if o := st.heap[int(p.V)]; o != nil {
				if g, ok := o.Val.(*GhostV); ok && g.Kind == "conn" {
					return p
				}
			}
		}
	}
	return nil
}

// isPacket: fn decodes or encodes a control packet.
func isPacket(fn *ssa.Function, method string) bool {
	if fn.Name() != method || fn.Signature.Recv() == nil || fn.Pkg == nil || !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/mqtt/packets") {
		return false
	}
	t, ptr := fn.Signature.Recv().Type().(*types.Pointer)
	return ptr && typeName(t.Elem()) != "packets.FixedHeader"
}

func (ex *Exec) callFn1(st *State, fn *ssa.Function, args, bind []Value, site ssa.CallInstruction) []outcome {
	name := fnName(fn)
	if in, ok := intrinsics[name]; ok {
		return in(ex, st, fn, args, site)
	}
	if h := prefixIntrinsic(name); h != nil {
		return h(ex, st, fn, args, site)
	}
	// the target of the contract being executed
	if site != nil && len(st.frames) > 0 {
		// directly, or through helpers that are specification themselves
		k := len(st.frames) - 1
		for k > 0 && st.frames[k].con == nil && ex.isSpec(st.frames[k].fn) {
			k--
		}
		fr := st.frames[k]
		if fr.con != nil && fr.con.Target == fn && fr.fn == fr.con.Harness {
			if fr.use {
				return ex.havocCall(st, k, fn, args, site)
			}
			if !fr.called {
				return ex.verifyCall(st, k, fn, args)
			}
		}
	}
	if con := ex.prog.usable(fn, ex); con != nil {
		ex.note(ex.used, con.Name)
		return ex.useContract(st, con, args)
	}
	if ex.isSpec(fn) && ex.prog.isRecursive(fn) {
		return ex.callRec(st, fn, args)
	}
	return ex.inline(st, fn, args, bind)
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.RelString(nil)
}

const maxDepth = 40

func (ex *Exec) inline(st *State, fn *ssa.Function, args, bind []Value) []outcome {
	if fn.Blocks == nil {
		unsupported("no body and no model: %s", fnName(fn))
	}
	if len(st.frames) > maxDepth {
		unsupported("call depth exceeded in %s", fnName(fn))
	}
	if !ex.isSpec(fn) {
		if p := fn.Package(); p != nil && !ex.prog.inModule(p.Pkg.Path()) {
			unsupported("library function without a model: %s", fnName(fn))
		} else if p == nil && fn.Synthetic == "" {
			unsupported("function without package: %s", fnName(fn))
		}
		ex.note(ex.inlined, shortFn(fn))
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		fr.env[v] = bind[i]
	}
	return ex.runFrame(st, fr)
}

func (ex *Exec) runFrame(st *State, fr *Frame) []outcome {
	n := len(st.frames)
	st.frames = append(st.frames[:n:n], fr)
	if ex.debug {
		fmt.Fprintf(os.Stderr, "%s> %s\n", strings.Repeat(" ", n), shortFn(fr.fn))
	}
	g := ex.prog.cfg(fr.fn)
	_, exits, rets := ex.region(fr.fn, g, nil, []edge{{st, nil, fr.fn.Blocks[0]}})
	if len(exits) > 0 {
		panic("exit edges from a function")
	}
	var out []outcome
	for _, r := range rets {
		f := r.st.top()
		r.st.frames = r.st.frames[:n:n]
		if n > 0 {
			r.st.frames[n-1] = r.st.frames[n-1].clone()
		}
		if fr.use {
			r.rets = f.rets
		}
		out = append(out, r)
	}
	return ex.mergeOutcomes(out, ex.isSpec(fr.fn) && fr.con == nil)
}

func (ex *Exec) mergeOutcomes(out []outcome, spec bool) []outcome {
	var res []outcome
next:
	for _, o := range out {
		if o.st.infeasible() {
			continue
		}
		for i := range res {
			if m, ok := ex.mergeOutcome(res[i], o, spec); ok {
				res[i] = m
				continue next
			}
		}
		res = append(res, o)
	}
	return res
}

func (ex *Exec) mergeOutcome(a, b outcome, spec bool) (outcome, bool) {
	m, rets, ok := mergeStates(a.st, b.st, nil, a.rets, b.rets, spec)
	if !ok {
		return outcome{}, false
	}
	return outcome{m, rets}, true
}

/* ---- regions ---- */

// region executes the blocks of set (nil: all) from the entry edges. Edges to head (the loop header, when set is a loop)
// come back as back edges, edges leaving the set as exits.
func (ex *Exec) region(fn *ssa.Function, g *CFG, loop *Loop, entry []edge) (back, exits []edge, rets []outcome) {
	pending := map[*ssa.BasicBlock][]edge{}
	add := func(e edge) {
		if e.st.infeasible() {
			return
		}
		if loop != nil {
			if e.to == loop.Head {
				back = append(back, e)
				return
			}
			if !loop.Blocks[e.to] {
				exits = append(exits, e)
				return
			}
		}
		pending[e.to] = append(pending[e.to], e)
	}
	for _, e := range entry {
		if loop != nil && e.to == loop.Head {
			pending[e.to] = append(pending[e.to], e)
		} else {
			add(e)
		}
	}
	for _, b := range g.RPO {
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		delete(pending, b)
		inner := g.LoopOf[b]
		if inner != nil && inner.Head == b && inner != loop {
			for _, st := range ex.join(b, es) {
				ex2, rs := ex.runLoop(fn, g, inner, st)
				for _, e := range ex2 {
					add(e)
				}
				rets = append(rets, rs...)
			}
			continue
		}
		var sts []*State
		if loop != nil && b == loop.Head {
			for _, e := range es {
				sts = append(sts, e.st)
			}
		} else {
			sts = ex.join(b, es)
		}
		for _, st := range sts {
			ex.block(st, b, 0, add, func(o outcome) { rets = append(rets, o) })
		}
	}
	if len(pending) > 0 {
		panic("blocks left over in " + fn.String())
	}
	return
}

// join evaluates the phis of b on every incoming edge and merges what can be merged.
func (ex *Exec) join(b *ssa.BasicBlock, es []edge) []*State {
	var sts []*State
	for _, e := range es {
		ex.phis(e.st, e.from, b)
		sts = append(sts, e.st)
	}
	if len(sts) < 2 {
		return sts
	}
	if ex.noMerge > 0 && len(sts) <= 24 && !ex.isSpec(b.Parent()) {
		return sts
	}
	live := ex.prog.liveAt(b)
	spec := ex.isSpec(b.Parent()) && sts[0].top().con == nil
	var out []*State
next:
	for _, s := range sts {
		for i := range out {
			if m, _, ok := mergeStates(out[i], s, live, nil, nil, spec); ok {
				out[i] = m
				continue next
			}
		}
		out = append(out, s)
	}
	return out
}

func (ex *Exec) phis(st *State, from, b *ssa.BasicBlock) {
	if from == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == from {
			idx = i
		}
	}
	vals := map[ssa.Value]Value{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[p] = ex.val(st, p.Edges[idx])
	}
	if len(vals) == 0 {
		return
	}
	st.frames[len(st.frames)-1] = st.top().clone()
	for k, v := range vals {
		st.top().env[k] = v
	}
}

func (ex *Exec) block(st *State, b *ssa.BasicBlock, i int, add func(edge), ret func(outcome)) {
	c := ex.c
	for ; i < len(b.Instrs); i++ {
		ex.steps++
		if ex.steps > 3_000_000 {
			unsupported("step budget exceeded")
		}
		if st.infeasible() {
			return
		}
		if late() {
			unsupported(lateMsg)
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			add(edge{st, b, b.Succs[0]})
			return
		case *ssa.If:
			k := ex.term(st, in.Cond)
			k = st.known(k)
			if !k.isTrue() && !k.isFalse() && ex.prune(st) {
				if r, _ := ex.sol.Check(st.pc, k, false); r == Proved {
					k = c.T
				} else if r, _ := ex.sol.Check(st.pc, c.Not(k), false); r == Proved {
					k = c.F
				}
			}
			if k.isTrue() {
				add(edge{st, b, b.Succs[0]})
				return
			}
			if k.isFalse() {
				add(edge{st, b, b.Succs[1]})
				return
			}
			st2 := st.clone()
			ex.branch(st, k, true)
			ex.branch(st2, k, false)
			add(edge{st, b, b.Succs[0]})
			add(edge{st2, b, b.Succs[1]})
			return
		case *ssa.Return:
			var rs []Value
			for _, r := range in.Results {
				rs = append(rs, ex.val(st, r))
			}
			ret(outcome{st, rs})
			return
		case *ssa.Panic:
			ex.safety(st, "panic", in, c.F)
			return
		case *ssa.RunDefers:
			outs := []*State{st}
			fr := st.top()
			for k := len(fr.defers) - 1; k >= 0; k-- {
				var next []*State
				for _, s := range outs {
					d := s.top().defers[k]
					for _, o := range ex.invokeValue(s, d.fn, d.args, d.call) {
						next = append(next, o.st)
					}
				}
				outs = next
			}
			for _, s := range outs {
				s.frames[len(s.frames)-1] = s.top().clone()
				s.top().defers = nil
				ex.block(s, b, i+1, add, ret)
			}
			return
		case *ssa.Call:
			outs := ex.doCall(st, in, in.Common())
			if len(outs) == 1 {
				st = outs[0].st
				ex.setCall(st, in, outs[0].rets)
				continue
			}
			for _, o := range outs {
				ex.setCall(o.st, in, o.rets)
				ex.block(o.st, b, i+1, add, ret)
			}
			return
		case *ssa.Select:
			for _, o := range ex.doSelect(st, in) {
				o.st.top().env[in] = o.rets[0]
				ex.block(o.st, b, i+1, add, ret)
			}
			return
		case *ssa.TypeAssert:
			for _, o := range ex.typeAssert(st, in) {
				o.st.top().env[in] = o.rets[0]
				ex.block(o.st, b, i+1, add, ret)
			}
			return
		case *ssa.UnOp:
			if in.Op == token.MUL {
				sts := ex.resolve(st, ex.term(st, in.X), in)
				for _, r := range sts {
					r.st.top().env[in] = r.st.load(r.ptr)
					ex.loadHook(r.st, in, r.ptr)
					if len(sts) > 1 {
						ex.block(r.st, b, i+1, add, ret)
					}
				}
				if len(sts) == 1 {
					st = sts[0].st
					continue
				}
				return
			}
			if in.Op == token.ARROW {
				for _, o := range ex.chanRecv(st, in) {
					o.st.top().env[in] = o.rets[0]
					ex.block(o.st, b, i+1, add, ret)
				}
				return
			}
			ex.instr(st, in)
		case *ssa.Store:
			sts := ex.resolve(st, ex.term(st, in.Addr), in)
			for _, r := range sts {
				ex.storeHook(r.st, in, r.ptr)
				r.st.store(r.ptr, ex.val(r.st, in.Val))
				if len(sts) > 1 {
					ex.block(r.st, b, i+1, add, ret)
				}
			}
			if len(sts) == 1 {
				st = sts[0].st
				continue
			}
			return
		default:
			ex.instr(st, b.Instrs[i])
		}
	}
	panic("fell off block")
}

// prune: decide branches with the solver.
func (ex *Exec) prune(st *State) bool { return ex.opts["prune"] }

func (ex *Exec) setCall(st *State, in *ssa.Call, rets []Value) {
	switch n := in.Common().Signature().Results().Len(); {
	case n == 0:
		st.top().env[in] = nil
	case n == 1:
		st.top().env[in] = rets[0]
	default:
		st.top().env[in] = TupleV(rets)
	}
}

// branch adds the decision to the path condition, substituting solved contract variables.
func (ex *Exec) branch(st *State, k *Term, taken bool) {
	if !taken {
		k = ex.c.Not(k)
	}
	ex.assumeSolve(st, k)
}

// assumeSolve assumes k; equations defining variables a contract introduced are substituted away.
func (ex *Exec) assumeSolve(st *State, k *Term) {
	c := ex.c
	if k.Op == OpAnd {
		for _, a := range k.Args {
			ex.assumeSolve(st, a)
		}
		return
	}
	if k.Op == OpVar && ex.freshVars[k] {
		st.subst(map[*Term]*Term{k: c.T})
		return
	}
	if k.Op == OpNot && ex.freshVars[k.Args[0]] {
		st.subst(map[*Term]*Term{k.Args[0]: c.F})
		return
	}
	if k.Op == OpEq {
		a, b := k.Args[0], k.Args[1]
		for i := 0; i < 2; i++ {
			if ex.freshVars[a] && !contains(b, a) {
				st.subst(map[*Term]*Term{a: b})
				return
			}
			a, b = b, a
		}
		if a.S.K == KBV {
			d := c.lin(c.Sub(a, b))
			var best *Term
			for t, x := range d.m {
				if ex.freshVars[t] && (x == 1 || x == mask(d.w)) && (best == nil || t.ID > best.ID) {
					best = t
				}
			}
			if best != nil {
				x := d.m[best]
				delete(d.m, best)
				r := c.unlin(d)
				if x == 1 {
					r = c.Neg(r)
				}
				if !contains(r, best) {
					st.subst(map[*Term]*Term{best: r})
					return
				}
			}
		}
	}
	st.assume(k)
}

func (ex *Exec) FreshC(name string, s Sort) *Term {
	v := ex.c.Fresh(name, s)
	ex.freshVars[v] = true
	return v
}

/* ---- operands ---- */

func (ex *Exec) val(st *State, v ssa.Value) Value {
	c := ex.c
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constant(st, x)
	case *ssa.Global:
		return c.Ptr(st.global(x), "")
	case *ssa.Function:
		return &FuncV{Fn: x}
	case *ssa.Builtin:
		return &FuncV{Spec: "builtin:" + x.Name()}
	}
	r, ok := st.top().env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s = %s in %s", v.Name(), v, st.top().fn))
	}
	return r
}

func (ex *Exec) term(st *State, v ssa.Value) *Term {
	x := ex.val(st, v)
	if t, ok := x.(*Term); ok {
		return t
	}
	if f, ok := x.(*FuncV); ok {
		return ex.funcRef(f)
	}
	unsupported("operand %v is a %T, not a scalar", v, x)
	return nil
}

func (ex *Exec) funcRef(f *FuncV) *Term {
	n := f.Spec
	if f.Fn != nil {
		n = f.Fn.String()
	}
	return ex.c.Glob("func:" + n)
}

func (ex *Exec) constant(st *State, k *ssa.Const) Value {
	c := ex.c
	if k.Value == nil {
		return st.zero(k.Type())
	}
	s, ok := scalarSort(k.Type())
	if !ok {
		return st.zero(k.Type())
	}
	switch s.K {
	case KBool:
		return c.B(constant.BoolVal(k.Value))
	case KSeq:
		return c.StrConst(constant.StringVal(k.Value))
	case KBV:
		if k.Value.Kind() == constant.Float {
			return c.UF("float:"+k.Value.ExactString(), s)
		}
		if v, ok := constant.Int64Val(constant.ToInt(k.Value)); ok {
			if b, ok := under(k.Type()).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
				return c.UF("float:"+fmt.Sprint(v), s)
			}
			return c.K(uint64(v), s.W)
		}
		v, _ := constant.Uint64Val(constant.ToInt(k.Value))
		return c.K(v, s.W)
	}
	unsupported("constant %v", k)
	return nil
}

// global returns the object of a package-level variable. Error variables and other interface or pointer globals hold a
// unique non-nil reference.
func (st *State) global(g *ssa.Global) int {
	key := "global:" + g.RelString(nil)
	for id, o := range st.heap {
		if o.Name == key {
			return id
		}
	}
	t := g.Type().(*types.Pointer).Elem()
	var v Value
	if s, ok := scalarSort(t); ok && s.K == KRef {
		v = st.ex.c.Glob(g.RelString(nil))
	} else {
		v = st.symbolic(t, key)
	}
	id := st.ex.prog.globalID(key)
	st.heap[id] = &Object{ID: id, Name: key, T: t, Val: v}
	return id
}

type resolved struct {
	st  *State
	ptr *Term
}

// resolve turns a pointer operand into pointers to known objects, forking on conditional pointers.
func (ex *Exec) resolve(st *State, p *Term, in ssa.Instruction) []resolved {
	c := ex.c
	switch p.Op {
	case OpPtr:
		return []resolved{{st, p}}
	case OpIte:
		st2 := st.clone()
		st.assume(p.Args[0])
		st2.assume(c.Not(p.Args[0]))
		return append(ex.resolve(st, p.Args[1], in), ex.resolve(st2, p.Args[2], in)...)
	case OpNil:
		ex.safety(st, "nil-dereference", in, c.F)
		return nil
	}
	// a symbolic reference: it must not be nil, and stands for an object of its own
	var t types.Type
	switch x := in.(type) {
	case *ssa.UnOp:
		t = x.X.Type()
	case *ssa.Store:
		t = x.Addr.Type()
	case *ssa.FieldAddr:
		t = x.X.Type()
	case *ssa.IndexAddr:
		t = x.X.Type()
	}
	if t == nil {
		unsupported("dereference of symbolic %v", p)
	}
	if r := st.known(c.Eq(p, c.Nil)); !r.isFalse() {
		ex.safety(st, "nil-dereference", in, c.Ne(p, c.Nil))
	}
	return []resolved{{st, ex.materialize(st, p, under(t).(*types.Pointer).Elem())}}
}

// materialize gives a symbolic pointer an object.
func (ex *Exec) materialize(st *State, p *Term, t types.Type) *Term {
	id, ok := st.lazy[p]
	if !ok || st.heap[id] == nil {
		id, ok = ex.lazyIDs[p]
		if !ok {
			ex.nobj++
			id = ex.nobj
			ex.lazyIDs[p] = id
			o := &Object{ID: id, Name: "*" + p.String(), T: t}
			n := ex.nobj
			o.Val = st.symbolic(t, "*"+p.String())
			ex.lazyInit[id] = o
			for i := n + 1; i <= ex.nobj; i++ { // its slices and maps
				if part := st.heap[i]; part != nil {
					ex.lazyInit[i] = part
					ex.lazyParts[id] = append(ex.lazyParts[id], part)
				}
			}
		} else {
			st.symbolic(t, "*"+p.String()) // the facts that come with the type
		}
		st.heap[id] = ex.lazyInit[id]
		for _, part := range ex.lazyParts[id] {
			if st.heap[part.ID] == nil {
				st.heap[part.ID] = part
			}
		}
		st.lazy[p] = id
	}
	return ex.c.Ptr(id, "")
}

/* ---- instructions ---- */

func (ex *Exec) instr(st *State, in ssa.Instruction) {
	c := ex.c
	env := st.top().env
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		id := st.newObj(x.Comment, t, st.zero(t))
		env[x] = c.Ptr(id, "")
	case *ssa.BinOp:
		env[x] = ex.binop(st, x)
	case *ssa.UnOp:
		t := ex.term(st, x.X)
		switch x.Op {
		case token.NOT:
			env[x] = c.Not(t)
		case token.SUB:
			if isFloat(x.Type()) {
				env[x] = c.UF("fneg", t.S, t)
			} else {
				env[x] = c.Neg(t)
			}
		case token.XOR:
			env[x] = c.Sub(c.Neg(t), c.K(1, t.S.W))
		default:
			unsupported("unop %v", x)
		}
	case *ssa.ChangeType:
		env[x] = ex.val(st, x.X)
		if s, ok := env[x].(*StructV); ok {
			env[x] = &StructV{T: x.Type(), F: s.F}
		}
		if m, ok := env[x].(*MapV); ok {
			env[x] = &MapV{T: under(x.Type()).(*types.Map), Obj: m.Obj, IsNil: m.IsNil}
		}
	case *ssa.Convert:
		env[x] = ex.convert(st, ex.val(st, x.X), x.X.Type(), x.Type(), x)
	case *ssa.MultiConvert:
		env[x] = ex.convert(st, ex.val(st, x.X), x.X.Type(), x.Type(), x)
	case *ssa.ChangeInterface:
		env[x] = ex.val(st, x.X)
	case *ssa.MakeInterface:
		env[x] = ex.box(st, ex.val(st, x.X), x.X.Type())
	case *ssa.MakeClosure:
		f := &FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, ex.val(st, b))
		}
		env[x] = f
	case *ssa.MakeMap:
		mt := under(x.Type()).(*types.Map)
		id := st.newObj("map", x.Type(), c.MapEmpty(mapSort(mt)))
		env[x] = &MapV{T: mt, Obj: id, IsNil: c.F}
	case *ssa.MakeSlice:
		l, cp := c.toInt(ex.term(st, x.Len), x.Len.Type()), c.toInt(ex.term(st, x.Cap), x.Cap.Type())
		ex.safety(st, "make-size", x, c.And(c.Sle(c.I(0), l), c.Sle(l, cp)))
		ex.allocHook(st, x, cp)
		et := under(x.Type()).(*types.Slice).Elem()
		id := st.newObj("make", x.Type(), c.Zeros(elemSort(et), cp))
		env[x] = &SliceV{Elem: et, Base: c.Ptr(id, ""), Off: c.I(0), Len: l, Cap: cp, IsNil: c.F}
	case *ssa.MakeChan:
		env[x] = ex.makeChan(st, x)
	case *ssa.Slice:
		env[x] = ex.slice(st, x)
	case *ssa.FieldAddr:
		p := ex.term(st, x.X)
		if p.Op != OpPtr {
			rs := ex.resolve(st, p, x)
			if len(rs) != 1 {
				unsupported("field address of %v", p)
			}
			p = rs[0].ptr
		}
		env[x] = c.FieldPtr(p, x.Field)
	case *ssa.Field:
		s, ok := ex.val(st, x.X).(*StructV)
		if !ok {
			unsupported("field of %T", ex.val(st, x.X))
		}
		env[x] = s.F[x.Field]
	case *ssa.IndexAddr:
		i := c.toInt(ex.term(st, x.Index), x.Index.Type())
		switch b := ex.val(st, x.X).(type) {
		case *SliceV:
			ex.safety(st, "index", x, c.And(c.Sle(c.I(0), i), c.Slt(i, b.Len)))
			if b.Base.Op == OpNil {
				env[x] = c.Nil
				return
			}
			if v, ok := st.load(b.Base).(*Term); !ok || v.S != elemSort(b.Elem) {
				env[x] = b.Base // one-element view of a scalar
			} else {
				env[x] = c.IndexPtr(b.Base, c.Add(b.Off, i))
			}
		case *Term:
			n := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array).Len()
			ex.safety(st, "index", x, c.And(c.Sle(c.I(0), i), c.Slt(i, c.I(n))))
			env[x] = c.IndexPtr(b, i)
		default:
			unsupported("index address of %T", b)
		}
	case *ssa.Index:
		i := c.toInt(ex.term(st, x.Index), x.Index.Type())
		t := ex.term(st, x.X)
		var l *Term
		if a, ok := under(x.X.Type()).(*types.Array); ok {
			l = c.I(a.Len())
		} else {
			l = c.Len(t)
		}
		ex.safety(st, "index", x, c.And(c.Sle(c.I(0), i), c.Slt(i, l)))
		var ls []*Term
		for j, lf := range leaves(x.Type()) {
			ls = append(ls, c.At(t, i, j, lf.S))
		}
		env[x], _ = st.fromLeaves(x.Type(), ls)
	case *ssa.Lookup:
		env[x] = ex.lookup(st, x)
	case *ssa.MapUpdate:
		m := ex.val(st, x.Map).(*MapV)
		ex.safety(st, "nil-map", x, c.Not(m.IsNil))
		ex.mapHook(st, x, m, x.Map)
		if m.Obj < 0 {
			return
		}
		k, v := st.toLeaves(ex.val(st, x.Key)), st.toLeaves(ex.val(st, x.Value))
		ex.entryHook(st, x, m, k)
		st.setObj(m.Obj, c.MapPut(st.mapContent(m), k, v))
	case *ssa.Range:
		switch m := ex.val(st, x.X).(type) {
		case *MapV:
			ex.mapHook(st, x, m, x.X)
			env[x] = &IterV{M: m, Snap: st.mapContent(m)}
		default:
			unsupported("range over %T", m)
		}
	case *ssa.Next:
		it, ok := ex.val(st, x.Iter).(*IterV)
		if !ok {
			unsupported("iteration over %T", ex.val(st, x.Iter))
		}
		mt := it.M.T
		el := ex.next[x.Iter]
		if el == nil {
			unsupported("map iteration outside the loop rule")
		}
		if el.done {
			env[x] = TupleV{c.F, st.zero(mt.Key()), st.zero(mt.Elem())}
			return
		}
		k, _ := st.fromLeaves(mt.Key(), el.k)
		v, _ := st.fromLeaves(mt.Elem(), el.v)
		st.assume(c.MapHas(it.Snap, el.k))
		for j := range el.v {
			st.assume(c.Eq(c.MapGet(it.Snap, el.k, j, el.v[j].S), el.v[j]))
		}
		sub := map[*Term]*Term{}
		for i, t := range el.k {
			sub[c.Var(fmt.Sprintf("#k.%d", i), t.S)] = t
		}
		for i, t := range el.v {
			sub[c.Var(fmt.Sprintf("#v.%d", i), t.S)] = t
		}
		for _, p := range append([]*Term{}, st.pc...) {
			if p.Op == OpForall && p.Args[0] == it.Snap {
				st.assume(c.Subst(p.Args[1], sub))
			}
		}
		env[x] = TupleV{c.T, k, v}
	case *ssa.Extract:
		t, ok := ex.val(st, x.Tuple).(TupleV)
		if !ok {
			unsupported("extract from %T", ex.val(st, x.Tuple))
		}
		env[x] = t[x.Index]
	case *ssa.Defer:
		d := deferred{call: x}
		com := x.Common()
		if com.IsInvoke() {
			unsupported("defer of interface method")
		}
		if b, ok := com.Value.(*ssa.Builtin); ok {
			d.fn = &FuncV{Spec: "builtin:" + b.Name()}
		} else {
			d.fn = ex.val(st, com.Value)
		}
		for _, a := range com.Args {
			d.args = append(d.args, ex.val(st, a))
		}
		st.top().defers = append(st.top().defers, d)
	case *ssa.Send:
		ex.chanSend(st, x)
	case *ssa.Go:
		unsupported("go statement")
	default:
		unsupported("instruction %T: %v", in, in)
	}
}

func (st *State) setObj(id int, v Value) {
	n := *st.heap[id]
	n.Val = v
	st.heap[id] = &n
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (c *Ctx) toInt(t *Term, typ types.Type) *Term {
	if t.S.W == 64 {
		return t
	}
	if isSigned(typ) {
		return c.Sext(t, 64)
	}
	return c.Zext(t, 64)
}

func (ex *Exec) binop(st *State, x *ssa.BinOp) Value {
	c := ex.c
	va, vb := ex.val(st, x.X), ex.val(st, x.Y)
	if x.Op == token.EQL || x.Op == token.NEQ {
		e := ex.equal(st, va, vb)
		if x.Op == token.NEQ {
			e = c.Not(e)
		}
		return e
	}
	a, ok1 := va.(*Term)
	b, ok2 := vb.(*Term)
	if !ok1 || !ok2 {
		unsupported("binop on %T", va)
	}
	if isFloat(x.X.Type()) {
		if x.Op == token.LSS || x.Op == token.GTR || x.Op == token.LEQ || x.Op == token.GEQ {
			return c.UF("f"+x.Op.String(), BoolS, a, b)
		}
		return c.UF("f"+x.Op.String(), a.S, a, b)
	}
	if a.S.K == KSeq {
		switch x.Op {
		case token.ADD:
			return c.Cat(a.S, a, b)
		}
		unsupported("string operator %v", x.Op)
	}
	signed := isSigned(x.X.Type())
	switch x.Op {
	case token.ADD:
		return c.Add(a, b)
	case token.SUB:
		return c.Sub(a, b)
	case token.MUL:
		return c.Mul(a, b)
	case token.QUO, token.REM:
		ex.safety(st, "division", x, c.Ne(b, c.K(0, b.S.W)))
		switch {
		case x.Op == token.QUO && signed:
			return c.Sdiv(a, b)
		case x.Op == token.QUO:
			return c.Udiv(a, b)
		case signed:
			return c.Srem(a, b)
		}
		return c.Urem(a, b)
	case token.AND:
		if a.S.K == KBool {
			return c.And(a, b)
		}
		return c.AndB(a, b)
	case token.OR:
		if a.S.K == KBool {
			return c.Or(a, b)
		}
		return c.OrB(a, b)
	case token.XOR:
		return c.XorB(a, b)
	case token.AND_NOT:
		return c.AndB(a, c.Sub(c.Neg(b), c.K(1, b.S.W)))
	case token.SHL, token.SHR:
		n := b
		if isSigned(x.Y.Type()) {
			ex.safety(st, "shift", x, c.Sle(c.K(0, b.S.W), b))
		}
		// bring the count to the width of a; counts beyond the width saturate
		if n.S.W < a.S.W {
			n = c.Zext(n, a.S.W)
		} else if n.S.W > a.S.W {
			big := c.Ule(c.K(uint64(a.S.W), n.S.W), n)
			n = c.Ite(big, c.K(uint64(a.S.W), a.S.W), c.Extract(n, 0, a.S.W))
		}
		if x.Op == token.SHL {
			return c.Shl(a, n)
		}
		if signed {
			return c.Ashr(a, n)
		}
		return c.Lshr(a, n)
	case token.LSS:
		return ex.less(a, b, signed)
	case token.GTR:
		return ex.less(b, a, signed)
	case token.LEQ:
		return c.Not(ex.less(b, a, signed))
	case token.GEQ:
		return c.Not(ex.less(a, b, signed))
	}
	unsupported("binop %v", x.Op)
	return nil
}

func (ex *Exec) less(a, b *Term, signed bool) *Term {
	if signed {
		return ex.c.Slt(a, b)
	}
	return ex.c.Ult(a, b)
}

// equal is Go's == on two values.
func (ex *Exec) equal(st *State, a, b Value) *Term {
	c := ex.c
	switch x := a.(type) {
	case *Term:
		if f, ok := b.(*FuncV); ok {
			return c.Eq(x, ex.funcRef(f))
		}
		return c.Eq(x, b.(*Term))
	case *StructV:
		y := b.(*StructV)
		var es []*Term
		for i := range x.F {
			es = append(es, ex.equal(st, x.F[i], y.F[i]))
		}
		return c.And(es...)
	case *SliceV:
		y := b.(*SliceV)
		if y.IsNil.isTrue() {
			return x.IsNil
		}
		if x.IsNil.isTrue() {
			return y.IsNil
		}
	case *MapV:
		y := b.(*MapV)
		if y.Obj < 0 {
			return x.IsNil
		}
		if x.Obj < 0 {
			return y.IsNil
		}
	case *FuncV:
		return ex.equal(st, ex.funcRef(x), b)
	}
	unsupported("comparison of %T", a)
	return nil
}

// same is content equality, used by specifications: maps and slices by their contents.
func (ex *Exec) same(st *State, a, b Value) *Term {
	la, lb := st.toLeaves(a), st.toLeaves(b)
	if len(la) != len(lb) {
		unsupported("comparison of different shapes")
	}
	var es []*Term
	for i := range la {
		es = append(es, ex.c.Eq(la[i], lb[i]))
	}
	return ex.c.And(es...)
}

func (ex *Exec) convert(st *State, v Value, from, to types.Type, in ssa.Instruction) Value {
	c := ex.c
	fs, fok := scalarSort(from)
	ts, tok := scalarSort(to)
	if isFloat(from) || isFloat(to) {
		if isFloat(from) && isFloat(to) {
			return v
		}
		return c.UF("conv_"+typeName(under(from))+"_"+typeName(under(to)), ts, v.(*Term))
	}
	if fok && tok {
		t := v.(*Term)
		switch {
		case fs.K == KBV && ts.K == KBV:
			if ts.W < fs.W {
				return c.Extract(t, 0, ts.W)
			}
			if isSigned(from) {
				return c.Sext(t, ts.W)
			}
			return c.Zext(t, ts.W)
		case fs.K == ts.K:
			return t
		}
	}
	if fok && fs == Bytes {
		if s, ok := under(to).(*types.Slice); ok { // []byte(string): a fresh copy
			t := v.(*Term)
			if elemSort(s.Elem()) == Bytes {
				sl := st.sliceOf(s.Elem(), t, c.F)
				return sl
			}
		}
	}
	if tok && ts == Bytes {
		if s, ok := v.(*SliceV); ok && elemSort(s.Elem) == Bytes {
			return st.sliceContent(s)
		}
	}
	if _, ok := v.(*SliceV); ok {
		return v
	}
	unsupported("conversion %v to %v", from, to)
	return nil
}

func (ex *Exec) box(st *State, v Value, t types.Type) *Term {
	ex.prog.regType(t)
	return ex.c.Box(types.TypeString(t, nil), st.toLeaves(v)...)
}

// unbox gives the value inside a Box term.
func (ex *Exec) unbox(st *State, b *Term) (Value, types.Type) {
	t := ex.prog.typeByName(b.Name)
	v, _ := st.fromLeaves(t, b.Args)
	return v, t
}

func (ex *Exec) slice(st *State, x *ssa.Slice) Value {
	c := ex.c
	bound := func(v ssa.Value, def *Term) *Term {
		if v == nil {
			return def
		}
		return c.toInt(ex.term(st, v), v.Type())
	}
	switch b := ex.val(st, x.X).(type) {
	case *Term:
		if b.S.K == KSeq { // string
			l := c.Len(b)
			lo, hi := bound(x.Low, c.I(0)), bound(x.High, l)
			ex.safety(st, "slice", x, c.And(c.Sle(c.I(0), lo), c.Sle(lo, hi), c.Sle(hi, l)))
			return c.SubSeq(b, lo, c.Sub(hi, lo))
		}
		// pointer to array
		at := under(under(x.X.Type()).(*types.Pointer).Elem()).(*types.Array)
		l := c.I(at.Len())
		lo, hi := bound(x.Low, c.I(0)), bound(x.High, l)
		ex.safety(st, "slice", x, c.And(c.Sle(c.I(0), lo), c.Sle(lo, hi), c.Sle(hi, l)))
		return &SliceV{Elem: at.Elem(), Base: b, Off: lo, Len: c.Sub(hi, lo), Cap: c.Sub(l, lo), IsNil: c.F}
	case *SliceV:
		lo, hi := bound(x.Low, c.I(0)), bound(x.High, b.Len)
		max := bound(x.Max, b.Cap)
		ex.safety(st, "slice", x, c.And(c.Sle(c.I(0), lo), c.Sle(lo, hi), c.Sle(hi, max), c.Sle(max, b.Cap)))
		return &SliceV{Elem: b.Elem, Base: b.Base, Off: c.Add(b.Off, lo), Len: c.Sub(hi, lo), Cap: c.Sub(max, lo), IsNil: b.IsNil}
	}
	unsupported("slice of %T", ex.val(st, x.X))
	return nil
}

func (ex *Exec) lookup(st *State, x *ssa.Lookup) Value {
	c := ex.c
	switch m := ex.val(st, x.X).(type) {
	case *MapV:
		ex.mapHook(st, x, m, x.X)
		key := st.toLeaves(ex.val(st, x.Index))
		cont := st.mapContent(m)
		has := c.MapHas(cont, key)
		zero := st.toLeaves(st.zero(m.T.Elem()))
		var ls []*Term
		for j, l := range leaves(m.T.Elem()) {
			ls = append(ls, c.Ite(has, c.MapGet(cont, key, j, l.S), zero[j]))
		}
		v, _ := st.fromLeaves(m.T.Elem(), ls)
		if x.CommaOk {
			return TupleV{v, has}
		}
		return v
	case *Term:
		i := c.toInt(ex.term(st, x.Index), x.Index.Type())
		ex.safety(st, "index", x, c.And(c.Sle(c.I(0), i), c.Slt(i, c.Len(m))))
		return c.At(m, i, 0, BV(8))
	}
	unsupported("lookup in %T", ex.val(st, x.X))
	return nil
}

func (ex *Exec) typeAssert(st *State, x *ssa.TypeAssert) []outcome {
	c := ex.c
	t := ex.term(st, x.X)
	var out []outcome
	var split func(st *State, t *Term)
	split = func(st *State, t *Term) {
		if t.Op == OpIte {
			st2 := st.clone()
			st.assume(t.Args[0])
			st2.assume(c.Not(t.Args[0]))
			split(st, t.Args[1])
			split(st2, t.Args[2])
			return
		}
		var ok *Term
		var v Value
		_, toIface := under(x.AssertedType).(*types.Interface)
		switch t.Op {
		case OpNil:
			ok = c.F
		case OpBox:
			bt := ex.prog.typeByName(t.Name)
			if toIface {
				ok = c.B(types.Implements(bt, under(x.AssertedType).(*types.Interface)))
				v = t
			} else {
				ok = c.B(types.Identical(bt, x.AssertedType))
				if ok.isTrue() {
					v, _ = ex.unbox(st, t)
				}
			}
		default:
			n := types.TypeString(x.AssertedType, nil)
			ok = c.UF("istype_"+n, BoolS, t)
			if toIface {
				v = t
			} else {
				var ls []*Term
				for j, l := range leaves(x.AssertedType) {
					ls = append(ls, c.UF(fmt.Sprintf("payload%d_%s", j, n), l.S, t))
				}
				v, _ = st.fromLeaves(x.AssertedType, ls)
				if _, isPtr := under(x.AssertedType).(*types.Pointer); isPtr {
					// interfaces of the client never carry nil pointers (assumption on the environment)
					st.assume(c.Implies(ok, c.Ne(v.(*Term), c.Nil)))
				}
			}
		}
		if !x.CommaOk {
			ex.safety(st, "type-assertion", x, ok)
			if v == nil {
				v = st.zero(x.AssertedType)
			}
			out = append(out, outcome{st, []Value{v}})
			return
		}
		zero := st.zero(x.AssertedType)
		if ok.isTrue() {
			out = append(out, outcome{st, []Value{TupleV{v, c.T}}})
			return
		}
		if ok.isFalse() {
			out = append(out, outcome{st, []Value{TupleV{zero, c.F}}})
			return
		}
		st2 := st.clone()
		st.assume(ok)
		st2.assume(c.Not(ok))
		out = append(out, outcome{st, []Value{TupleV{v, c.T}}}, outcome{st2, []Value{TupleV{zero, c.F}}})
	}
	split(st, t)
	return out
}

/* ---- call dispatch ---- */

func (ex *Exec) doCall(st *State, in *ssa.Call, com *ssa.CallCommon) []outcome {
	var args []Value
	for _, a := range com.Args {
		args = append(args, ex.val(st, a))
	}
	if com.IsInvoke() {
		return ex.invoke(st, ex.term(st, com.Value), com, args, in)
	}
	return ex.invokeValue(st, ex.val(st, com.Value), args, in)
}

func (ex *Exec) invokeValue(st *State, f Value, args []Value, site ssa.CallInstruction) []outcome {
	switch x := f.(type) {
	case *FuncV:
		if strings.HasPrefix(x.Spec, "builtin:") {
			return ex.builtin(st, x.Spec[8:], args, site)
		}
		return ex.callFn(st, x.Fn, args, x.Bind, site)
	case *Term:
		if strings.HasPrefix(x.Name, "func:") && x.Op == OpGlob {
			if fn := ex.prog.fnByName(x.Name[5:]); fn != nil {
				return ex.callFn(st, fn, args, nil, site)
			}
		}
		return ex.unknownFunc(st, x, args, site)
	}
	unsupported("call of %T", f)
	return nil
}

// unknownFunc: a function value supplied by the user returns anything and touches no client state.
func (ex *Exec) unknownFunc(st *State, f *Term, args []Value, site ssa.CallInstruction) []outcome {
	ex.note(ex.trusted, "user-supplied function value")
	if r := st.known(ex.c.Eq(f, ex.c.Nil)); !r.isFalse() {
		ex.safety(st, "nil-function", site, ex.c.Ne(f, ex.c.Nil))
	}
	sig := site.Common().Signature()
	var rets []Value
	for i := 0; i < sig.Results().Len(); i++ {
		rets = append(rets, st.freshValue(sig.Results().At(i).Type(), "fn"))
	}
	return []outcome{{st, rets}}
}

func (ex *Exec) invoke(st *State, recv *Term, com *ssa.CallCommon, args []Value, site ssa.CallInstruction) []outcome {
	c := ex.c
	switch recv.Op {
	case OpIte:
		st2 := st.clone()
		st.assume(recv.Args[0])
		st2.assume(c.Not(recv.Args[0]))
		return append(ex.invoke(st, recv.Args[1], com, args, site), ex.invoke(st2, recv.Args[2], com, args, site)...)
	case OpNil:
		ex.safety(st, "nil-interface", site, c.F)
		return nil
	case OpBox:
		v, t := ex.unbox(st, recv)
		fn := ex.prog.method(t, com.Method)
		if fn == nil {
			unsupported("method %s of %s", com.Method.Name(), t)
		}
		return ex.callFn(st, fn, append([]Value{v}, args...), nil, site)
	case OpPtr:
		if g, ok := st.load(recv).(*GhostV); ok {
			h := ghostMethods[g.Kind+"."+com.Method.Name()]
			if h == nil {
				unsupported("no model of %s.%s", g.Kind, com.Method.Name())
			}
			ex.note(ex.trusted, "model of "+typeName(com.Value.Type())+"."+com.Method.Name())
			return h(ex, st, recv, args, site)
		}
	}
	// symbolic interface value
	if r := st.known(c.Eq(recv, c.Nil)); !r.isFalse() {
		ex.safety(st, "nil-interface", site, c.Ne(recv, c.Nil))
	}
	if com.Method.Name() == "Error" {
		return []outcome{{st, []Value{c.UF("errtext", Bytes, recv)}}}
	}
	if p := ex.ghostOf(st, recv, com.Value.Type()); p != nil {
		g := ex.ghost(st, p)
		h := ghostMethods[g.Kind+"."+com.Method.Name()]
		if h == nil {
			unsupported("no model of %s.%s", g.Kind, com.Method.Name())
		}
		ex.note(ex.trusted, "model of "+typeName(com.Value.Type())+"."+com.Method.Name())
		return h(ex, st, p, args, site)
	}
	unsupported("method %s on symbolic %s", com.Method.Name(), com.Value.Type())
	return nil
}

func (ex *Exec) builtin(st *State, name string, args []Value, site ssa.CallInstruction) []outcome {
	c := ex.c
	one := func(v Value) []outcome { return []outcome{{st, []Value{v}}} }
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case *Term:
			if x.S.K == KSeq {
				return one(c.Len(x))
			}
			if x.S.K == KRef { // channel
				return one(ex.chanLen(st, x, name))
			}
		case *SliceV:
			if name == "cap" {
				return one(x.Cap)
			}
			return one(x.Len)
		case *MapV:
			return one(c.Card(st.mapContent(x)))
		}
	case "append":
		return one(ex.appendTo(st, args[0].(*SliceV), args[1], site))
	case "copy":
		d := args[0].(*SliceV)
		var src *Term
		switch s := args[1].(type) {
		case *SliceV:
			src = st.sliceContent(s)
		case *Term:
			src = s
		}
		fit := c.Sle(c.Len(src), d.Len)
		if k := ex.decide(st.pc, fit); k != nil {
			fit = k
		}
		n := c.Ite(fit, c.Len(src), d.Len)
		if d.Base.Op == OpNil {
			return one(c.I(0))
		}
		old := st.loadSeq(d.Base, d.Elem)
		end := c.Add(d.Off, n)
		st.storeSeq(d.Base, d.Elem, c.Cat(old.S, c.SubSeq(old, c.I(0), d.Off), c.SubSeq(src, c.I(0), n), c.SubSeq(old, end, c.Sub(c.Len(old), end))))
		return one(n)
	case "delete":
		m := args[0].(*MapV)
		ex.mapHook(st, site.(ssa.Instruction), m, site.Common().Args[0])
		if m.Obj >= 0 {
			ex.entryHook(st, site.(ssa.Instruction), m, st.toLeaves(args[1]))
			st.setObj(m.Obj, c.MapDel(st.mapContent(m), st.toLeaves(args[1])))
		}
		return []outcome{{st, nil}}
	case "close":
		ex.chanClose(st, args[0].(*Term), site)
		return []outcome{{st, nil}}
	case "min", "max":
		r := args[0].(*Term)
		signed := isSigned(site.Common().Args[0].Type())
		for _, a := range args[1:] {
			t := a.(*Term)
			l := ex.less(t, r, signed)
			if name == "max" {
				l = ex.less(r, t, signed)
			}
			r = c.Ite(l, t, r)
		}
		return one(r)
	case "Slice": // unsafe.Slice
		p := args[0].(*Term)
		n := c.toInt(args[1].(*Term), site.Common().Args[1].Type())
		et := under(under(site.Common().Args[0].Type()).(*types.Pointer).Elem())
		_ = et
		if p.Op != OpPtr {
			unsupported("unsafe.Slice of %v", p)
		}
		l := c.I(1)
		if t, ok := st.load(p).(*Term); ok && t.S.K == KSeq && false {
			l = c.Len(t)
		}
		ex.safety(st, "unsafe-slice", site, c.And(c.Sle(c.I(0), n), c.Sle(n, l)))
		ex.note(ex.trusted, "unsafe.Slice of one element")
		return one(&SliceV{Elem: under(site.Common().Args[0].Type()).(*types.Pointer).Elem(), Base: p, Off: c.I(0), Len: n, Cap: n, IsNil: c.F})
	case "nop":
		return []outcome{{st, nil}}
	case "ssa:wrapnilchk":
		return one(args[0])
	case "print", "println":
		return []outcome{{st, nil}}
	}
	unsupported("builtin %s on %T", name, args[0])
	return nil
}

// appendTo: the result is a new slice with the elements of both. (Sharing of the backing array with other slices is not
// modelled; see the assumptions.)
func (ex *Exec) appendTo(st *State, s *SliceV, more Value, site ssa.CallInstruction) Value {
	c := ex.c
	var add *Term
	switch m := more.(type) {
	case *SliceV:
		add = st.sliceContent(m)
	case *Term:
		add = m
	}
	old := st.sliceContent(s)
	seq := c.Cat(elemSort(s.Elem), old, add)
	isnil := c.And(s.IsNil, c.Eq(c.Len(add), c.I(0)))
	id := st.newObj("append", types.NewSlice(s.Elem), seq)
	return &SliceV{Elem: s.Elem, Base: c.Ptr(id, ""), Off: c.I(0), Len: c.Len(seq), Cap: c.Len(seq), IsNil: isnil}
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
