package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops. The locations a loop changes are found by executing its body; every loop is then summarised by invariants that
// are proved, never by a bound: closed forms (counters, sums, concatenations and filters over the collection iterated),
// relations between the changing locations found by elimination (Houdini), and the constancy of recursive specification
// functions. What no invariant describes is unknown after the loop.

// slot is a location that changes from iteration to iteration.
type slot struct {
	phi   *ssa.Phi
	obj   int
	path  string
	kind  string // term, slice, map (the last two by content)
	elem  types.Type
	mt    *types.Map
	x     []*Term // placeholders: the value(s) at the loop head
	e     []*Term // at entry
	name  string
	done  bool // has a closed form
	isPtr bool
}

func (s *slot) key() string {
	if s.phi != nil {
		return "phi:" + s.phi.Name() + s.path
	}
	return fmt.Sprintf("obj:%d%s", s.obj, s.path)
}

/* ---- access by path ---- */

// diffPaths calls f for the leaves in which two values of the same shape differ.
func diffPaths(a, b Value, path string, f func(path, kind string)) {
	if sameValue(a, b) {
		return
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.S == y.S {
			f(path, "term")
			return
		}
	case *StructV:
		if y, ok := b.(*StructV); ok {
			for i := range x.F {
				diffPaths(x.F[i], y.F[i], fmt.Sprintf("%s/%d", path, i), f)
			}
			return
		}
	case TupleV:
		if y, ok := b.(TupleV); ok && len(x) == len(y) {
			for i := range x {
				diffPaths(x[i], y[i], fmt.Sprintf("%s/%d", path, i), f)
			}
			return
		}
	case *GhostV:
		if y, ok := b.(*GhostV); ok && x.Kind == y.Kind {
			for _, k := range ghostKeys(x) {
				diffPaths(x.F[k], y.F[k], path+"/"+k, f)
			}
			return
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			if x.Base != y.Base {
				f(path, "slice")
				return
			}
			for _, q := range []struct {
				n    string
				a, b *Term
			}{{"off", x.Off, y.Off}, {"len", x.Len, y.Len}, {"cap", x.Cap, y.Cap}, {"nil", x.IsNil, y.IsNil}} {
				if q.a != q.b {
					f(path+"/"+q.n, "term")
				}
			}
			return
		}
	case *MapV:
		if y, ok := b.(*MapV); ok {
			if x.Obj != y.Obj {
				f(path, "map")
				return
			}
			f(path+"/nil", "term")
			return
		}
	}
	unsupported("a loop changes the shape of a value: %T / %T at %s", a, b, path)
}

func ghostKeys(g *GhostV) []string {
	var ks []string
	for k := range g.F {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func pathGet(v Value, path []string) Value {
	if len(path) == 0 {
		return v
	}
	switch x := v.(type) {
	case *StructV:
		var i int
		fmt.Sscan(path[0], &i)
		return pathGet(x.F[i], path[1:])
	case TupleV:
		var i int
		fmt.Sscan(path[0], &i)
		return pathGet(x[i], path[1:])
	case *GhostV:
		return pathGet(x.F[path[0]], path[1:])
	case *SliceV:
		switch path[0] {
		case "off":
			return x.Off
		case "len":
			return x.Len
		case "cap":
			return x.Cap
		}
		return x.IsNil
	case *MapV:
		return x.IsNil
	}
	panic(fmt.Sprintf("pathGet %T %v", v, path))
}

func pathSet(v Value, path []string, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	switch x := v.(type) {
	case *StructV:
		var i int
		fmt.Sscan(path[0], &i)
		n := &StructV{T: x.T, F: append([]Value{}, x.F...)}
		n.F[i] = pathSet(x.F[i], path[1:], nv)
		return n
	case TupleV:
		var i int
		fmt.Sscan(path[0], &i)
		n := append(TupleV{}, x...)
		n[i] = pathSet(x[i], path[1:], nv)
		return n
	case *GhostV:
		return x.with(path[0], pathSet(x.F[path[0]], path[1:], nv))
	case *SliceV:
		n := *x
		switch path[0] {
		case "off":
			n.Off = nv.(*Term)
		case "len":
			n.Len = nv.(*Term)
		case "cap":
			n.Cap = nv.(*Term)
		default:
			n.IsNil = nv.(*Term)
		}
		return &n
	case *MapV:
		n := *x
		n.IsNil = nv.(*Term)
		return &n
	}
	panic(fmt.Sprintf("pathSet %T %v", v, path))
}

func splitPath(p string) []string {
	if p == "" {
		return nil
	}
	return strings.Split(p[1:], "/")
}

func (s *slot) root(st *State) Value {
	if s.phi != nil {
		return st.top().env[s.phi]
	}
	return st.heap[s.obj].Val
}

func (s *slot) setRoot(st *State, v Value) {
	if s.phi != nil {
		st.frames[len(st.frames)-1] = st.top().clone()
		st.top().env[s.phi] = v
		return
	}
	st.setObj(s.obj, v)
}

// get is the value of the slot in a state, as terms.
func (s *slot) get(st *State) []*Term {
	switch v := pathGet(s.root(st), splitPath(s.path)).(type) {
	case *Term:
		return []*Term{v}
	case *SliceV:
		return []*Term{st.sliceContent(v), v.IsNil}
	case *MapV:
		return []*Term{st.mapContent(v), v.IsNil}
	default:
		unsupported("loop slot %s holds a %T", s.key(), v)
	}
	return nil
}

func (s *slot) set(st *State, ts []*Term) {
	var nv Value
	switch s.kind {
	case "term":
		nv = ts[0]
	case "slice":
		nv = st.sliceOf(s.elem, ts[0], ts[1])
	case "map":
		id := st.newObj("map", s.mt, ts[0])
		nv = &MapV{T: s.mt, Obj: id, IsNil: ts[1]}
	}
	s.setRoot(st, pathSet(s.root(st), splitPath(s.path), nv))
}

/* ---- discovery ---- */

func headPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

type body struct {
	back  []edge
	exits []edge
	rets  []outcome
	vars  int // terms before the run: variables made later are of one iteration
}

func (ex *Exec) runBody(fn *ssa.Function, g *CFG, loop *Loop, st *State, muted bool) *body {
	if muted {
		ex.mute++
		defer func() { ex.mute-- }()
	}
	b := &body{vars: len(ex.c.terms)}
	b.back, b.exits, b.rets = ex.region(fn, g, loop, []edge{{st.clone(), nil, loop.Head}})
	for _, e := range b.back {
		ex.phis(e.st, e.from, loop.Head)
	}
	return b
}

// discover finds the slots of a loop and gives the state at its head with every slot unknown.
func (ex *Exec) discover(fn *ssa.Function, g *CFG, loop *Loop, st *State) (*State, []*slot) {
	c := ex.c
	var slots []*slot
	have := map[string]*slot{}
	s0 := st.clone()
	owned := map[int]int{} // objects made for container slots: the object at entry, -1 when that is unknown already
	name := func(s *slot) string {
		if s.phi != nil {
			n := s.phi.Comment
			if n == "" {
				n = s.phi.Name()
			}
			return n + s.path
		}
		return st.ex.objName(s0, s.obj) + s.path
	}
	for round := 0; ; round++ {
		if round > 25 {
			unsupported("loop discovery does not settle in %s", fn)
		}
		b := ex.runBody(fn, g, loop, s0, true)
		var found []*slot
		again := false
		// what is changed in place through a container slot may be the object the container had at entry
		for _, es := range [][]edge{b.back, b.exits} {
			for _, e := range es {
				for n, a := range owned {
					if a >= 0 && e.st.heap[n] != s0.heap[n] {
						if t, ok := s0.heap[a].Val.(*Term); ok {
							s0.setObj(a, c.Fresh("alias", t.S))
						}
						owned[n] = -1
						again = true
					}
				}
			}
		}
		for _, r := range b.rets {
			for n, a := range owned {
				if a >= 0 && r.st.heap[n] != s0.heap[n] {
					if t, ok := s0.heap[a].Val.(*Term); ok {
						s0.setObj(a, c.Fresh("alias", t.S))
					}
					owned[n] = -1
					again = true
				}
			}
		}
		if again {
			continue
		}
		note := func(s *slot) {
			if o := have[s.key()]; o != nil {
				return
			}
			if _, own := owned[s.obj]; own && s.phi == nil {
				return
			}
			// a content slot replaces leaf slots below it
			have[s.key()] = s
			found = append(found, s)
		}
		for _, e := range b.back {
			for _, ph := range headPhis(loop.Head) {
				diffPaths(s0.top().env[ph], e.st.top().env[ph], "", func(path, kind string) {
					note(&slot{phi: ph, path: path, kind: kind})
				})
			}
			var ids []int
			for id := range e.st.heap {
				ids = append(ids, id)
			}
			sort.Ints(ids)
			for _, id := range ids {
				o := e.st.heap[id]
				was := s0.heap[id]
				if was == nil {
					init := ex.lazyInit[id]
					if init == nil || init == o || sameValue(init.Val, o.Val) {
						continue
					}
					s0.heap[id] = init
					for k, v := range e.st.lazy {
						if v == id {
							s0.lazy[k] = id
						}
					}
					was = init
				}
				if was == o {
					continue
				}
				diffPaths(was.Val, o.Val, "", func(path, kind string) {
					note(&slot{obj: id, path: path, kind: kind})
				})
			}
		}
		if len(found) == 0 {
			return s0, slots
		}
		// containers first: what they contain is described through them
		boxes := 0
		for _, s := range found {
			if s.kind != "term" {
				boxes++
			}
		}
		if boxes > 0 && boxes < len(found) {
			var keep []*slot
			for _, s := range found {
				if s.kind != "term" {
					keep = append(keep, s)
				} else {
					delete(have, s.key())
				}
			}
			found = keep
		}
		for _, s := range found {
			s.name = name(s)
			switch v := pathGet(s.root(s0), splitPath(s.path)).(type) {
			case *SliceV:
				s.elem = v.Elem
			case *MapV:
				s.mt = v.T
			}
			s.e = s.get(s0)
			for i, t := range s.e {
				n := s.name
				if i == 1 {
					n += ".isnil"
				}
				if t.S.K == KRef && hasPtr(t) && t.Op != OpBox {
					s.isPtr = true
				}
				s.x = append(s.x, c.Fresh(n, t.S))
			}
			for _, e := range b.back {
				if s.phi == nil && e.st.heap[s.obj] == nil {
					continue
				}
				for _, t := range s.get(e.st) {
					if t.S.K == KRef && hasPtr(t) && t.Op != OpBox {
						s.isPtr = true
					}
				}
			}
			was := pathGet(s.root(s0), splitPath(s.path))
			s.set(s0, s.x)
			if n, a := boxObj(pathGet(s.root(s0), splitPath(s.path))), boxObj(was); n >= 0 {
				owned[n] = a
			}
			if len(s.x) == 2 {
				s0.assume(c.Implies(s.x[1], c.Eq(s.x[0], c.None(s.x[0].S))))
			}
			slots = append(slots, s)
		}
	}
}

// boxObj is the object behind a map or slice.
func boxObj(v Value) int {
	switch x := v.(type) {
	case *MapV:
		return x.Obj
	case *SliceV:
		if x.Base.Op == OpPtr {
			return int(x.Base.V)
		}
	}
	return -1
}

// None is the empty collection.
func (c *Ctx) None(s Sort) *Term {
	if s.K == KSeq {
		return c.Empty(s)
	}
	return c.MapEmpty(s)
}

// Len2 is the number of elements of a sequence or entries of a map.
func (c *Ctx) Len2(t *Term) *Term {
	if t.S.K == KSeq {
		return c.Len(t)
	}
	return c.Card(t)
}

func (ex *Exec) objName(st *State, id int) string {
	if o := st.heap[id]; o != nil && o.Name != "" {
		return o.Name
	}
	return fmt.Sprintf("o%d", id)
}

/* ---- the rules ---- */

func (ex *Exec) runLoop(fn *ssa.Function, g *CFG, loop *Loop, st *State) ([]edge, []outcome) {
	ex.freshVars = map[*Term]bool{}
	defer func() { ex.freshVars = map[*Term]bool{} }()
	for _, in := range loop.Head.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			if r, ok := n.Iter.(*ssa.Range); ok {
				return ex.mapLoop(fn, g, loop, st, r)
			}
		}
	}
	if ex.opts["unroll"] || ex.isSpec(fn) || ex.shortLoop(loop, st) {
		if exits, rets, ok := ex.unrollLoop(fn, g, loop, st); ok {
			return exits, rets
		}
	}
	if exits, rets, ok := ex.waitLoop(fn, g, loop, st); ok {
		return exits, rets
	}
	ex.noMerge++
	defer func() { ex.noMerge-- }()
	return ex.genLoop(fn, g, loop, st)
}

// shortLoop: the form of the loop suggests that its operands' width or a constant bounds it (a guess: unrollLoop decides).
func (ex *Exec) shortLoop(loop *Loop, st *State) bool {
	konst := func(v ssa.Value) (int64, bool) {
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
			n, ok := constant.Int64Val(k.Value)
			return n, ok
		}
		return 0, false
	}
	// what the counter is compared with: a constant, or a length or another value known on entry
	bound := func(v ssa.Value) (int64, bool) {
		if n, ok := konst(v); ok {
			return n, ok
		}
		length := false
		if call, ok := v.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				v, length = call.Call.Args[0], true
			}
		}
		x, ok := st.top().env[v]
		if !ok {
			return 0, false
		}
		if s, ok := x.(*SliceV); ok && length {
			x = s.Len
		} else if length {
			return 0, false
		}
		if t, ok := x.(*Term); ok && t.isConst() && t.S.K == KBV {
			return int64(t.V), true
		}
		return 0, false
	}
	for _, in := range loop.Head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range loop.Head.Preds {
			if !loop.Blocks[p] {
				continue
			}
			b, ok := phi.Edges[i].(*ssa.BinOp)
			if !ok || b.X != phi {
				continue
			}
			k, ok := konst(b.Y)
			if !ok {
				continue
			}
			if b.Op == token.SHR && k >= 4 || b.Op == token.QUO && k >= 16 {
				return true
			}
			if b.Op == token.ADD && k > 0 {
				for _, v := range []ssa.Value{phi, b} {
					for _, r := range *v.Referrers() {
						if cmp, ok := r.(*ssa.BinOp); ok {
							switch cmp.Op {
							case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
								for _, v := range []ssa.Value{cmp.X, cmp.Y} {
									if n, ok := bound(v); ok && n > 0 && n <= 12*k {
										return true
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return false
}

// unrollLoop executes the loop to its end, if its number of iterations is bounded on every path.
func (ex *Exec) unrollLoop(fn *ssa.Function, g *CFG, loop *Loop, st *State) ([]edge, []outcome, bool) {
	nobl := len(ex.obls)
	var exits []edge
	var rets []outcome
	cur := []*State{st}
	for k := 0; len(cur) > 0; k++ {
		if k > 12 {
			ex.obls = ex.obls[:nobl]
			return nil, nil, false
		}
		var next []*State
		for _, s := range cur {
			b := ex.runBody(fn, g, loop, s, false)
			exits = append(exits, b.exits...)
			rets = append(rets, b.rets...)
			for _, e := range b.back {
				if r, _ := ex.sol.Check(e.st.pc, ex.c.F, false); r != Proved {
					next = append(next, e.st)
				}
			}
		}
		if len(next) > 16 {
			ex.obls = ex.obls[:nobl]
			return nil, nil, false
		}
		cur = next
	}
	return exits, rets, true
}

func inSet(ts []*Term) map[*Term]bool {
	m := map[*Term]bool{}
	for _, t := range ts {
		m[t] = true
	}
	return m
}

// mentions: a variable of one iteration (made since n) or one of the given terms occurs in t.
func mentions(t *Term, n int, vars map[*Term]bool) bool {
	seen := map[int]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t.ID] {
			return false
		}
		seen[t.ID] = true
		if vars[t] || t.Op == OpVar && t.ID >= n && !strings.HasPrefix(t.Name, "#") {
			return true
		}
		if t.Op == OpPtr && t.V != 0 && false {
			return true
		}
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// conds gives, per back edge, the conditions of the iteration that do not depend on what one iteration makes up.
func (ex *Exec) conds(base *State, b *body, vars map[*Term]bool) []*Term {
	c := ex.c
	old := inSet(base.pc)
	var out []*Term
	for _, e := range b.back {
		k := c.T
		for _, f := range e.st.pc {
			if !old[f] && !mentions(f, b.vars, vars) {
				k = c.And(k, f)
			}
		}
		out = append(out, k)
	}
	return out
}

// combine joins the per-edge terms into one: edge j's term under edge j's condition.
func (ex *Exec) combine(b *body, conds, ts []*Term) *Term {
	c := ex.c
	r := ts[len(ts)-1]
	for j := len(ts) - 2; j >= 0; j-- {
		if ts[j] == r {
			continue
		}
		for i := j + 1; i < len(ts); i++ {
			if ts[i] == ts[j] {
				continue
			}
			if q, _ := ex.sol.Check(b.back[i].st.pc, c.Not(conds[j]), false); q != Proved {
				return nil
			}
		}
		r = c.Ite(conds[j], ts[j], r)
	}
	return r
}

// growth describes how a slot changes in one iteration, x being its value before.
type growth struct {
	kind string // add, append, update, set, filter
	t    *Term  // the amount, the appended part, the condition
	v    *Term  // the value set
}

func (ex *Exec) growthOf(x, u *Term, key []*Term) *growth {
	c := ex.c
	switch x.S.K {
	case KBV:
		if d := c.Sub(u, x); !contains(d, x) {
			return &growth{kind: "add", t: d}
		}
	case KSeq:
		if s := suffixOf(c, x, u); s != nil {
			return &growth{kind: "append", t: s}
		}
	case KMap:
		if f := filterOf(c, x, u, key); f != nil {
			return &growth{kind: "filter", t: f}
		}
	}
	return nil
}

// suffixOf: u = x ++ s.
func suffixOf(c *Ctx, x, u *Term) *Term {
	if u == x {
		return c.Empty(x.S)
	}
	if u.Op == OpIte {
		a, b := suffixOf(c, x, u.Args[1]), suffixOf(c, x, u.Args[2])
		if a == nil || b == nil || contains(u.Args[0], x) {
			return nil
		}
		return c.Ite(u.Args[0], a, b)
	}
	is := items(u)
	if len(is) > 0 && is[0] == x {
		s := c.Cat(x.S, is[1:]...)
		if !contains(s, x) {
			return s
		}
	}
	if len(is) > 0 && is[0].Op == OpIte {
		if s := suffixOf(c, x, is[0]); s != nil {
			s = c.Cat(x.S, append([]*Term{s}, is[1:]...)...)
			if !contains(s, x) {
				return s
			}
		}
	}
	return nil
}

// updateOf: u is x with the element of this iteration replaced; its length stays.
func updateOf(c *Ctx, x, u, T *Term) *growth {
	if x.S.K != KSeq {
		return nil
	}
	is := items(u)
	if len(is) != 3 || is[1].Op != OpUnit || contains(is[1], x) {
		return nil
	}
	if u != c.Cat(x.S, c.SubSeq(x, c.I(0), T), is[1], c.SubSeq(x, c.Add(T, c.I(1)), c.Sub(c.Len(x), c.Add(T, c.I(1))))) {
		return nil
	}
	return &growth{kind: "update", t: is[1]}
}

// filterOf: u is x with the entry of key removed exactly if the result is false.
func filterOf(c *Ctx, x, u *Term, key []*Term) *Term {
	if u == x {
		return c.T
	}
	switch u.Op {
	case OpIte:
		a, b := filterOf(c, x, u.Args[1], key), filterOf(c, x, u.Args[2], key)
		if a == nil || b == nil || contains(u.Args[0], x) {
			return nil
		}
		return c.Ite(u.Args[0], a, b)
	case OpMapDel:
		if u.Args[0] == x && key != nil && c.keyEq(u.Args[1:], key).isTrue() {
			return c.F
		}
	}
	return nil
}

// setOf: u is v if k, and x otherwise; v does not depend on the iteration.
func setOf(c *Ctx, x, u *Term) (k, v *Term) {
	if u == x {
		return c.F, nil
	}
	switch {
	case x.S.K == KBool && u.Op == OpOr:
		var rest []*Term
		found := false
		for _, a := range u.Args {
			if a == x {
				found = true
			} else {
				rest = append(rest, a)
			}
		}
		if r := c.Or(rest...); found && !contains(r, x) {
			return r, c.T
		}
	case x.S.K == KBool && u.Op == OpAnd:
		var rest []*Term
		found := false
		for _, a := range u.Args {
			if a == x {
				found = true
			} else {
				rest = append(rest, a)
			}
		}
		if r := c.And(rest...); found && !contains(r, x) {
			return c.Not(r), c.F
		}
	}
	if u.Op == OpIte && !contains(u.Args[0], x) {
		if u.Args[2] == x && !contains(u.Args[1], x) {
			return u.Args[0], u.Args[1]
		}
		if u.Args[1] == x && !contains(u.Args[2], x) {
			return c.Not(u.Args[0]), u.Args[2]
		}
	}
	if !contains(u, x) {
		return c.T, u
	}
	return nil, nil
}

/* ---- maps ---- */

// mapLoop: for k, v := range m.
func (ex *Exec) mapLoop(fn *ssa.Function, g *CFG, loop *Loop, st *State, r *ssa.Range) ([]edge, []outcome) {
	c := ex.c
	it := st.top().env[r].(*IterV)
	mt := it.M.T
	el := &elemBind{}
	for _, l := range leaves(mt.Key()) {
		el.k = append(el.k, c.Fresh("key"+l.Path, l.S))
	}
	for _, l := range leaves(mt.Elem()) {
		el.v = append(el.v, c.Fresh("val"+l.Path, l.S))
	}
	ex.next[r] = el
	defer delete(ex.next, r)
	snap := it.Snap
	bind := map[*Term]*Term{}
	for i, v := range el.k {
		bind[v] = c.Var(fmt.Sprintf("#k.%d", i), v.S)
	}
	for i, v := range el.v {
		bind[v] = c.Var(fmt.Sprintf("#v.%d", i), v.S)
	}

	s0, slots := ex.discover(fn, g, loop, st)
	vars := map[*Term]bool{}
	s0.assume(c.MapHas(snap, el.k))
	for j, v := range el.v {
		s0.assume(c.Eq(c.MapGet(snap, el.k, j, v.S), v))
	}
	for _, s := range slots {
		for _, x := range s.x {
			vars[x] = true
		}
		if s.phi == nil && s.kind == "term" && it.M.Obj == s.obj {
			// entries are only removed when visited (checked below): the current one is still there
			s0.assume(c.MapHas(s.x[0], el.k))
			for j, v := range el.v {
				s0.assume(c.Eq(c.MapGet(s.x[0], el.k, j, v.S), v))
			}
		}
	}
	b := ex.runBody(fn, g, loop, s0, true)
	conds := ex.conds(s0, b, vars)
	done := st.clone()
	for id, o := range s0.heap {
		if done.heap[id] == nil {
			done.heap[id] = o
		}
	}
	for k, v := range s0.lazy {
		done.lazy[k] = v
	}
	// what is true of every entry once the loop has ended normally
	if len(b.back) > 0 {
		done.assume(c.Forall(snap, c.Subst(c.Or(conds...), bind)))
	} else {
		done.assume(c.Eq(c.Card(snap), c.I(0)))
	}
	for _, s := range slots {
		final := make([]*Term, len(s.x))
		for i, x := range s.x {
			final[i] = ex.mapSlot(b, conds, s, i, x, el, snap, bind, vars, it)
			if final[i] == nil {
				if s.isPtr {
					unsupported("a loop changes a pointer (%s)", s.name)
				}
				final[i] = c.Fresh(s.name, x.S)
				ex.loopNote[ex.prog.pos(loop.Head.Instrs[0].Pos())+" "+s.name] = "no closed form"
			}
		}
		s.set(done, final)
	}
	res := ex.runBody(fn, g, loop, s0, false)
	exits, rets := res.exits, res.rets
	el.done = true
	fin := ex.runBody(fn, g, loop, done, false)
	if len(fin.back) > 0 {
		unsupported("map iteration with a second way around")
	}
	return append(exits, fin.exits...), append(rets, fin.rets...)
}

type elemBind struct {
	k, v []*Term
	done bool
}

func (ex *Exec) mapSlot(b *body, conds []*Term, s *slot, i int, x *Term, el *elemBind, snap *Term, bind map[*Term]*Term, vars map[*Term]bool, it *IterV) *Term {
	c := ex.c
	self := s.phi == nil && s.kind == "term" && it.M.Obj == s.obj
	var us []*Term
	for _, e := range b.back {
		us = append(us, s.get(e.st)[i])
	}
	if len(us) == 0 {
		return s.e[i]
	}
	var gs []*Term
	kind := ""
	for _, u := range us {
		gr := ex.growthOf(x, u, el.k)
		if gr == nil || kind != "" && gr.kind != kind {
			gs = nil
			break
		}
		kind = gr.kind
		gs = append(gs, gr.t)
	}
	ok := func(t *Term) bool { return t != nil && !mentions(t, b.vars, vars) }
	if gs != nil {
		if t := ex.combine(b, conds, gs); ok(t) {
			t = c.Subst(t, bind)
			switch kind {
			case "add":
				return c.Add(s.e[i], c.Sum(snap, t))
			case "append":
				return c.Cat(x.S, s.e[i], c.Fold(snap, t))
			case "filter":
				if s.e[i] == snap {
					return c.MapFilter(s.e[i], t)
				}
			}
		}
	}
	if self {
		unsupported("a loop changes the map it iterates over")
	}
	// set at most to one value
	var v *Term
	ks := make([]*Term, len(us))
	for j, u := range us {
		k, w := setOf(c, x, u)
		if k == nil || w != nil && v != nil && w != v {
			return nil
		}
		if w != nil {
			v = w
		}
		ks[j] = k
	}
	if v == nil {
		return s.e[i]
	}
	vs := map[*Term]bool{}
	for t := range bind {
		vs[t] = true
	}
	if mentions(v, b.vars, vs) || mentions(v, b.vars, vars) {
		return nil
	}
	if t := ex.combine(b, conds, ks); ok(t) {
		return c.Ite(c.Forall(snap, c.Not(c.Subst(t, bind))), s.e[i], v)
	}
	return nil
}

/* ---- other loops ---- */

type cand struct {
	t    *Term // over the placeholders and T
	weak *Term // to try instead if it does not hold at entry
	rec  *RecApp
	app  *RecApp // at the head
	args []*Term
	dead bool
	hint bool // from the contract
}

// genLoop summarises a loop that is not a map iteration.
func (ex *Exec) genLoop(fn *ssa.Function, g *CFG, loop *Loop, st *State) ([]edge, []outcome) {
	c := ex.c
	recs := ex.recsOf(st)
	s0, slots := ex.discover(fn, g, loop, st)
	T := c.Fresh("iter", BV(64))
	where := ex.prog.pos(loopPos(loop))

	// counters
	b := ex.runBody(fn, g, loop, s0, true)
	if len(b.back) == 0 { // not a loop after all
		r := ex.runBody(fn, g, loop, st, false)
		return r.exits, r.rets
	}
	closed := map[*Term]*Term{}
	entryOf := map[*Term]*Term{} // value at entry
	for _, s := range slots {
		for i, x := range s.x {
			entryOf[x] = s.e[i]
			if x.S.K != KBV {
				continue
			}
			var d *Term
			for _, e := range b.back {
				dd := c.Sub(s.get(e.st)[i], x)
				if !dd.isConst() || d != nil && d != dd {
					d = nil
					break
				}
				d = dd
			}
			if d == nil {
				continue
			}
			n := T
			if x.S.W < 64 {
				n = c.Extract(T, 0, x.S.W)
			}
			closed[x] = c.Add(s.e[i], c.Scale(n, d.V))
		}
	}
	entryOf[T] = c.I(0)
	s1 := s0.clone()
	s1.subst(closed)
	b = ex.runBody(fn, g, loop, s1, true)
	open := func() map[*Term]bool {
		m := map[*Term]bool{}
		for _, s := range slots {
			for _, x := range s.x {
				if closed[x] == nil {
					m[x] = true
				}
			}
		}
		return m
	}
	// folds over a prefix of a sequence
	vars := open()
	conds := ex.conds(s1, b, vars)
	folds := map[*Term]*Term{}
	for _, s := range slots {
		for i, x := range s.x {
			if closed[x] != nil {
				continue
			}
			if t := ex.prefixSlot(b, conds, s, i, x, T, vars); t != nil {
				folds[x] = t
			}
		}
	}
	for x, t := range folds {
		closed[x] = t
	}
	if len(folds) > 0 {
		s1.subst(folds)
	}
	// facts at the head; a loop goes through fewer than 2^63 iterations
	always := []*Term{c.Sle(c.I(0), T)}
	if pre := ex.prefixFacts(conds, T); pre != nil {
		always = append(always, pre)
	}
	b = ex.runBody(fn, g, loop, s1, true)
	vars = open()

	next := func(e edge) map[*Term]*Term {
		m := map[*Term]*Term{T: c.Add(T, c.I(1))}
		for _, s := range slots {
			for i, u := range s.get(e.st) {
				if closed[s.x[i]] == nil {
					m[s.x[i]] = u
				}
			}
		}
		return m
	}
	var nexts []map[*Term]*Term
	for _, e := range b.back {
		nexts = append(nexts, next(e))
	}
	cands := ex.candidates(st, s1, b, slots, closed, T, recs)
	// entry
	ex.weed(st.pc, cands, func(k *cand) *Term { return c.Subst(k.t, entryOf) })
	for _, k := range cands {
		if k.dead && k.weak != nil { // after the first iteration, at least
			k.t, k.dead = k.weak, false
		}
		if k.rec != nil {
			for i, a := range k.args {
				if r, _, _ := ex.prove(st.pc, c.Eq(c.Subst(a, entryOf), k.rec.Args[i])); r != Proved {
					k.dead = true
					break
				}
			}
		}
	}
	// elimination
	for changed := true; changed; {
		changed = false
		plain := ex.candFacts(s1, cands, false)
		for j, e := range b.back {
			fs := with(with(e.st.pc, always...), plain...)
			if ex.weed(fs, cands, func(k *cand) *Term { return ex.peel(e.st.pc, c.Subst(k.t, nexts[j]), T) }) {
				changed = true
				break
			}
		}
		if changed {
			continue
		}
		facts := plain
		kept := map[*RecApp]bool{} // one way to continue an application is enough
		for _, k := range cands {
			if k.dead || k.rec == nil {
				continue
			}
			if kept[k.rec] {
				k.dead = true
				continue
			}
			for j, e := range b.back {
				if !ex.recStep(s1, with(with(e.st.pc, always...), facts...), k, nexts[j]) {
					k.dead = true
					changed = true
					break
				}
			}
			kept[k.rec] = kept[k.rec] || !k.dead
		}
	}
	if os.Getenv("VERIF_LOOPS") != "" && ex.mute == 0 {
		fmt.Fprintf(os.Stderr, "loop %s in %s:\n", where, shortFn(fn))
		for _, s := range slots {
			for i, x := range s.x {
				fmt.Fprintf(os.Stderr, "   slot %v entry %v closed %v\n", x, s.e[i], closed[x])
			}
		}
		for _, k := range cands {
			t := k.t
			if k.rec != nil {
				fmt.Fprintf(os.Stderr, "   rec %s dead=%v %v\n", k.rec.Fn.Name(), k.dead, k.args)
			} else {
				fmt.Fprintf(os.Stderr, "   cand dead=%v %v\n", k.dead, t)
			}
		}
		for j, e := range b.back {
			fmt.Fprintf(os.Stderr, "   back %d: %v\n", j, e.st.pc[len(s1.pc):])
		}
	}
	for _, s := range slots {
		for _, x := range s.x {
			if closed[x] == nil {
				ex.loopNote[where+" "+s.name] = "described by invariants only"
			}
			if s.isPtr && closed[x] == nil {
				unsupported("a loop changes a pointer (%s)", s.name)
			}
		}
	}
	head := s1.clone()
	for _, f := range ex.candFacts(s1, cands, true) {
		head.assume(f)
	}
	for _, f := range always {
		head.assume(f)
	}
	res := ex.runBody(fn, g, loop, head, false)
	if ex.opts["terminates"] && ex.mute == 0 {
		ex.terminates(fn, head, res, slots, closed, entryOf, T, where)
	}
	// the iteration count at the exits
	var ends []*Term
	for _, k := range cands {
		if !k.dead && k.rec == nil && k.t.Op == OpSle && k.t.Args[0] == T {
			ends = append(ends, k.t.Args[1])
		}
	}
	fix := func(s *State) {
		for _, L := range ends {
			if r, _ := ex.sol.Check(s.pc, c.Eq(T, L), false); r == Proved {
				s.subst(map[*Term]*Term{T: L})
				return
			}
		}
	}
	for _, e := range res.exits {
		fix(e.st)
	}
	for i := range res.rets {
		before := res.rets[i].st
		for _, L := range ends {
			if r, _ := ex.sol.Check(before.pc, c.Eq(T, L), false); r == Proved {
				before.subst(map[*Term]*Term{T: L})
				for j, v := range res.rets[i].rets {
					res.rets[i].rets[j] = substValue(c, v, func(t *Term) *Term { return c.Subst(t, map[*Term]*Term{T: L}) })
				}
				break
			}
		}
	}
	return res.exits, res.rets
}

func loopPos(l *Loop) (p token.Pos) {
	for _, in := range l.Head.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range l.Head.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return
}

// elemOf replaces the elements at position T+off of one sequence by bound variables.
func (ex *Exec) elemOf(t, T *Term) (seq, off, body *Term) {
	c := ex.c
	sub := map[*Term]*Term{}
	bad := false
	seen := map[int]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x.ID] || bad {
			return
		}
		seen[x.ID] = true
		if x.Op == OpAt && contains(x.Args[1], T) && !contains(x.Args[0], T) {
			d := c.Sub(x.Args[1], T)
			if contains(d, T) || seq != nil && (seq != x.Args[0] || off != d) {
				bad = true
				return
			}
			seq, off = x.Args[0], d
			sub[x] = c.Var(fmt.Sprintf("#e.%d", x.V), x.S)
			return
		}
		if x == T {
			bad = true
			return
		}
		for _, a := range x.Args {
			walk(a)
		}
	}
	walk(t)
	if bad {
		return nil, nil, nil
	}
	if seq == nil {
		return nil, nil, t
	}
	return seq, off, c.Subst(t, sub)
}

func (ex *Exec) prefixSlot(b *body, conds []*Term, s *slot, i int, x, T *Term, vars map[*Term]bool) *Term {
	c := ex.c
	var gs []*Term
	kind := ""
	for _, e := range b.back {
		gr := ex.growthOf(x, s.get(e.st)[i], nil)
		if gr == nil {
			gr = updateOf(c, x, s.get(e.st)[i], T)
		}
		if gr == nil || gr.kind == "filter" || kind != "" && gr.kind != kind {
			return nil
		}
		kind = gr.kind
		gs = append(gs, gr.t)
	}
	t := ex.combine(b, conds, gs)
	if t == nil || mentions(t, b.vars, vars) {
		return nil
	}
	seq, off, body := ex.elemOf(t, T)
	if seq == nil {
		return nil
	}
	pre := c.SubSeq(seq, off, T)
	switch kind {
	case "add":
		return c.Add(s.e[i], c.Sum(pre, body))
	case "update":
		return c.Cat(x.S, c.Fold(pre, body), c.SubSeq(s.e[i], T, c.Sub(c.Len(s.e[i]), T)))
	}
	return c.Cat(x.S, s.e[i], c.Fold(pre, body))
}

// prefixFacts: what every completed iteration has established about its element.
func (ex *Exec) prefixFacts(conds []*Term, T *Term) *Term {
	c := ex.c
	var seq, off *Term
	any := c.F
	for _, k := range conds {
		var parts []*Term
		ks := []*Term{k}
		if k.Op == OpAnd {
			ks = k.Args
		}
		for _, x := range ks {
			if !contains(x, T) {
				continue
			}
			s, o, body := ex.elemOf(x, T)
			if s == nil || seq != nil && (s != seq || o != off) {
				continue
			}
			seq, off = s, o
			parts = append(parts, body)
		}
		any = c.Or(any, c.And(parts...))
	}
	if seq == nil || any.isTrue() {
		return nil
	}
	return c.Forall(c.SubSeq(seq, off, T), any)
}

// candidates for invariants: bounds, relations between counters, generalised facts of the entry, and the constancy of
// recursive specification functions.
func (ex *Exec) candidates(st, s1 *State, b *body, slots []*slot, closed map[*Term]*Term, T *Term, recs []*RecApp) []*cand {
	c := ex.c
	var out []*cand
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t.isTrue() || t.isFalse() || seen[t] {
			return
		}
		seen[t] = true
		out = append(out, &cand{t: t})
	}

	// bounds from the conditions under which the loop goes on: they hold one step later
	isVar := map[*Term]bool{T: true}
	type iv struct {
		x, e *Term
		cell bool
	}
	var ints []iv
	for _, s := range slots {
		for i, x := range s.x {
			if closed[x] != nil {
				continue
			}
			isVar[x] = true
			if x.S == BV(64) {
				ints = append(ints, iv{x, s.e[i], s.phi == nil})
			}
		}
	}
	varying := func(t *Term) bool {
		for v := range isVar {
			if contains(t, v) {
				return true
			}
		}
		return false
	}
	base := inSet(s1.pc)
	for _, e := range b.back {
		for _, f := range e.st.pc {
			if base[f] || mentions(f, b.vars, nil) || !varying(f) {
				continue
			}
			switch f.Op {
			case OpSlt, OpUlt, OpSle, OpUle:
				if f.Args[0].S.W != 64 {
					continue
				}
				l, r := f.Args[0], f.Args[1]
				// isolate T
				d := c.lin(c.Sub(l, r))
				if x := d.m[T]; (x == 1 || x == ^uint64(0)) && (f.Op == OpSlt || f.Op == OpSle) {
					delete(d.m, T)
					rest := c.unlin(d)
					lim := c.Neg(rest) // T < lim
					if x == 1 {
						if f.Op == OpSle {
							lim = c.Add(lim, c.I(1))
						}
						if !varying(lim) {
							add(c.Sle(T, lim))
						}
					} else {
						// T >(=) rest: counting down is not isolated
						add(c.Sle(l, r))
					}
				}
				if f.Op == OpSlt || f.Op == OpSle {
					add(c.Sle(l, r))
				} else {
					add(c.Ule(l, r))
				}
				if n := len(out); f.Op == OpSlt && n > 0 && out[n-1].t == c.Sle(l, r) {
					out[n-1].weak = c.Or(c.Eq(T, c.I(0)), c.Sle(l, r))
				}
			case OpNot:
				if q := f.Args[0]; q.Op == OpEq && q.Args[0].S == BV(64) {
					d := c.lin(c.Sub(q.Args[0], q.Args[1]))
					if x := d.m[T]; x == 1 || x == ^uint64(0) {
						delete(d.m, T)
						rest := c.unlin(d)
						if x == 1 {
							rest = c.Neg(rest)
						}
						if !varying(rest) {
							add(c.Sle(T, rest))
						}
					} else {
						add(c.Sle(q.Args[0], q.Args[1]))
						add(c.Sle(q.Args[1], q.Args[0]))
					}
				}
			}
		}
	}
	for _, s := range slots {
		for _, x := range s.x {
			if t := closed[x]; t != nil && x.S == BV(64) {
				add(c.Sle(c.I(0), t))
			}
		}
	}
	for i, v := range ints {
		add(c.Sle(c.I(0), v.x))
		add(c.Sle(v.e, v.x))
		add(c.Sle(v.x, v.e))
		for _, w := range ints[i+1:] {
			add(c.Eq(c.Sub(v.x, w.x), c.Sub(v.e, w.e)))
			add(c.Eq(c.Add(v.x, w.x), c.Add(v.e, w.e)))
			if v.e == w.e {
				add(c.Sle(v.x, w.x))
				add(c.Sle(w.x, v.x))
			}
		}
		if closedT := c.Sub(v.x, v.e); closedT != nil {
			// relation with the counter
			add(c.Eq(v.x, c.Add(v.e, T)))
		}
	}
	// facts of the entry about values that change
	for _, f := range st.pc {
		sub := map[*Term]*Term{}
		for _, s := range slots {
			for i, x := range s.x {
				if closed[x] != nil || s.e[i].isConst() || s.e[i].isTrue() || s.e[i].isFalse() || distinctRef(s.e[i]) || s.e[i].Op == OpEmpty {
					continue
				}
				if contains(f, s.e[i]) {
					sub[s.e[i]] = x
				}
			}
		}
		for k, v := range sub {
			add(c.Subst(f, map[*Term]*Term{k: v}))
		}
		if len(sub) > 1 {
			add(c.Subst(f, sub))
		}
	}
	// sizes: what is zero at entry and never exceeds
	for _, s := range slots {
		for i, x := range s.x {
			if closed[x] == nil && x.S.K == KBool {
				add(c.Eq(x, s.e[i]))
				add(c.Implies(x, s.e[i]))
				add(c.Implies(s.e[i], x))
			}
		}
	}
	// the end of the stream bounds every position
	for _, s := range slots {
		if s.phi == nil && strings.HasSuffix(s.path, "/pos") && closed[s.x[0]] == nil {
			if g, ok := pathGet(st.heap[s.obj].Val, splitPath(strings.TrimSuffix(s.path, "/pos"))).(*GhostV); ok && g.F["in"] != nil {
				add(c.Sle(s.x[0], c.Len(g.F["in"].(*Term))))
			}
		}
	}
	// a flag that an element with some property changes
	var atoms []*Term
	atomSeen := map[*Term]bool{}
	var atomsOf func(t *Term)
	atomsOf = func(t *Term) {
		if atomSeen[t] {
			return
		}
		atomSeen[t] = true
		switch t.Op {
		case OpAnd, OpOr, OpNot:
			for _, a := range t.Args {
				atomsOf(a)
			}
		default:
			if contains(t, T) && !hasQuant(t) && !mentions(t, b.vars, nil) {
				atoms = append(atoms, t)
			}
		}
	}
	for _, e := range b.back {
		for _, f := range e.st.pc {
			if !base[f] {
				atomsOf(f)
			}
		}
	}
	var pcs []map[*Term]bool
	for _, e := range b.back {
		pcs = append(pcs, inSet(e.st.pc))
	}
	for _, a := range atoms {
		seq, off, body := ex.elemOf(a, T)
		if seq == nil || body == nil {
			continue
		}
		for _, lit := range []*Term{a, c.Not(a)} {
			all := c.Forall(c.SubSeq(seq, off, T), body)
			if lit != a {
				all = c.Forall(c.SubSeq(seq, off, T), c.Not(body))
			}
			for _, s := range slots {
				for i, x := range s.x {
					if closed[x] != nil || x.S.K != KBool && x.S.K != KRef {
						continue
					}
					same := c.Eq(x, s.e[i])
					one, two := true, true
					for j, e := range b.back {
						if s.get(e.st)[i] == x {
							one = one && (pcs[j][lit] || pcs[j][c.Not(same)])
						} else {
							two = two && pcs[j][c.Not(lit)]
						}
					}
					if one {
						add(c.Or(c.Not(same), all))
					}
					if two {
						add(c.Or(same, c.Not(all)))
					}
				}
			}
		}
	}
	for _, h := range s1.hooks("hint") {
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(Unsupported); !ok {
						panic(e)
					}
				}
			}()
			n := len(out)
			add(c.Subst(ex.pure(s1, h.f, []Value{T})[0], closed))
			for _, k := range out[n:] {
				k.hint = true
			}
		}()
	}
	for _, r := range recs {
		out = append(out, ex.recCands(st, slots, closed, r)...)
	}
	return out
}

// recsOf gives the applications of specification functions the state speaks about, with their arguments simplified by what
// is known on this path.
func (ex *Exec) recsOf(st *State) []*RecApp {
	if len(ex.recApps) == 0 {
		return nil
	}
	c := ex.c
	var roots []*Term
	collect := func(t *Term) *Term { roots = append(roots, t); return t }
	for _, id := range heapIDs(st.heap) {
		substValue(c, st.heap[id].Val, collect)
	}
	for _, fr := range st.frames {
		for _, k := range envKeys(fr) {
			substValue(c, fr.env[k], collect)
		}
	}
	roots = append(roots, st.pc...)
	in := map[*Term]bool{}
	for _, t := range cone(roots) {
		in[t] = true
	}
	var out []*RecApp
	for _, r := range append([]*RecApp{}, ex.recApps...) {
		used := false
		for _, t := range r.Res {
			used = used || in[t]
		}
		if !used {
			continue
		}
		args := append([]*Term{}, r.Args...)
		tried := map[*Term]bool{}
		for n := 0; n < 60; n++ {
			var k *Term
			for _, t := range cone(args) {
				if t.Op == OpIte && !tried[t.Args[0]] {
					k = t.Args[0]
					break
				}
			}
			if k == nil {
				break
			}
			tried[k] = true
			v := ex.decide(st.pc, k)
			if v == nil {
				continue
			}
			for i := range args {
				args[i] = c.Subst(args[i], map[*Term]*Term{k: v})
			}
		}
		q := ex.recApp(r.Fn, args)
		if q != r {
			for j := range r.Res {
				st.assume(c.Eq(r.Res[j], q.Res[j]))
			}
		}
		dup := false
		for _, o := range out {
			dup = dup || o == q
		}
		if !dup {
			out = append(out, q)
		}
	}
	return out
}

// decide: the truth value of a condition, if the facts determine it.
func (ex *Exec) decide(facts []*Term, k *Term) *Term {
	c := ex.c
	n := c.Not(k)
	for _, f := range facts {
		if f == k {
			return c.T
		}
		if f == n {
			return c.F
		}
	}
	if bad, all, ok := ex.sol.falsified(facts, []*Term{k}); ok && all {
		_ = bad
		return c.T
	}
	if _, all, ok := ex.sol.falsified(facts, []*Term{n}); ok && all {
		return c.F
	}
	for _, q := range []*Term{k, n} {
		if r, _ := ex.sol.check(facts, q, false, true); r == Proved {
			if q == k {
				return c.T
			}
			return c.F
		}
	}
	return nil
}

// recCands matches the arguments of a specification function with the slots of the loop.
func (ex *Exec) recCands(st *State, slots []*slot, closed map[*Term]*Term, r *RecApp) []*cand {
	c := ex.c
	choices := make([][]*Term, len(r.Args))
	any := false
	for i, a := range r.Args {
		var exact, near []*Term
		for _, s := range slots {
			for k, x := range s.x {
				if k > 0 && s.kind != "term" || x.S != a.S {
					continue
				}
				cur := x
				if t := closed[x]; t != nil {
					cur = t
				}
				if s.e[k] == a {
					exact = append(exact, cur)
					continue
				}
				if a.S.K == KBV {
					if d := c.Sub(a, s.e[k]); d.isConst() && a.S.W == 64 {
						near = append(near, c.Add(cur, d))
						continue
					}
					if a.S.W == 64 {
						if q, _ := ex.sol.Check(st.pc, c.Eq(a, s.e[k]), false); q == Proved {
							exact = append(exact, cur)
						}
					}
				} else if a.S.K == KSeq || a.S.K == KMap || a.S.K == KBool {
					if q, _, _ := ex.prove(st.pc, c.Eq(a, s.e[k])); q == Proved {
						near = append(near, cur)
					}
				}
			}
		}
		ch := append(exact, near...)
		if len(exact) > 0 {
			ch = exact
		}
		if len(ch) > 0 {
			any = true
		}
		// the argument may also be constant through the loop
		choices[i] = append(ch, a)
		if len(ch) > 0 && a.S.K != KBV {
			choices[i] = ch
		}
	}
	if !any {
		return nil
	}
	var out []*cand
	args := make([]*Term, len(r.Args))
	var rec func(i int)
	rec = func(i int) {
		if len(out) >= 48 {
			return
		}
		if i == len(args) {
			as := append([]*Term{}, args...)
			same := true
			for j := range as {
				if as[j] != r.Args[j] {
					same = false
				}
			}
			if !same {
				out = append(out, &cand{rec: r, args: as, app: ex.recApp(r.Fn, as)})
			}
			return
		}
		for _, x := range choices[i] {
			args[i] = x
			rec(i + 1)
		}
	}
	rec(0)
	return out
}

// candFacts: the surviving candidates as facts at the loop head.
func (ex *Exec) candFacts(s1 *State, cands []*cand, rec bool) []*Term {
	c := ex.c
	var out []*Term
	for _, k := range cands {
		if k.dead {
			continue
		}
		if k.rec == nil {
			out = append(out, k.t)
			continue
		}
		if !rec {
			continue
		}
		def := ex.unfold(s1, k.app)
		for j := range def {
			out = append(out, c.Eq(k.rec.Res[j], k.app.Res[j]), c.Eq(k.app.Res[j], def[j]))
		}
	}
	return out
}

// peel separates the last element of the prefixes that end with the element of iteration T.
func (ex *Exec) peel(facts []*Term, t, T *Term) *Term {
	c := ex.c
	if !contains(t, T) || !hasQuant(t) {
		return t
	}
	n := c.Add(T, c.I(1))
	sub := map[*Term]*Term{}
	for _, x := range cone([]*Term{t}) {
		if x.Op != OpForall || x.Args[0].Op != OpSub || x.Args[0].Args[2] != n || x.hasBV {
			continue
		}
		seq, off := x.Args[0].Args[0], x.Args[0].Args[1]
		i := c.Add(off, T)
		if r, _, _ := ex.prove(facts, c.And(c.Sle(c.I(0), i), c.Slt(i, c.Len(seq)))); r != Proved {
			continue
		}
		m := map[*Term]*Term{}
		for _, v := range c.boundVars(x.Args[1]) {
			var j int
			fmt.Sscanf(v.Name, "#e.%d", &j)
			m[v] = c.At(seq, i, j, v.S)
		}
		sub[x] = c.And(c.Forall(c.SubSeq(seq, off, T), x.Args[1]), c.Subst(x.Args[1], m))
	}
	if len(sub) == 0 {
		return t
	}
	return c.Subst(t, sub)
}

// weed drops the candidates that the facts do not imply.
func (ex *Exec) weed(facts []*Term, cands []*cand, at func(k *cand) *Term) bool {
	c := ex.c
	dropped := false
	var ks []*cand
	var gs []*Term
	have := inSet(facts)
	for _, k := range cands {
		if k.dead || k.rec != nil {
			continue
		}
		g := at(k)
		if g.isTrue() || have[g] {
			continue
		}
		if k.hint || structural(g) || g.isFalse() {
			if r, _, _ := ex.prove(facts, g); r != Proved {
				k.dead = true
				dropped = true
			}
			continue
		}
		ks, gs = append(ks, k), append(gs, g)
	}
	for len(gs) > 0 {
		bad, all, answered := ex.sol.falsified(facts, gs)
		if all {
			return dropped
		}
		if !answered {
			for i, g := range gs {
				if r, _ := ex.sol.Check(facts, g, false); r != Proved {
					ks[i].dead = true
					dropped = true
				}
			}
			return dropped
		}
		drop := map[int]bool{}
		for _, i := range bad {
			ks[i].dead, drop[i], dropped = true, true, true
		}
		var ks2 []*cand
		var gs2 []*Term
		for i := range gs {
			if !drop[i] {
				ks2, gs2 = append(ks2, ks[i]), append(gs2, gs[i])
			}
		}
		ks, gs = ks2, gs2
	}
	_ = c
	return dropped
}

// recStep: the specification function has the same value after one more iteration: its definition, under the conditions of
// the iteration, is its application to the new values.
func (ex *Exec) recStep(s1 *State, facts []*Term, k *cand, next map[*Term]*Term) bool {
	c := ex.c
	def := ex.unfold(s1, k.app)
	t := ex.reduce(facts, def[0])
	if t.Op != OpUF || t.Name != recName(k.rec.Fn, 0) {
		if os.Getenv("VERIF_REC") != "" {
			fmt.Fprintf(os.Stderr, "rec: definition does not reduce: %v\n", t)
		}
		return false
	}
	for i, a := range k.args {
		want := c.Subst(a, next)
		got := ex.reduce(facts, t.Args[i])
		if want == got {
			continue
		}
		if r, _, d := ex.prove(facts, c.Eq(want, got)); r != Proved {
			if os.Getenv("VERIF_REC") != "" {
				fmt.Fprintf(os.Stderr, "rec %s: argument %d: code %v spec %v [%s]\n", k.rec.Fn.Name(), i, want, got, d)
				for _, f := range facts {
					if len(f.String()) < 300 {
						fmt.Fprintf(os.Stderr, "       %v\n", f)
					}
				}
			}
			return false
		}
	}
	return true
}

// reduce decides the outermost cases of a term.
func (ex *Exec) reduce(facts []*Term, t *Term) *Term {
	p := &prover{ex: ex, c: ex.c, sol: ex.sol}
	t = p.rewrite(facts, t)
	for t.Op == OpIte {
		switch v := ex.decide(facts, t.Args[0]); {
		case v == nil:
			return t
		case v.isTrue():
			t = t.Args[1]
		default:
			t = t.Args[2]
		}
	}
	return t
}

// terminates: some counter moves strictly towards a bound in every iteration.
func (ex *Exec) terminates(fn *ssa.Function, head *State, res *body, slots []*slot, closed, entryOf map[*Term]*Term, T *Term, where string) {
	c := ex.c
	name := "terminates@" + shortFn(fn)
	try := func(val *Term, next []*Term, quick bool) bool {
		for _, down := range []bool{true, false} {
			ok := true
			for j, e := range res.back {
				d := c.Slt(next[j], val)
				bound := c.Sle(c.I(0), val)
				if !down {
					d = c.Slt(val, next[j])
					bound = c.Sle(next[j], c.I(maxLen))
				}
				if quick {
					if _, all, _ := ex.sol.falsified(e.st.pc, []*Term{c.And(d, bound)}); !all {
						ok = false
						break
					}
				} else if r, _, _ := ex.prove(e.st.pc, c.And(d, bound)); r != Proved {
					ok = false
					break
				}
			}
			if ok {
				return true
			}
		}
		return false
	}
	var vals []*Term
	var nexts [][]*Term
	for _, s := range slots {
		for i, x := range s.x {
			v := x
			if t := closed[x]; t != nil {
				v = t
			}
			switch {
			case v.S == BV(64):
			case v.S.K == KSeq:
			default:
				continue
			}
			var ns []*Term
			for _, e := range res.back {
				u := s.get(e.st)[i]
				if v.S.K == KSeq {
					u = c.Len(u)
				}
				ns = append(ns, u)
			}
			if v.S.K == KSeq {
				v = c.Len(v)
			}
			vals = append(vals, v)
			nexts = append(nexts, ns)
		}
	}
	for _, quick := range []bool{true, false} {
		for i := range vals {
			if try(vals[i], nexts[i], quick) {
				ex.obls = append(ex.obls, &Obligation{Name: name, Where: where, Goal: c.T, Contract: ex.main.Name})
				return
			}
		}
	}
	if len(res.back) > 0 {
		ex.obls = append(ex.obls, &Obligation{Name: name, Where: where, Facts: res.back[0].st.pc, Goal: c.F, Contract: ex.main.Name})
	}
}
