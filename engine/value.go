package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Value is the symbolic value of a Go expression: a *Term (scalars, strings, pointers, interfaces, channels), or one of
// the composites below. Values are immutable.
type Value interface{}

type StructV struct {
	T types.Type
	F []Value
}

type SliceV struct {
	Elem          types.Type
	Base          *Term // pointer to the cell holding the sequence, or nil
	Off, Len, Cap *Term
	IsNil         *Term
}

type MapV struct {
	T     *types.Map
	Obj   int
	IsNil *Term
}

type FuncV struct {
	Fn   *ssa.Function
	Bind []Value
	Spec string // intrinsic name, for bound intrinsics
}

type TupleV []Value

type IterV struct {
	M    *MapV
	Snap *Term
}

// GhostV is the state of an abstract object (writer, reader, connection, storage, mutex…).
type GhostV struct {
	Kind string
	F    map[string]Value
}

func (g *GhostV) with(k string, v Value) *GhostV {
	n := &GhostV{Kind: g.Kind, F: make(map[string]Value, len(g.F))}
	for a, b := range g.F {
		n.F[a] = b
	}
	n.F[k] = v
	return n
}

type Object struct {
	ID   int
	Name string
	T    types.Type
	Val  Value // for maps: the content term; for arrays and slices: the sequence term
}

type Unsupported struct{ Msg string }

func unsupported(f string, a ...interface{}) {
	panic(Unsupported{fmt.Sprintf(f, a...)})
}

/* ---- types ---- */

func opaqueKind(t types.Type) string {
	n, ok := t.(*types.Named)
	if !ok {
		return ""
	}
	switch s := n.Obj().Pkg(); {
	case s == nil:
		return ""
	default:
		switch s.Path() + "." + n.Obj().Name() {
		case "time.Time":
			return "time"
		case "sync.Mutex":
			return "mutex"
		case "sync.RWMutex":
			return "rwmutex"
		case "sync.Once":
			return "once"
		case "bytes.Buffer":
			return "buffer"
		}
	}
	return ""
}

func under(t types.Type) types.Type { return t.Underlying() }

func intWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt, types.UntypedRune:
		return 64
	case types.Float64, types.UntypedFloat:
		return 64
	case types.Float32:
		return 32
	}
	return 0
}

func isSigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

type Leaf struct {
	Path string
	S    Sort
	T    types.Type
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func elemSort(t types.Type) Sort {
	if b, ok := under(t).(*types.Basic); ok && b.Kind() == types.Uint8 {
		return Bytes
	}
	return Sort{K: KSeq, T: typeName(t)}
}

// scalarSort is the sort of types represented by one term.
func scalarSort(t types.Type) (Sort, bool) {
	switch opaqueKind(t) {
	case "time":
		return BV(64), true
	case "mutex", "rwmutex", "once", "buffer":
		return Sort{}, false
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolS, true
		case u.Info()&types.IsString != 0:
			return Bytes, true
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return RefS, true
		}
		if w := intWidth(u); w > 0 {
			return BV(w), true
		}
	case *types.Pointer, *types.Chan, *types.Interface, *types.Signature:
		return RefS, true
	}
	return Sort{}, false
}

func mapSort(m *types.Map) Sort {
	s := Sort{K: KMap, T: typeName(m.Key()) + "→" + typeName(m.Elem())}
	if _, ok := mapKeys.Load(s.T); !ok {
		var ks []Sort
		for _, l := range leaves(m.Key()) {
			ks = append(ks, l.S)
		}
		mapKeys.Store(s.T, ks)
	}
	return s
}

// mapKeys: the sorts of the leaves of the keys of a map sort.
var mapKeys sync.Map

// leaves flattens a type; slices and maps become their contents.
func leaves(t types.Type) []Leaf {
	if s, ok := scalarSort(t); ok {
		return []Leaf{{"", s, t}}
	}
	switch opaqueKind(t) {
	case "mutex", "rwmutex", "once", "buffer":
		return nil
	}
	switch u := under(t).(type) {
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				out = append(out, Leaf{"." + u.Field(i).Name() + l.Path, l.S, l.T})
			}
		}
		return out
	case *types.Slice:
		return []Leaf{{"", elemSort(u.Elem()), t}}
	case *types.Array:
		return []Leaf{{"", elemSort(u.Elem()), t}}
	case *types.Map:
		return []Leaf{{"", mapSort(u), t}}
	}
	unsupported("leaves of type %v", t)
	return nil
}

/* ---- building values ---- */

func (st *State) newObj(name string, t types.Type, v Value) int {
	st.ex.nobj++
	id := st.ex.nobj
	st.heap[id] = &Object{ID: id, Name: name, T: t, Val: v}
	return id
}

func (st *State) zero(t types.Type) Value {
	c := st.ex.c
	if s, ok := scalarSort(t); ok {
		switch s.K {
		case KBool:
			return c.F
		case KBV:
			return c.K(0, s.W)
		case KSeq:
			return c.Empty(s)
		}
		return c.Nil
	}
	switch k := opaqueKind(t); k {
	case "mutex", "rwmutex":
		return &GhostV{Kind: k, F: map[string]Value{"held": c.F, "readers": c.I(0)}}
	case "once":
		return &GhostV{Kind: k, F: map[string]Value{"done": c.F}}
	case "buffer":
		return &GhostV{Kind: "buffer", F: map[string]Value{"out": c.Empty(Bytes), "failed": c.F}}
	}
	switch u := under(t).(type) {
	case *types.Struct:
		r := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			r.F = append(r.F, st.zero(u.Field(i).Type()))
		}
		return r
	case *types.Slice:
		return &SliceV{Elem: u.Elem(), Base: c.Nil, Off: c.I(0), Len: c.I(0), Cap: c.I(0), IsNil: c.T}
	case *types.Array:
		return c.Zeros(elemSort(u.Elem()), c.I(u.Len()))
	case *types.Map:
		return &MapV{T: u, Obj: -1, IsNil: c.T}
	}
	unsupported("zero value of %v", t)
	return nil
}

// symbolic makes an arbitrary value of the type; its variables are named after the expression it stands for.
func (st *State) symbolic(t types.Type, name string) Value {
	return st.symb(t, func(leaf string, s Sort) *Term { return st.ex.c.Var(name+leaf, s) }, name)
}

func (st *State) freshValue(t types.Type, name string) Value {
	return st.symb(t, func(leaf string, s Sort) *Term { return st.ex.c.Fresh(name+leaf, s) }, name)
}

func (st *State) symb(t types.Type, mk func(string, Sort) *Term, name string) Value {
	c := st.ex.c
	if s, ok := scalarSort(t); ok {
		v := mk("", s)
		if s.K == KRef {
			st.ex.ifaceType[v] = t
		}
		return v
	}
	switch k := opaqueKind(t); k {
	case "mutex", "rwmutex":
		return st.zero(t)
	case "once":
		return &GhostV{Kind: k, F: map[string]Value{"done": mk(".done", BoolS)}}
	case "buffer":
		return &GhostV{Kind: "buffer", F: map[string]Value{"out": mk(".out", Bytes), "failed": c.F}}
	}
	switch u := under(t).(type) {
	case *types.Struct:
		r := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			r.F = append(r.F, st.symb(f.Type(), func(l string, s Sort) *Term { return mk("."+f.Name()+l, s) }, name+"."+f.Name()))
		}
		return r
	case *types.Slice:
		content := mk("", elemSort(u.Elem()))
		return st.sliceOf(u.Elem(), content, mk(".isnil", BoolS))
	case *types.Array:
		content := mk("", elemSort(u.Elem()))
		st.assume(c.Eq(c.Len(content), c.I(u.Len())))
		return content
	case *types.Map:
		content := mk("", mapSort(u))
		isnil := mk(".isnil", BoolS)
		return st.mapOf(u, content, isnil)
	}
	unsupported("symbolic value of %v", t)
	return nil
}

func (st *State) sliceOf(elem types.Type, content, isnil *Term) *SliceV {
	c := st.ex.c
	o := st.newObj("slice", types.NewSlice(elem), content)
	l := c.Len(content)
	if !isnil.isFalse() {
		st.assume(c.Implies(isnil, c.Eq(l, c.I(0))))
	}
	return &SliceV{Elem: elem, Base: c.Ptr(o, ""), Off: c.I(0), Len: l, Cap: l, IsNil: isnil}
}

func (st *State) mapOf(t *types.Map, content, isnil *Term) *MapV {
	c := st.ex.c
	if !isnil.isFalse() {
		content = c.Ite(isnil, c.MapEmpty(content.S), content)
	}
	o := st.newObj("map", t, content)
	return &MapV{T: t, Obj: o, IsNil: isnil}
}

// fromLeaves rebuilds a value from its leaf terms.
func (st *State) fromLeaves(t types.Type, ls []*Term) (Value, []*Term) {
	if _, ok := scalarSort(t); ok {
		return ls[0], ls[1:]
	}
	switch u := under(t).(type) {
	case *types.Struct:
		r := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			var v Value
			v, ls = st.fromLeaves(u.Field(i).Type(), ls)
			r.F = append(r.F, v)
		}
		return r, ls
	case *types.Slice:
		return st.sliceOf(u.Elem(), ls[0], st.ex.c.F), ls[1:]
	case *types.Array:
		return ls[0], ls[1:]
	case *types.Map:
		return st.mapOf(u, ls[0], st.ex.c.F), ls[1:]
	}
	unsupported("fromLeaves %v", t)
	return nil, nil
}

func (st *State) toLeaves(v Value) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *StructV:
		var out []*Term
		for _, f := range x.F {
			out = append(out, st.toLeaves(f)...)
		}
		return out
	case *SliceV:
		return []*Term{st.sliceContent(x)}
	case *MapV:
		return []*Term{st.mapContent(x)}
	case *FuncV:
		return []*Term{st.ex.funcRef(x)}
	case *GhostV:
		return nil
	case nil:
		return nil
	}
	unsupported("toLeaves of %T", v)
	return nil
}

func (st *State) mapContent(m *MapV) *Term {
	if m.Obj < 0 {
		return st.ex.c.MapEmpty(mapSort(m.T))
	}
	return st.heap[m.Obj].Val.(*Term)
}

func (st *State) sliceContent(s *SliceV) *Term {
	c := st.ex.c
	if s.Base == c.Nil {
		return c.Empty(elemSort(s.Elem))
	}
	seq := st.loadSeq(s.Base, s.Elem)
	return c.SubSeq(seq, s.Off, s.Len)
}

// loadSeq reads the sequence cell behind a slice base pointer; a scalar cell is a one-element sequence.
func (st *State) loadSeq(base *Term, elem types.Type) *Term {
	v := st.load(base)
	t, ok := v.(*Term)
	if ok && t.S.K == KSeq && t.S == elemSort(elem) {
		return t
	}
	return st.ex.c.Unit(elemSort(elem), st.toLeaves(v)...)
}

func (st *State) storeSeq(base *Term, elem types.Type, seq *Term) {
	v := st.load(base)
	if t, ok := v.(*Term); ok && t.S == elemSort(elem) {
		st.store(base, seq)
		return
	}
	var ls []*Term
	for j, l := range leaves(elem) {
		ls = append(ls, st.ex.c.At(seq, st.ex.c.I(0), j, l.S))
	}
	nv, _ := st.fromLeaves(elem, ls)
	st.store(base, nv)
}

/* ---- memory ---- */

type step struct {
	field int
	index *Term
}

func ptrSteps(p *Term) []step {
	var out []step
	k := 0
	for _, s := range strings.Split(p.Name, "/") {
		if s == "" {
			continue
		}
		if s == "[]" {
			out = append(out, step{-1, p.Args[k]})
			k++
			continue
		}
		var n int
		fmt.Sscan(s, &n)
		out = append(out, step{n, nil})
	}
	return out
}

func (c *Ctx) FieldPtr(p *Term, i int) *Term {
	return c.Ptr(int(p.V), p.Name+"/"+fmt.Sprint(i), p.Args...)
}

func (c *Ctx) IndexPtr(p *Term, i *Term) *Term {
	return c.Ptr(int(p.V), p.Name+"/[]", append(append([]*Term{}, p.Args...), i)...)
}

func (st *State) obj(p *Term) *Object {
	if p.Op != OpPtr {
		unsupported("dereference of %v", p)
	}
	o := st.heap[int(p.V)]
	if o == nil {
		unsupported("no object for %v", p)
	}
	return o
}

func (st *State) load(p *Term) Value {
	o := st.obj(p)
	return st.nav(o.Val, o.T, ptrSteps(p))
}

func (st *State) nav(v Value, t types.Type, path []step) Value {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	switch x := v.(type) {
	case *StructV:
		return st.nav(x.F[s.field], structField(x.T, s.field), path[1:])
	case *Term:
		if x.S.K == KSeq && s.index != nil {
			et := seqElem(t)
			var ls []*Term
			for j, l := range leaves(et) {
				ls = append(ls, st.ex.c.At(x, s.index, j, l.S))
			}
			ev, _ := st.fromLeaves(et, ls)
			return st.nav(ev, et, path[1:])
		}
	case *GhostV:
		return x
	}
	unsupported("navigate %T by %v", v, s)
	return nil
}

func structField(t types.Type, i int) types.Type { return under(t).(*types.Struct).Field(i).Type() }

func seqElem(t types.Type) types.Type {
	switch u := under(t).(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	unsupported("element type of %v", t)
	return nil
}

func (st *State) store(p *Term, v Value) {
	o := st.obj(p)
	n := *o
	n.Val = st.upd(o.Val, o.T, ptrSteps(p), v)
	st.heap[o.ID] = &n
}

func (st *State) upd(old Value, t types.Type, path []step, v Value) Value {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	c := st.ex.c
	switch x := old.(type) {
	case *StructV:
		n := &StructV{T: x.T, F: append([]Value{}, x.F...)}
		n.F[s.field] = st.upd(x.F[s.field], structField(x.T, s.field), path[1:], v)
		return n
	case *Term:
		if x.S.K == KSeq && s.index != nil {
			et := seqElem(t)
			nv := v
			if len(path) > 1 {
				ev := st.nav(x, t, path[:1])
				nv = st.upd(ev, et, path[1:], v)
			}
			u := c.Unit(x.S, st.toLeaves(nv)...)
			after := c.Add(s.index, c.I(1))
			return c.Cat(x.S, c.SubSeq(x, c.I(0), s.index), u, c.SubSeq(x, after, c.Sub(c.Len(x), after)))
		}
	}
	unsupported("update %T by %v", old, s)
	return nil
}

/* ---- states ---- */

type deferred struct {
	call *ssa.Defer
	fn   Value
	args []Value
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	defers []deferred
	con    *Contract
	use    bool // contract executed in place of the call
	args   []Value
	inner  *ssa.Call
	rets   []Value
	pre    map[int]*Object
	mods   []*Term
	called bool
	label  string
	hooks  []hook // of a contract: what it asks for while its function runs
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Value, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred{}, f.defers...)
	return &n
}

type State struct {
	ex     *Exec
	pc     []*Term
	heap   map[int]*Object
	frames []*Frame
	lazy   map[*Term]int
	trace  []string
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) clone() *State {
	n := &State{ex: st.ex, pc: append([]*Term{}, st.pc...), heap: make(map[int]*Object, len(st.heap)), lazy: map[*Term]int{}}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k, v := range st.lazy {
		n.lazy[k] = v
	}
	n.frames = append([]*Frame{}, st.frames...)
	if len(n.frames) > 0 {
		n.frames[len(n.frames)-1] = st.top().clone()
	}
	n.trace = append([]string{}, st.trace...)
	return n
}

func (st *State) assume(t *Term) {
	if t.isTrue() {
		return
	}
	if t.Op == OpAnd {
		for _, a := range t.Args {
			st.assume(a)
		}
		return
	}
	for _, p := range st.pc {
		if p == t {
			return
		}
	}
	if l := st.ex.c.decided(t); l != t {
		st.assume(l)
		return
	}
	st.pc = append(st.pc, t)
}

// decided: a comparison with a conditional value that only one of the alternatives can satisfy decides the condition.
func (c *Ctx) decided(t *Term) *Term {
	x := t
	if x.Op == OpNot {
		x = x.Args[0]
	}
	switch x.Op {
	case OpEq, OpSlt, OpSle, OpUlt, OpUle:
	default:
		return t
	}
	for _, a := range x.Args {
		if a.S.K != KBV {
			return t
		}
	}
	for _, a := range x.Args {
		if a.Op != OpIte {
			continue
		}
		t1 := c.Subst(t, map[*Term]*Term{a: a.Args[1]})
		t2 := c.Subst(t, map[*Term]*Term{a: a.Args[2]})
		switch {
		case t1.isFalse():
			return c.And(c.Not(a.Args[0]), t2)
		case t2.isFalse():
			return c.And(a.Args[0], t1)
		}
	}
	return t
}

func (st *State) infeasible() bool {
	for _, p := range st.pc {
		if p.isFalse() {
			return true
		}
	}
	return false
}

// known reports whether the path condition contains the literal or its negation.
func (st *State) known(t *Term) *Term {
	c := st.ex.c
	n := c.Not(t)
	for _, p := range st.pc {
		if p == t {
			return c.T
		}
		if p == n {
			return c.F
		}
	}
	return t
}

func substValue(c *Ctx, v Value, f func(*Term) *Term) Value {
	switch x := v.(type) {
	case *Term:
		return f(x)
	case *StructV:
		n := &StructV{T: x.T, F: make([]Value, len(x.F))}
		ch := false
		for i, a := range x.F {
			n.F[i] = substValue(c, a, f)
			if n.F[i] != a {
				ch = true
			}
		}
		if !ch {
			return x
		}
		return n
	case *SliceV:
		n := &SliceV{x.Elem, f(x.Base), f(x.Off), f(x.Len), f(x.Cap), f(x.IsNil)}
		if *n == *x {
			return x
		}
		return n
	case *MapV:
		n := &MapV{x.T, x.Obj, f(x.IsNil)}
		if *n == *x {
			return x
		}
		return n
	case *IterV:
		m := substValue(c, x.M, f).(*MapV)
		s := f(x.Snap)
		if m == x.M && s == x.Snap {
			return x
		}
		return &IterV{m, s}
	case *GhostV:
		n := &GhostV{Kind: x.Kind, F: make(map[string]Value, len(x.F))}
		ch := false
		for _, k := range ghostKeys(x) {
			a := x.F[k]
			n.F[k] = substValue(c, a, f)
			if n.F[k] != a {
				ch = true
			}
		}
		if !ch {
			return x
		}
		return n
	case TupleV:
		n := make(TupleV, len(x))
		for i, a := range x {
			n[i] = substValue(c, a, f)
		}
		return n
	case *FuncV:
		n := &FuncV{Fn: x.Fn, Spec: x.Spec, Bind: make([]Value, len(x.Bind))}
		ch := false
		for i, a := range x.Bind {
			n.Bind[i] = substValue(c, a, f)
			if n.Bind[i] != a {
				ch = true
			}
		}
		if !ch {
			return x
		}
		return n
	}
	return v
}

// subst replaces terms everywhere in the state.
func (st *State) subst(m map[*Term]*Term) {
	if len(m) == 0 {
		return
	}
	c := st.ex.c
	memo := map[*Term]*Term{}
	min := -1
	for k := range m {
		if min < 0 || k.ID < min {
			min = k.ID
		}
	}
	f := func(t *Term) *Term { return c.subst(t, m, memo, min) }
	pc := st.pc
	st.pc = nil
	for _, p := range pc {
		st.assume(f(p))
	}
	for _, id := range heapIDs(st.heap) {
		o := st.heap[id]
		v := substValue(c, o.Val, f)
		if !sameValue(v, o.Val) {
			n := *o
			n.Val = v
			st.heap[id] = &n
		}
	}
	for i, fr := range st.frames {
		n := *fr
		n.env = make(map[ssa.Value]Value, len(fr.env))
		for _, k := range envKeys(fr) {
			n.env[k] = substValue(c, fr.env[k], f)
		}
		n.defers = nil
		for _, d := range fr.defers {
			d.fn = substValue(c, d.fn, f)
			as := make([]Value, len(d.args))
			for j := range as {
				as[j] = substValue(c, d.args[j], f)
			}
			d.args = as
			n.defers = append(n.defers, d)
		}
		n.rets = nil
		for _, r := range fr.rets {
			n.rets = append(n.rets, substValue(c, r, f))
		}
		n.args = nil
		for _, r := range fr.args {
			n.args = append(n.args, substValue(c, r, f))
		}
		st.frames[i] = &n
	}
	lazy := map[*Term]int{}
	for k, v := range st.lazy {
		lazy[f(k)] = v
	}
	st.lazy = lazy
}

func sameValue(a, b Value) bool {
	switch x := a.(type) {
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameValue(x[i], y[i]) {
				return false
			}
		}
		return true
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.F {
			if !sameValue(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && (x == y || x.Base == y.Base && x.Off == y.Off && x.Len == y.Len && x.Cap == y.Cap && x.IsNil == y.IsNil)
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x.Obj == y.Obj && x.IsNil == y.IsNil
	case *IterV:
		y, ok := b.(*IterV)
		return ok && sameValue(x.M, y.M) && x.Snap == y.Snap
	case *GhostV:
		y, ok := b.(*GhostV)
		if !ok || x.Kind != y.Kind || len(x.F) != len(y.F) {
			return false
		}
		for k, v := range x.F {
			if !sameValue(v, y.F[k]) {
				return false
			}
		}
		return true
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.Fn != y.Fn || x.Spec != y.Spec || len(x.Bind) != len(y.Bind) {
			return false
		}
		for i := range x.Bind {
			if !sameValue(x.Bind[i], y.Bind[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

// merger joins values of two states; in specification code maps and slices are values, so different ones can be joined by
// content.
type merger struct {
	c    *Ctx
	k    *Term
	a, b *State
	n    *State
	spec bool
}

func mergeValue(c *Ctx, k *Term, a, b Value) (Value, bool) {
	return (&merger{c: c, k: k}).value(a, b)
}

// value is the value that is a if k holds and b otherwise.
func (m *merger) value(a, b Value) (Value, bool) {
	c, k := m.c, m.k
	if sameValue(a, b) {
		return a, true
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.S != y.S || x.S.K == KRef && !(m.spec && !hasPtr(x) && !hasPtr(y)) {
			return nil, false
		}
		return c.Ite(k, x, y), true
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return nil, false
		}
		n := &StructV{T: x.T, F: make([]Value, len(x.F))}
		for i := range x.F {
			v, ok := m.value(x.F[i], y.F[i])
			if !ok {
				return nil, false
			}
			n.F[i] = v
		}
		return n, true
	case *SliceV:
		y, ok := b.(*SliceV)
		if ok && x.Base != y.Base && m.spec && m.n != nil {
			return m.n.sliceOf(x.Elem, c.Ite(k, m.a.sliceContent(x), m.b.sliceContent(y)), c.Ite(k, x.IsNil, y.IsNil)), true
		}
		if !ok || x.Base != y.Base {
			return nil, false
		}
		return &SliceV{x.Elem, x.Base, c.Ite(k, x.Off, y.Off), c.Ite(k, x.Len, y.Len), c.Ite(k, x.Cap, y.Cap), c.Ite(k, x.IsNil, y.IsNil)}, true
	case *MapV:
		y, ok := b.(*MapV)
		if ok && x.Obj != y.Obj && m.spec && m.n != nil {
			id := m.n.newObj("map", x.T, c.Ite(k, m.a.mapContent(x), m.b.mapContent(y)))
			return &MapV{x.T, id, c.Ite(k, x.IsNil, y.IsNil)}, true
		}
		if !ok || x.Obj != y.Obj {
			return nil, false
		}
		return &MapV{x.T, x.Obj, c.Ite(k, x.IsNil, y.IsNil)}, true
	case *GhostV:
		y, ok := b.(*GhostV)
		if !ok || x.Kind != y.Kind || len(x.F) != len(y.F) {
			return nil, false
		}
		n := &GhostV{Kind: x.Kind, F: map[string]Value{}}
		for _, f := range ghostKeys(x) {
			v := x.F[f]
			w, ok := m.value(v, y.F[f])
			if !ok {
				return nil, false
			}
			n.F[f] = w
		}
		return n, true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		n := make(TupleV, len(x))
		for i := range x {
			v, ok := m.value(x[i], y[i])
			if !ok {
				return nil, false
			}
			n[i] = v
		}
		return n, true
	}
	return nil, false
}

func hasPtr(t *Term) bool {
	if t.Op == OpPtr || t.Op == OpBox {
		return true
	}
	if t.Op == OpIte {
		return hasPtr(t.Args[1]) || hasPtr(t.Args[2])
	}
	return false
}

// mergeStates joins two states at a program point; live tells which registers of the top frame matter. rets are further
// values to join.
func mergeStates(a, b *State, live func(ssa.Value) bool, ra1, rb1 []Value, spec bool) (*State, []Value, bool) {
	c := a.ex.c
	if len(a.frames) != len(b.frames) || len(ra1) != len(rb1) {
		return nil, nil, false
	}
	p := 0
	for p < len(a.pc) && p < len(b.pc) && a.pc[p] == b.pc[p] {
		p++
	}
	ra, rb := a.pc[p:], b.pc[p:]
	var cond *Term
	pc := append([]*Term{}, a.pc[:p]...)
	var extra *Term
	if len(ra) > 0 && len(rb) > 0 && ra[0] == c.Not(rb[0]) {
		cond = ra[0]
		extra = c.Ite(cond, c.And(ra[1:]...), c.And(rb[1:]...))
	} else {
		cond = c.And(ra...)
		extra = c.Or(cond, c.And(rb...))
	}
	n := &State{ex: a.ex, pc: pc, heap: make(map[int]*Object, len(a.heap)), lazy: map[*Term]int{}}
	n.assume(extra)
	m := &merger{c: c, k: cond, a: a, b: b, n: n, spec: spec}
	for i := range a.frames {
		fa, fb := a.frames[i], b.frames[i]
		if fa == fb {
			n.frames = append(n.frames, fa)
			continue
		}
		if fa.fn != fb.fn || len(fa.defers) != len(fb.defers) {
			return nil, nil, false
		}
		f := *fa
		f.env = map[ssa.Value]Value{}
		last := i == len(a.frames)-1
		for _, k := range envKeys(fa) {
			va := fa.env[k]
			vb, ok := fb.env[k]
			if !ok {
				continue
			}
			if last && live != nil && !live(k) {
				continue
			}
			v, ok := m.value(va, vb)
			if !ok {
				return nil, nil, false
			}
			f.env[k] = v
		}
		for j := range fa.defers {
			da, db := fa.defers[j], fb.defers[j]
			if da.call != db.call || !sameValue(da.fn, db.fn) || !sameValue(TupleV(da.args), TupleV(db.args)) {
				return nil, nil, false
			}
		}
		if !sameValue(TupleV(fa.rets), TupleV(fb.rets)) {
			v, ok := m.value(TupleV(fa.rets), TupleV(fb.rets))
			if !ok {
				return nil, nil, false
			}
			f.rets = v.(TupleV)
		}
		if !sameValue(TupleV(fa.args), TupleV(fb.args)) {
			return nil, nil, false
		}
		if fa.called != fb.called || len(fa.mods) != len(fb.mods) || len(fa.hooks) != len(fb.hooks) {
			return nil, nil, false
		}
		for i, h := range fa.hooks {
			if h.f != fb.hooks[i].f && !sameValue(TupleV(h.f.Bind), TupleV(fb.hooks[i].f.Bind)) {
				return nil, nil, false
			}
		}
		n.frames = append(n.frames, &f)
	}
	for _, id := range heapIDs(a.heap) {
		oa := a.heap[id]
		ob, ok := b.heap[id]
		if !ok {
			// an object created on first use exists everywhere, in its initial state
			ob, ok = a.ex.lazyInit[id]
		}
		if !ok || oa == ob {
			n.heap[id] = oa
			continue
		}
		v, ok := m.value(oa.Val, ob.Val)
		if !ok {
			return nil, nil, false
		}
		o := *oa
		o.Val = v
		n.heap[id] = &o
	}
	for _, id := range heapIDs(b.heap) {
		ob := b.heap[id]
		if _, ok := a.heap[id]; ok {
			continue
		}
		if oa, ok := a.ex.lazyInit[id]; ok && oa != ob {
			v, ok := m.value(oa.Val, ob.Val)
			if !ok {
				return nil, nil, false
			}
			o := *ob
			o.Val = v
			ob = &o
		}
		n.heap[id] = ob
	}
	for k, v := range a.lazy {
		n.lazy[k] = v
	}
	for k, v := range b.lazy {
		if w, ok := n.lazy[k]; ok && w != v {
			return nil, nil, false
		}
		n.lazy[k] = v
	}
	var rets []Value
	if len(ra1) > 0 {
		v, ok := m.value(TupleV(ra1), TupleV(rb1))
		if !ok {
			return nil, nil, false
		}
		rets = v.(TupleV)
	}
	return n, rets, true
}
