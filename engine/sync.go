package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

/* ---- mutexes and once ---- */

// lockTag is the property the lock discipline of a package belongs to.
func lockTag(fn *ssa.Function) string {
	if fn != nil && fn.Pkg != nil && fn.Pkg.Pkg.Path() == modPath+"/storage/memory" {
		return "C17"
	}
	return "C26"
}

// lockRank is the order in which the locks of the client must be taken.
var lockRank = map[string]int{"connMutex": 1, "mutex": 2, "eventMutex": 3}

func (ex *Exec) lockGhost(st *State, v Value, site ssa.CallInstruction) (*Term, *GhostV, string) {
	p, ok := v.(*Term)
	if !ok || p.Op != OpPtr {
		unsupported("lock at %v", v)
	}
	g, ok := st.load(p).(*GhostV)
	if !ok || g.Kind != "mutex" && g.Kind != "rwmutex" {
		unsupported("lock at %v", p)
	}
	return p, g, ex.lockName(st, p)
}

// lockName is the field a lock is stored in.
func (ex *Exec) lockName(st *State, p *Term) string {
	o := st.obj(p)
	name, t := o.Name, o.T
	for _, s := range ptrSteps(p) {
		if s.index != nil {
			return name
		}
		name = under(t).(*types.Struct).Field(s.field).Name()
		t = structField(t, s.field)
	}
	return name
}

func (ex *Exec) held(g *GhostV) *Term {
	c := ex.c
	return c.Or(g.F["held"].(*Term), c.Slt(c.I(0), g.F["readers"].(*Term)))
}

// eachLock visits the locks stored directly in an object.
func eachLock(o *Object, f func(name string, path []int, g *GhostV)) {
	var walk func(v Value, t types.Type, name string, path []int)
	walk = func(v Value, t types.Type, name string, path []int) {
		switch x := v.(type) {
		case *GhostV:
			if x.Kind == "mutex" || x.Kind == "rwmutex" {
				f(name, path, x)
			}
		case *StructV:
			u, ok := under(x.T).(*types.Struct)
			if !ok {
				return
			}
			for i, w := range x.F {
				walk(w, u.Field(i).Type(), u.Field(i).Name(), append(append([]int{}, path...), i))
			}
		}
	}
	walk(o.Val, o.T, o.Name, nil)
}

func (ex *Exec) acquire(st *State, v Value, read bool, site ssa.CallInstruction) {
	c := ex.c
	p, g, name := ex.lockGhost(st, v, site)
	fn := site.Parent()
	tag, where := lockTag(fn), ex.prog.pos(site.Pos())
	ex.oblige(st, tag+": "+name+" is not taken while it is held", where, c.Not(ex.held(g)))
	if r := lockRank[name]; r > 0 {
		eachLock(st.obj(p), func(other string, _ []int, og *GhostV) {
			if lockRank[other] > r {
				ex.oblige(st, tag+": "+name+" is never taken while holding "+other, where, c.Not(ex.held(og)))
			}
		})
	}
	if read {
		st.store(p, g.with("readers", c.Add(g.F["readers"].(*Term), c.I(1))))
	} else {
		st.store(p, g.with("held", c.T))
	}
}

func (ex *Exec) release(st *State, v Value, read bool, site ssa.CallInstruction) {
	c := ex.c
	p, g, name := ex.lockGhost(st, v, site)
	tag, where := lockTag(site.Parent()), ex.prog.pos(site.Pos())
	if read {
		n := g.F["readers"].(*Term)
		ex.oblige(st, tag+": "+name+" is released only while held", where, c.Slt(c.I(0), n))
		st.store(p, g.with("readers", c.Sub(n, c.I(1))))
	} else {
		ex.oblige(st, tag+": "+name+" is released only while held", where, g.F["held"].(*Term))
		st.store(p, g.with("held", c.F))
	}
}

// locksReleased: the locks that existed before a call are as free after it as they were before.
func (ex *Exec) locksReleased(st *State, pre map[int]*Object, fn *ssa.Function) {
	c := ex.c
	check := func(o *Object) {
		now := st.heap[o.ID]
		if now == nil || now == o {
			return
		}
		was := map[string]*GhostV{}
		eachLock(o, func(name string, _ []int, g *GhostV) { was[name] = g })
		eachLock(now, func(name string, _ []int, g *GhostV) {
			w := was[name]
			if w == nil || sameValue(w, g) {
				return
			}
			ex.oblige(st, lockTag(fn)+": "+name+" is released on every return", ex.prog.pos(fn.Pos()),
				c.And(c.Eq(w.F["held"].(*Term), g.F["held"].(*Term)), c.Eq(w.F["readers"].(*Term), g.F["readers"].(*Term))))
		})
	}
	for _, id := range heapIDs(pre) {
		check(pre[id])
	}
}

func init() {
	type C = ssa.CallInstruction
	more = append(more, func() {
		lock := func(name string, acquire, read bool) {
			intrinsics[name] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
				ex.note(ex.trusted, "model of sync.Mutex and sync.RWMutex: taking a held lock never returns")
				if acquire {
					ex.acquire(st, args[0], read, site)
				} else {
					ex.release(st, args[0], read, site)
				}
				return ret(st)
			}
		}
		lock("(*sync.Mutex).Lock", true, false)
		lock("(*sync.Mutex).Unlock", false, false)
		lock("(*sync.RWMutex).Lock", true, false)
		lock("(*sync.RWMutex).Unlock", false, false)
		lock("(*sync.RWMutex).RLock", true, true)
		lock("(*sync.RWMutex).RUnlock", false, true)
		intrinsics["(*sync.Once).Do"] = func(ex *Exec, st *State, fn *ssa.Function, args []Value, site C) []outcome {
			c := ex.c
			p, ok := args[0].(*Term)
			if !ok || p.Op != OpPtr {
				unsupported("sync.Once at %v", args[0])
			}
			g := ex.ghost(st, p)
			done := g.F["done"].(*Term)
			st2 := st.clone()
			st.assume(done)
			st2.assume(c.Not(done))
			out := ret(st)
			if !st2.infeasible() {
				for _, o := range ex.invokeValue(st2, args[1], nil, site) {
					ex.setGhost(o.st, p, "done", c.T)
					out = append(out, outcome{o.st, nil})
				}
			}
			return out
		}
	})
}
