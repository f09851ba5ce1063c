package main

import "golang.org/x/tools/go/ssa"

// Loops that wait in every iteration. What the operation shares is unknown after a wait, except for the invariant, so the
// states at the loop head after one iteration and after any later one differ only in the names of the unknowns. The rule
// executes the loop once from the entry and once from the state after the first iteration, and shows that the state after
// the second execution is an instance of the one before it.

func (ex *Exec) waitLoop(fn *ssa.Function, g *CFG, loop *Loop, st *State) (exits []edge, rets []outcome, ok bool) {
	if len(ex.shared) == 0 {
		return nil, nil, false
	}
	c := ex.c
	nobl, waited := len(ex.obls), ex.waited
	defer func() {
		if !ok {
			ex.obls, ex.waited = ex.obls[:nobl], waited
		}
	}()
	ex.waited = false
	mark := len(c.terms)
	b1 := ex.runBody(fn, g, loop, st, false)
	if len(b1.back) == 0 {
		ex.waited = ex.waited || waited
		return b1.exits, b1.rets, true
	}
	if !ex.waited || len(b1.back) != 1 {
		return nil, nil, false
	}
	ex.waited = true
	s1 := b1.back[0].st
	phis := headPhis(loop.Head)

	// the unknowns of the first iteration that are held in memory
	held := map[*Term]bool{}
	note := func(v Value) {
		eachTerm(v, func(t *Term) {
			if t.Op == OpVar && t.ID >= mark {
				held[t] = true
			}
		})
	}
	for _, id := range heapIDs(s1.heap) {
		note(s1.heap[id].Val)
	}
	for _, p := range phis {
		note(s1.top().env[p])
	}
	// what only speaks about other unknowns is forgotten
	var pc []*Term
	for _, k := range s1.pc {
		keep := true
		for _, v := range cone([]*Term{k}) {
			if v.Op == OpVar && v.ID >= mark && !v.hasBV && !held[v] {
				keep = false
			}
		}
		if keep {
			pc = append(pc, k)
		}
	}
	s1.pc = pc
	b2 := ex.runBody(fn, g, loop, s1, false)
	for _, e := range b2.back {
		ren := map[*Term]*Term{}
		var as, bs []*Term
		same := true
		match := func(a, b Value) {
			if !sameShape(a, b) {
				same = false
				return
			}
			var ta, tb []*Term
			eachTerm(a, func(t *Term) { ta = append(ta, t) })
			eachTerm(b, func(t *Term) { tb = append(tb, t) })
			if len(ta) != len(tb) {
				same = false
				return
			}
			for i := range ta {
				if held[ta[i]] && ren[ta[i]] == nil {
					ren[ta[i]] = tb[i]
				}
				as, bs = append(as, ta[i]), append(bs, tb[i])
			}
		}
		for _, id := range heapIDs(s1.heap) {
			o := e.st.heap[id]
			if o == nil {
				same = false
				break
			}
			match(s1.heap[id].Val, o.Val)
		}
		for _, p := range phis {
			match(s1.top().env[p], e.st.top().env[p])
		}
		for i := range as {
			if !same {
				break
			}
			a := c.Subst(as[i], ren)
			same = a == bs[i] || a.S == bs[i].S && ex.proved(e.st.pc, c.Eq(a, bs[i]))
		}
		if !same {
			return nil, nil, false
		}
		in := map[*Term]bool{}
		for _, k := range e.st.pc {
			in[k] = true
		}
		for _, k := range s1.pc {
			if k = c.Subst(k, ren); !in[k] && !ex.proved(e.st.pc, k) {
				return nil, nil, false
			}
		}
	}
	return append(b1.exits, b2.exits...), append(b1.rets, b2.rets...), true
}

func (ex *Exec) proved(facts []*Term, goal *Term) bool {
	r, _, _ := ex.prove(facts, goal)
	return r == Proved
}

// eachTerm visits the terms of a value in a fixed order.
func eachTerm(v Value, f func(*Term)) {
	switch x := v.(type) {
	case *Term:
		f(x)
	case *StructV:
		for _, y := range x.F {
			eachTerm(y, f)
		}
	case TupleV:
		for _, y := range x {
			eachTerm(y, f)
		}
	case *GhostV:
		for _, k := range ghostKeys(x) {
			eachTerm(x.F[k], f)
		}
	case *SliceV:
		for _, t := range []*Term{x.Base, x.Off, x.Len, x.Cap, x.IsNil} {
			f(t)
		}
	case *MapV:
		f(x.IsNil)
	}
}

// sameShape: the values differ in terms only.
func sameShape(a, b Value) bool {
	each := func(x, y []Value) bool {
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameShape(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x.S == y.S
	case *StructV:
		y, ok := b.(*StructV)
		return ok && each(x.F, y.F)
	case TupleV:
		y, ok := b.(TupleV)
		return ok && each(x, y)
	case *GhostV:
		y, ok := b.(*GhostV)
		if !ok || x.Kind != y.Kind || len(x.F) != len(y.F) {
			return false
		}
		for k, v := range x.F {
			if w, ok := y.F[k]; !ok || !sameShape(v, w) {
				return false
			}
		}
		return true
	case *SliceV:
		_, ok := b.(*SliceV)
		return ok
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x.Obj == y.Obj
	}
	return sameValue(a, b)
}
