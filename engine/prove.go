package main

import (
	"fmt"
	"os"
	"strings"
	"time"
)

// Discharging obligations: goals are taken apart by the structure of the logic (conjunctions, cases, alignment of
// sequences, folds over the same collection), the rest goes to the SMT solvers.

type prover struct {
	ex    *Exec
	c     *Ctx
	sol   *Solver
	steps int
	model map[string]string
	fail  string
	unk   bool
}

const proveBudget = 4000

func (ex *Exec) discharge(obls []*Obligation) []*Obligation {
	var out []*Obligation
	seen := map[string]bool{}
	reached := map[string]bool{}
	for _, o := range obls {
		var k strings.Builder
		fmt.Fprintf(&k, "%s|%d|%v", o.Name, o.Goal.ID, o.Cover)
		for _, f := range o.Facts {
			fmt.Fprintf(&k, ",%d", f.ID)
		}
		if seen[k.String()] {
			continue
		}
		seen[k.String()] = true
		out = append(out, o)
		if o.Cover {
			if reached[o.Name] {
				o.Status = Proved
				continue
			}
			r := Refuted
			if !infeasibleFacts(o.Facts) {
				r, _ = ex.sol.Check(o.Facts, o.Goal, false)
			} else {
				r = Proved
			}
			if r == Proved { // the negation is entailed: not reachable on this path
				o.Status = Refuted
			} else {
				o.Status = Proved
				reached[o.Name] = true
			}
			continue
		}
		if late() {
			o.Status = Late
			continue
		}
		t0 := time.Now()
		o.Status, o.Model, o.Detail = ex.prove(o.Facts, o.Goal)
		if o.Status == Unknown && late() {
			o.Status = Late
		}
		if d := os.Getenv("VERIF_FACTS"); d != "" && o.Status != Proved && strings.Contains(o.Name, d) {
			fmt.Fprintf(os.Stderr, "FAILED %s: %s\n", o.Name, o.Goal)
			for _, f := range o.Facts {
				fmt.Fprintf(os.Stderr, "FACT %s\n", f)
			}
		}
		if d := time.Since(t0); d > 500*time.Millisecond && os.Getenv("VERIF_SLOW") != "" {
			fmt.Fprintf(os.Stderr, "obligation %.1fs %s %s: %s %s\n", d.Seconds(), o.Name, o.Where, statusName[o.Status], o.Goal)
		}
	}
	return out
}

func infeasibleFacts(fs []*Term) bool {
	for _, f := range fs {
		if f.isFalse() {
			return true
		}
	}
	return false
}

// prove decides facts ⊢ goal.
func (ex *Exec) prove(facts []*Term, goal *Term) (int, map[string]string, string) {
	p := &prover{ex: ex, c: ex.c, sol: ex.sol}
	if p.prove(facts, goal, 0) {
		return Proved, nil, ""
	}
	st := Refuted
	if p.unk {
		st = Unknown
	}
	return st, p.model, p.fail
}

func (p *prover) smt(facts []*Term, goal *Term) bool {
	if goal.isTrue() {
		return true
	}
	r, _ := p.sol.Check(p.saturate(facts, goal), goal, false)
	if r == Unknown {
		p.unk = true
	}
	return r == Proved
}

// quickly is smt for a goal that is taken apart if this fails.
func (p *prover) quickly(facts []*Term, goal *Term) bool {
	if goal.isTrue() {
		return true
	}
	r, _ := p.sol.check(p.saturate(facts, goal), goal, false, true)
	return r == Proved
}

// saturate adds the instances of universal facts at the entries and elements the query speaks about.
func (p *prover) saturate(facts []*Term, goal *Term) []*Term {
	c := p.c
	var foralls []*Term
	seen := map[*Term]bool{}
	var pos, neg func(t *Term)
	pos = func(t *Term) {
		switch t.Op {
		case OpForall:
			if !seen[t] {
				seen[t] = true
				foralls = append(foralls, t)
			}
		case OpAnd, OpOr:
			for _, a := range t.Args {
				pos(a)
			}
		case OpNot:
			neg(t.Args[0])
		case OpIte:
			pos(t.Args[1])
			pos(t.Args[2])
		}
	}
	neg = func(t *Term) {
		switch t.Op {
		case OpAnd, OpOr:
			for _, a := range t.Args {
				neg(a)
			}
		case OpNot:
			pos(t.Args[0])
		}
	}
	for _, f := range facts {
		pos(f)
	}
	neg(goal)
	if p.ex.hasIndex {
		// the definition of the first position of a byte (lemma vlIndex)
		for _, t := range cone(append(append([]*Term{}, facts...), goal)) {
			if t.Op != OpUF || t.Name != "index" {
				continue
			}
			s, from, b := t.Args[0], t.Args[1], t.Args[2]
			in := c.And(c.Sle(c.I(0), from), c.Sle(from, c.Len(s)))
			e := c.Var("#e.0", BV(8))
			all := c.Forall(c.SubSeq(s, from, c.Sub(t, from)), c.Ne(e, b))
			facts = append(facts[:len(facts):len(facts)],
				c.Implies(in, c.And(c.Sle(from, t), c.Sle(t, c.Len(s)))),
				c.Implies(c.And(in, c.Slt(t, c.Len(s))), c.Eq(c.At(s, t, 0, BV(8)), b)),
				c.Implies(in, all))
			pos(all)
		}
	}
	all := append(append([]*Term{}, facts...), goal)
	var has, ats, folds []*Term
	for _, t := range cone(all) {
		switch t.Op {
		case OpMapHas:
			has = append(has, t)
		case OpAt:
			ats = append(ats, t)
		case OpFold, OpSum:
			if t.Args[0].S.K == KSeq {
				folds = append(folds, t)
			}
		}
	}
	if len(foralls) == 0 && len(folds) == 0 {
		return facts
	}
	out := facts[:len(facts):len(facts)]
	n := 0
	out, folds = p.splitFolds(out, folds, ats)
	for _, f := range foralls {
		for _, t := range folds {
			if t.Args[0] == f.Args[0] && p.vanishes(t.Args[1], f.Args[1]) {
				if t.Op == OpSum {
					out = append(out, c.Implies(f, c.Eq(t, c.K(0, t.S.W))))
				} else {
					out = append(out, c.Implies(f, c.Eq(t, c.Empty(t.S))))
				}
			}
		}
	}
	known := map[*Term]bool{}
	for _, h := range has {
		known[h] = true
	}
	for round := has; len(round) > 0; {
		var next []*Term
		for _, f := range foralls {
			coll := f.Args[0]
			if coll.S.K != KMap {
				continue
			}
			for _, h := range round {
				if h.Args[0] != coll || n >= 200 {
					continue
				}
				n++
				x := c.Implies(c.And(f, h), c.instEntry(f.Args[1], coll, h.Args[1:]))
				out = append(out, x)
				for _, t := range cone([]*Term{x}) {
					if t.Op == OpMapHas && !known[t] {
						known[t] = true
						next = append(next, t)
					}
				}
			}
		}
		round = next
	}
	for _, f := range foralls {
		coll := f.Args[0]
		if coll.S.K == KMap {
			continue
		}
		base, off, ln := coll, c.I(0), c.Len(coll)
		if coll.Op == OpSub {
			base, off, ln = coll.Args[0], coll.Args[1], coll.Args[2]
		}
		done := map[*Term]bool{}
		for _, a := range ats {
			if a.Args[0] != base || done[a.Args[1]] || n > 200 {
				continue
			}
			done[a.Args[1]] = true
			n++
			i := c.Sub(a.Args[1], off)
			m := map[*Term]*Term{}
			for _, v := range c.boundVars(f.Args[1]) {
				var j int
				if k, _ := fmt.Sscanf(v.Name, "#e.%d", &j); k == 1 {
					m[v] = c.At(base, a.Args[1], j, v.S)
				}
			}
			out = append(out, c.Implies(c.And(f, c.Sle(c.I(0), i), c.Slt(i, ln)), c.Subst(f.Args[1], m)))
		}
	}
	return out
}

// bounds: the sequence a collection is a part of, and which part.
func (p *prover) bounds(coll *Term) (base, off, ln *Term) {
	if coll.Op == OpSub {
		return coll.Args[0], coll.Args[1], coll.Args[2]
	}
	return coll, p.c.I(0), p.c.Len(coll)
}

// splitFolds takes concatenations and sums over a sequence apart at the elements the query speaks about.
func (p *prover) splitFolds(out, folds, ats []*Term) ([]*Term, []*Term) {
	c := p.c
	all := folds[:len(folds):len(folds)]
	n := 0
	for _, t := range folds {
		base, off, ln := p.bounds(t.Args[0])
		done := map[*Term]bool{}
		for _, a := range ats {
			i := a.Args[1]
			if a.Args[0] != base || done[i] || i.isConst() || n >= 20 {
				continue
			}
			done[i] = true
			if off != c.I(0) && (i == off || i == c.Add(off, ln)) {
				continue
			}
			n++
			body := c.atElem(t.Args[1], base, i)
			l := c.SubSeq(base, off, c.Sub(i, off))
			r := c.SubSeq(base, c.Add(i, c.I(1)), c.Sub(c.Add(off, ln), c.Add(i, c.I(1))))
			in := c.And(c.Sle(off, i), c.Slt(i, c.Add(off, ln)))
			var whole *Term
			if t.Op == OpSum {
				whole = c.Add(c.Sum(l, t.Args[1]), c.Add(body, c.Sum(r, t.Args[1])))
			} else {
				whole = c.Cat(t.S, c.Fold(l, t.Args[1]), body, c.Fold(r, t.Args[1]))
			}
			out = append(out, c.Implies(in, c.Eq(t, whole)))
			for _, x := range cone([]*Term{whole}) {
				if x.Op == t.Op && x != t {
					all = append(all, x)
				}
			}
		}
	}
	return out, all
}

// splitFold takes one fold of an equation apart at an element the query speaks about.
func (p *prover) splitFold(facts []*Term, goal *Term, ia, ib []*Term) *Term {
	c := p.c
	var ats []*Term
	for _, t := range cone(append(append([]*Term{}, facts...), goal)) {
		if t.Op == OpAt && !t.Args[1].isConst() {
			ats = append(ats, t)
		}
	}
	for _, it := range append(append([]*Term{}, ia...), ib...) {
		if it.Op != OpFold || it.Args[0].S.K != KSeq {
			continue
		}
		base, off, ln := p.bounds(it.Args[0])
		for _, a := range ats {
			i := a.Args[1]
			if a.Args[0] != base || !p.smt(facts, c.And(c.Sle(off, i), c.Slt(i, c.Add(off, ln)))) {
				continue
			}
			l := c.SubSeq(base, off, c.Sub(i, off))
			r := c.SubSeq(base, c.Add(i, c.I(1)), c.Sub(c.Add(off, ln), c.Add(i, c.I(1))))
			whole := c.Cat(it.S, c.Fold(l, it.Args[1]), c.atElem(it.Args[1], base, i), c.Fold(r, it.Args[1]))
			g := c.Subst(goal, map[*Term]*Term{it: whole})
			if g != goal {
				return g
			}
		}
	}
	return nil
}

// vanishes: the contribution of an element is nothing if the element satisfies cond.
func (p *prover) vanishes(body, cond *Term) bool {
	m := map[*Term]*Term{}
	lits := []*Term{cond}
	if cond.Op == OpAnd {
		lits = cond.Args
	}
	for _, l := range lits {
		if l.Op == OpNot {
			m[l.Args[0]] = p.c.F
		} else {
			m[l] = p.c.T
		}
	}
	b := p.c.Subst(body, m)
	return b.Op == OpEmpty || b.isConst() && b.V == 0
}

func (p *prover) giveUp(facts []*Term, goal *Term) bool {
	if p.fail == "" {
		p.fail = goal.String()
		_, p.model = p.sol.Check(facts, goal, true)
	}
	return false
}

// rewrite simplifies a goal by the literals among the facts.
func (p *prover) rewrite(facts []*Term, goal *Term) *Term {
	c := p.c
	m := map[*Term]*Term{}
	for _, f := range facts {
		if f.Op == OpNot {
			m[f.Args[0]] = c.F
			continue
		}
		m[f] = c.T
		if n := c.Not(f); n.Op != OpNot {
			m[n] = c.F
		}
		if f.Op == OpEq && f.Args[0].S.K != KBool {
			a, b := f.Args[0], f.Args[1]
			for i := 0; i < 2; i++ {
				if a.Op == OpVar && !strings.HasPrefix(a.Name, "#") && (b.isConst() || b.Op == OpNil || b.Op == OpGlob || b.Op == OpEmpty || b.Op == OpMapEmpty) {
					m[a] = b
				}
				a, b = b, a
			}
		}
	}
	return c.Subst(goal, m)
}

// define replaces a sequence in a goal by what a fact says it equals, possibly under conditions the other facts settle.
func (p *prover) define(facts []*Term, goal *Term) *Term {
	c := p.c
	vars := map[*Term]bool{}
	for _, t := range cone([]*Term{goal}) {
		if t.Op == OpVar && t.S.K == KSeq && !strings.HasPrefix(t.Name, "#") {
			vars[t] = true
		}
	}
	for _, f := range facts {
		ds := []*Term{f}
		if f.Op == OpOr {
			ds = f.Args
		}
		for i, d := range ds {
			if d.Op != OpEq || d.Args[0].S.K != KSeq {
				continue
			}
			v, t := d.Args[0], d.Args[1]
			if !vars[v] {
				v, t = t, v
			}
			if !vars[v] || t.Op != OpCat {
				continue
			}
			recursive := false
			for _, x := range cone([]*Term{t}) {
				recursive = recursive || x == v
			}
			if recursive {
				continue
			}
			var others []*Term
			for j, o := range ds {
				if j != i {
					others = append(others, c.Not(o))
				}
			}
			if k := c.And(others...); !p.quickly(facts, k) && (!hasQuant(k) || !p.quiet(facts, k, 40)) {
				continue
			}
			if g := c.Subst(goal, map[*Term]*Term{v: t}); g != goal {
				return g
			}
		}
	}
	return goal
}

func hasQuant(t *Term) bool {
	for _, x := range cone([]*Term{t}) {
		if x.Op == OpForall {
			return true
		}
	}
	return false
}

func with(facts []*Term, f ...*Term) []*Term {
	n := len(facts)
	out := facts[:n:n]
	for _, x := range f {
		if x.isTrue() {
			continue
		}
		if x.Op == OpAnd {
			out = with(out, x.Args...)
			continue
		}
		out = append(out, x)
	}
	return out
}

func (p *prover) prove(facts []*Term, goal *Term, depth int) bool {
	c := p.c
	p.steps++
	if goal.isTrue() || infeasibleFacts(facts) {
		return true
	}
	for _, f := range facts {
		if f == goal {
			return true
		}
	}
	if p.steps > proveBudget || depth > 60 {
		p.unk = true
		return p.giveUp(facts, goal)
	}
	if !structural(goal) {
		if p.smt(facts, goal) {
			return true
		}
		return p.giveUp(facts, goal)
	}
	if g := p.rewrite(facts, goal); g != goal {
		return p.prove(facts, g, depth+1)
	}
	switch goal.Op {
	case OpAnd:
		for _, g := range goal.Args {
			if !p.prove(facts, g, depth+1) {
				return false
			}
		}
		return true
	case OpIte:
		return p.prove(with(facts, goal.Args[0]), goal.Args[1], depth+1) && p.prove(with(facts, c.Not(goal.Args[0])), goal.Args[2], depth+1)
	case OpNot:
		x := goal.Args[0]
		var ns []*Term
		for _, a := range x.Args {
			ns = append(ns, a)
			if a.S.K == KBool {
				ns[len(ns)-1] = c.Not(a)
			}
		}
		switch x.Op {
		case OpIte:
			return p.prove(facts, c.Ite(x.Args[0], ns[1], ns[2]), depth+1)
		case OpAnd:
			return p.prove(facts, c.Or(ns...), depth+1)
		case OpOr:
			return p.prove(facts, c.And(ns...), depth+1)
		}
	case OpOr:
		if p.quickly(facts, goal) {
			return true
		}
		var first *Term
		rest := facts
		rank := func(g *Term) int {
			switch {
			case !structural(g), g.Op == OpAnd && !structural(c.Not(g)):
				return 9
			case g.Op == OpEq && (g.Args[0].S.K == KSeq || g.Args[0].S.K == KMap):
				return 0
			case g.Op == OpForall || g.Op == OpAnd || g.Op == OpOr || g.Op == OpIte:
				return 1
			case g.Op == OpEq:
				return 2
			}
			return 3
		}
		for _, g := range goal.Args {
			if first == nil || rank(g) < rank(first) {
				first = g
			}
		}
		for _, g := range goal.Args {
			if g != first {
				rest = with(rest, c.Not(g))
			}
		}
		return p.prove(rest, first, depth+1)
	case OpEq:
		a, b := goal.Args[0], goal.Args[1]
		switch a.S.K {
		case KSeq:
			if p.quickly(facts, goal) {
				return true
			}
			if g := p.define(facts, goal); g != goal {
				return p.prove(facts, g, depth+1)
			}
			return p.seq(facts, a, b, depth)
		case KMap:
			return p.mapEq(facts, a, b, depth)
		case KBool:
			return p.prove(with(facts, a), b, depth+1) && p.prove(with(facts, b), a, depth+1)
		default:
			// scalar equality over collections
			if p.quickly(facts, goal) {
				return true
			}
			if x := p.splitter(goal); x != nil {
				return p.split(facts, goal, x, depth)
			}
			if a.S.K == KBV {
				if p.alignSums(facts, a, b, depth) {
					return true
				}
			}
			if p.smt(facts, goal) {
				return true
			}
			return p.giveUp(facts, goal)
		}
	case OpForall:
		return p.forall(facts, goal, depth)
	}
	if p.smt(facts, goal) {
		return true
	}
	return p.giveUp(facts, goal)
}

// structural: the goal has parts worth taking apart.
func structural(t *Term) bool {
	seen := map[int]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t.ID] {
			return false
		}
		seen[t.ID] = true
		switch t.Op {
		case OpForall, OpSum, OpFold, OpMapFilter:
			return true
		case OpEq:
			if k := t.Args[0].S.K; k == KSeq || k == KMap {
				return true
			}
		}
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	if t.Op == OpAnd {
		return true
	}
	return walk(t)
}

// splitter finds a decision inside the term worth splitting on.
func (p *prover) splitter(t *Term) *Term {
	seen := map[int]bool{}
	var found *Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if found != nil || seen[t.ID] {
			return
		}
		seen[t.ID] = true
		bound := t.Op == OpFold || t.Op == OpSum || t.Op == OpForall || t.Op == OpMapFilter
		for i, a := range t.Args {
			if bound && i == 1 {
				continue
			}
			walk(a)
		}
		if found == nil && t.Op == OpIte && (t.S.K == KSeq || t.S.K == KMap) && !t.Args[0].hasBV {
			found = t.Args[0]
		}
	}
	walk(t)
	return found
}

func (p *prover) split(facts []*Term, goal, k *Term, depth int) bool {
	c := p.c
	pos := c.Subst(goal, map[*Term]*Term{k: c.T})
	neg := c.Subst(goal, map[*Term]*Term{k: c.F})
	under := func(v *Term, f *Term) []*Term {
		out := []*Term{}
		for _, x := range facts {
			if x.Op == OpOr || x.Op == OpEq {
				x = c.Subst(x, map[*Term]*Term{k: v})
			}
			out = with(out, x)
		}
		return with(out, f)
	}
	return p.prove(under(c.T, k), pos, depth+1) && p.prove(under(c.F, c.Not(k)), neg, depth+1)
}

func (p *prover) eqTerms(facts []*Term, a, b *Term, depth int) bool {
	if a == b {
		return true
	}
	if a.S != b.S {
		return false
	}
	return p.quiet(facts, p.c.Eq(a, b), depth+1)
}

// quiet is prove without recording a failure.
func (p *prover) quiet(facts []*Term, goal *Term, depth int) bool {
	f, m := p.fail, p.model
	p.fail = "-"
	r := p.prove(facts, goal, depth)
	p.fail, p.model = f, m
	return r
}

// elem gives the renaming of the bound variables to constants for one proof about an arbitrary entry.
func (p *prover) elem(depth int, ts ...*Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, t := range ts {
		for _, v := range p.c.boundVars(t) {
			m[v] = p.c.Var(fmt.Sprintf("elem%d.%s.%s", depth, mangle(smtSort(v.S)), v.Name[1:]), v.S)
		}
	}
	return m
}

// elemFacts: what is known about the entry of a collection the renamed variables stand for.
func (p *prover) elemFacts(facts []*Term, coll *Term, depth int) []*Term {
	c := p.c
	out := facts[:len(facts):len(facts)]
	if coll.S.K == KMap {
		out = with(out, c.Not(c.Eq(c.I(0), c.Card(coll))))
	}
	// a universal statement that occurs positively holds of this entry
	var inst func(f *Term, pos bool) *Term
	inst = func(f *Term, pos bool) *Term {
		switch f.Op {
		case OpForall:
			if pos && (f.Args[0] == coll || coll.Op == OpSub && f.Args[0] == coll.Args[0]) {
				return c.Subst(f.Args[1], p.elem(depth, f.Args[1]))
			}
		case OpNot:
			return c.Not(inst(f.Args[0], !pos))
		case OpAnd, OpOr:
			args := make([]*Term, len(f.Args))
			for i, a := range f.Args {
				args[i] = inst(a, pos)
			}
			if f.Op == OpAnd {
				return c.And(args...)
			}
			return c.Or(args...)
		case OpIte:
			return c.Ite(f.Args[0], inst(f.Args[1], pos), inst(f.Args[2], pos))
		}
		return f
	}
	for _, f := range facts {
		if g := inst(f, true); g != f {
			out = with(out, g)
		}
	}
	return out
}

func (p *prover) forall(facts []*Term, goal *Term, depth int) bool {
	c := p.c
	coll, body := goal.Args[0], goal.Args[1]
	if coll.Op == OpIte {
		return p.split(facts, goal, coll.Args[0], depth)
	}
	if coll.Op == OpSub && depth < 8 {
		for _, t := range cone(coll.Args[1:]) {
			if t.Op == OpIte {
				return p.split(facts, goal, t.Args[0], depth)
			}
		}
	}
	// the same collection under another form
	for _, f := range facts {
		if f.Op == OpForall && f.Args[0] != coll && f.Args[0].S == coll.S && f.Args[1] == body && p.eqTerms(facts, f.Args[0], coll, depth) {
			return true
		}
	}
	if ks, ok := mapKeys.Load(coll.S.T); ok && coll.S.K == KMap {
		// an arbitrary entry
		var key []*Term
		for j, s := range ks.([]Sort) {
			key = append(key, c.Var(fmt.Sprintf("key%d.%d.%s", depth, j, mangle(coll.S.T)), s))
		}
		fs := facts[:len(facts):len(facts)]
		if h := c.MapHas(coll, key); h.Op == OpAnd {
			fs = with(fs, h.Args...)
		} else {
			fs = with(fs, h)
		}
		g := c.instEntry(body, coll, key)
		if p.quiet(fs, g, depth+1) {
			return true
		}
		if coll.Op == OpMapPut || coll.Op == OpMapDel || coll.Op == OpMapFilter {
			return p.giveUp(fs, g)
		}
	}
	fs := p.elemFacts(facts, coll, depth)
	b := c.Subst(body, p.elem(depth, body))
	if p.quiet(fs, b, depth+1) {
		return true
	}
	for _, f := range facts {
		if f.Op == OpForall && f.Args[0] != coll && f.Args[0].S == coll.S && p.eqTerms(facts, f.Args[0], coll, depth) {
			if p.quiet(with(fs, c.Subst(f.Args[1], p.elem(depth, f.Args[1]))), b, depth+1) {
				return true
			}
		}
	}
	return p.giveUp(fs, b)
}

func (p *prover) ren(depth int, t *Term) *Term { return p.c.Subst(t, p.elem(depth, t)) }

// mapEq: equal maps, by structure.
func (p *prover) mapEq(facts []*Term, a, b *Term, depth int) bool {
	c := p.c
	if p.quickly(facts, c.Eq(a, b)) {
		return true
	}
	if k := p.splitter(c.Eq(a, b)); k != nil {
		return p.split(facts, c.Eq(a, b), k, depth)
	}
	if a.Op == b.Op && len(a.Args) == len(b.Args) && a.V == b.V && a.Name == b.Name && len(a.Args) > 0 {
		switch a.Op {
		case OpMapPut, OpMapDel, OpUF:
			for i := range a.Args {
				if a.Args[i].S != b.Args[i].S || !p.quiet(facts, c.Eq(a.Args[i], b.Args[i]), depth+1) {
					return p.giveUp(facts, c.Eq(a.Args[i], b.Args[i]))
				}
			}
			return true
		case OpMapFilter:
			if p.eqTerms(facts, a.Args[0], b.Args[0], depth) && p.quiet(p.elemFacts(facts, a.Args[0], depth), p.ren(depth, c.Eq(a.Args[1], b.Args[1])), depth+1) {
				return true
			}
		}
	}
	return p.smt(facts, c.Eq(a, b)) || p.giveUp(facts, c.Eq(a, b))
}

// alignSums: a = b where both are linear combinations with sums over collections: sums over the same collection are joined.
func (p *prover) alignSums(facts []*Term, a, b *Term, depth int) bool {
	c := p.c
	d := c.lin(c.Sub(a, b))
	byColl := map[*Term][]*Term{}
	var order []*Term
	for t := range d.m {
		if t.Op == OpSum {
			if byColl[t.Args[0]] == nil {
				order = append(order, t.Args[0])
			}
			byColl[t.Args[0]] = append(byColl[t.Args[0]], t)
		}
	}
	if len(order) == 0 {
		return false
	}
	for _, coll := range order {
		body := c.K(0, d.w)
		for _, t := range byColl[coll] {
			body = c.Add(body, c.Scale(t.Args[1], d.m[t]))
			delete(d.m, t)
		}
		// the joined body must be constant over the collection: zero
		if !p.quiet(p.elemFacts(facts, coll, depth), p.ren(depth, c.Eq(body, c.K(0, d.w))), depth+1) {
			return false
		}
	}
	return p.quiet(facts, c.Eq(c.unlin(d), c.K(0, d.w)), depth+1)
}

/* ---- sequences ---- */

func (p *prover) seq(facts []*Term, a, b *Term, depth int) bool {
	c := p.c
	S := a.S
	ia := append([]*Term{}, items(a)...)
	ib := append([]*Term{}, items(b)...)
	progress := true
	for progress && len(ia)+len(ib) > 0 {
		progress = false
		p.steps++
		if p.steps > proveBudget {
			p.unk = true
			break
		}
		if len(ia) > 0 && len(ib) > 0 {
			if r, na, nb := p.head(facts, ia, ib, depth); r {
				ia, ib, progress = na, nb, true
				continue
			}
			if p.same(facts, ia[len(ia)-1], ib[len(ib)-1], depth) {
				ia, ib, progress = ia[:len(ia)-1], ib[:len(ib)-1], true
				continue
			}
		}
		// an empty item in the way
		for _, s := range []*[]*Term{&ia, &ib} {
			if len(*s) > 0 && (*s)[0].Op != OpUnit && p.smt(facts, c.Eq(c.Len((*s)[0]), c.I(0))) {
				*s = (*s)[1:]
				progress = true
				break
			}
			if n := len(*s); n > 0 && (*s)[n-1].Op != OpUnit && p.smt(facts, c.Eq(c.Len((*s)[n-1]), c.I(0))) {
				*s = (*s)[:n-1]
				progress = true
				break
			}
		}
	}
	if len(ia)+len(ib) == 0 {
		return true
	}
	goal := c.Eq(c.Cat(S, ia...), c.Cat(S, ib...))
	if goal.isTrue() || p.smt(facts, goal) {
		return true
	}
	if k := p.splitter(goal); k != nil {
		return p.split(facts, goal, k, depth)
	}
	if depth < 50 {
		if g := p.splitFold(facts, goal, ia, ib); g != nil {
			return p.prove(facts, g, depth+5)
		}
	}
	if goal.Op != OpEq { // the simplifier found more structure
		if goal.isFalse() {
			return p.giveUp(facts, goal)
		}
		return p.prove(facts, goal, depth+1)
	}
	return p.giveUp(facts, goal)
}

// head tries to remove equal leading parts.
func (p *prover) head(facts []*Term, ia, ib []*Term, depth int) (bool, []*Term, []*Term) {
	c := p.c
	x, y := ia[0], ib[0]
	if p.same(facts, x, y, depth) {
		return true, ia[1:], ib[1:]
	}
	// a constant against a variable byte integer of a known value
	for k := 0; k < 2; k++ {
		if x.Op == OpUnit && y.Op == OpUF && y.Name == "varint" && x.Args[0].isConst() && x.Args[0].V < 128 &&
			p.smt(facts, c.Eq(y.Args[0], c.K(x.Args[0].V, y.Args[0].S.W))) {
			return true, ia[1:], ib[1:]
		}
		x, y = y, x
	}
	// x one element, y at least one element of something
	for k := 0; k < 2; k++ {
		if x.Op == OpUnit && (y.Op == OpSub || y.Op == OpVar || y.Op == OpUF && y.Name != "varint") && p.smt(facts, c.Slt(c.I(0), c.Len(y))) {
			var us []*Term
			for j, l := range x.Args {
				us = append(us, c.At(y, c.I(0), j, l.S))
			}
			u := c.Unit(x.S, us...)
			if p.same(facts, x, u, depth) {
				rest := c.SubSeq(y, c.I(1), c.Sub(c.Len(y), c.I(1)))
				nb := append(append([]*Term{}, items(rest)...), ib[1:]...)
				if k == 1 {
					return true, nb, ia[1:]
				}
				return true, ia[1:], nb
			}
		}
		x, y = y, x
		ia, ib = ib, ia
	}
	// parts of the same sequence
	if x.Op == OpSub && y.Op == OpSub && x.Args[0] == y.Args[0] && p.smt(facts, c.Eq(x.Args[1], y.Args[1])) {
		for k := 0; k < 2; k++ {
			if p.smt(facts, c.Sle(x.Args[2], y.Args[2])) {
				rest := c.SubSeq(y.Args[0], c.Add(y.Args[1], x.Args[2]), c.Sub(y.Args[2], x.Args[2]))
				nb := append(append([]*Term{}, items(rest)...), ib[1:]...)
				if k == 1 {
					return true, nb, ia[1:]
				}
				return true, ia[1:], nb
			}
			x, y = y, x
			ia, ib = ib, ia
		}
	}
	return false, ia, ib
}

// same: two items are equal sequences.
func (p *prover) same(facts []*Term, x, y *Term, depth int) bool {
	c := p.c
	if x == y {
		return true
	}
	if x.Op == OpUnit && y.Op == OpUnit {
		for j := range x.Args {
			if !p.eqTerms(facts, x.Args[j], y.Args[j], depth) {
				return false
			}
		}
		return true
	}
	if x.Op == OpIte && y.Op == OpIte {
		k1, k2 := x.Args[0], y.Args[0]
		if k1 != k2 {
			if p.smt(facts, c.Eq(k1, k2)) {
				k2 = k1
			} else if p.smt(facts, c.Eq(k1, c.Not(k2))) {
				y = c.Ite(k1, y.Args[2], y.Args[1])
				k2 = k1
				if y.Op != OpIte {
					return false
				}
			}
		}
		if k1 == k2 {
			return p.eqTerms(with(facts, k1), x.Args[1], y.Args[1], depth) && p.eqTerms(with(facts, c.Not(k1)), x.Args[2], y.Args[2], depth)
		}
		return false
	}
	if x.Op == OpFold && y.Op == OpFold {
		if !p.eqTerms(facts, x.Args[0], y.Args[0], depth) {
			return false
		}
		fs := p.elemFacts(facts, x.Args[0], depth)
		if y.Args[0] != x.Args[0] {
			fs = p.elemFacts(fs, y.Args[0], depth)
		}
		return p.eqTerms(fs, p.ren(depth, x.Args[1]), p.ren(depth, y.Args[1]), depth)
	}
	if x.Op == OpUF && y.Op == OpUF && x.Name == y.Name && len(x.Args) == len(y.Args) {
		for i := range x.Args {
			if x.Args[i].S != y.Args[i].S || !p.eqTerms(facts, x.Args[i], y.Args[i], depth) {
				return false
			}
		}
		return true
	}
	if x.Op == OpSub && y.Op == OpSub && x.Args[0] == y.Args[0] {
		return p.smt(facts, c.And(c.Eq(x.Args[1], y.Args[1]), c.Eq(x.Args[2], y.Args[2])))
	}
	for k := 0; k < 2; k++ {
		if x.Op == OpSub && x.Args[0] == y {
			return p.smt(facts, c.And(c.Eq(x.Args[1], c.I(0)), c.Eq(x.Args[2], c.Len(y))))
		}
		x, y = y, x
	}
	return false
}

// atElem is the contribution of the i-th element of a sequence.
func (c *Ctx) atElem(body, base, i *Term) *Term {
	m := map[*Term]*Term{}
	for _, v := range c.boundVars(body) {
		var j int
		if k, _ := fmt.Sscanf(v.Name, "#e.%d", &j); k == 1 {
			m[v] = c.At(base, i, j, v.S)
		}
	}
	return c.Subst(body, m)
}
