package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Terms of the logic: booleans, bit vectors (machine integers, exact), sequences (strings, byte slices, slices of
// structs), references (pointers, interfaces, channels, functions) and maps.

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KSeq
	KRef
	KMap
)

type Sort struct {
	K Kind
	W int    // width of a BV
	T string // element type of a Seq, key/value type of a Map
}

var (
	BoolS = Sort{K: KBool}
	RefS  = Sort{K: KRef}
	Bytes = Sort{K: KSeq, T: "uint8"}
)

func BV(w int) Sort { return Sort{K: KBV, W: w} }

type Op uint8

const (
	OpTrue Op = iota
	OpFalse
	OpVar
	OpConst
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpLin
	OpMul
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpAndB
	OpOrB
	OpXorB
	OpShl
	OpLshr
	OpAshr
	OpZext
	OpSext
	OpExtract // V = lo
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpEmpty
	OpUnit
	OpCat
	OpLen
	OpAt // V = leaf index
	OpSub
	OpFold   // (collection, body)
	OpSum    // (collection, body)
	OpForall // (collection, body)
	OpCard   // number of entries of a map
	OpUF
	OpMapEmpty
	OpMapPut
	OpMapDel
	OpMapFilter
	OpMapHas
	OpMapGet // V = leaf index
	OpNil
	OpPtr // V = object, Name = path pattern, Args = symbolic indices
	OpGlob
	OpBox // Name = type
)

var opNames = map[Op]string{OpTrue: "true", OpFalse: "false", OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite",
	OpLin: "+", OpMul: "*", OpUdiv: "udiv", OpUrem: "urem", OpSdiv: "sdiv", OpSrem: "srem", OpAndB: "&", OpOrB: "|", OpXorB: "^",
	OpShl: "<<", OpLshr: ">>", OpAshr: ">>a", OpZext: "zext", OpSext: "sext", OpExtract: "extract", OpUlt: "<u", OpUle: "<=u",
	OpSlt: "<s", OpSle: "<=s", OpEmpty: "ε", OpUnit: "unit", OpCat: "++", OpLen: "len", OpAt: "at", OpSub: "sub", OpFold: "fold",
	OpSum: "sum", OpForall: "forall", OpCard: "card", OpMapEmpty: "∅", OpMapPut: "put", OpMapDel: "del", OpMapFilter: "filter",
	OpMapHas: "has", OpMapGet: "get", OpNil: "nil", OpPtr: "ptr", OpGlob: "global", OpBox: "box"}

type Term struct {
	Op    Op
	S     Sort
	Args  []*Term
	Coef  []uint64
	V     uint64
	Name  string
	ID    int
	hasBV bool // contains a bound variable (name starting with #)
}

// Ctx owns the hash-consing tables of one verification run.
type Ctx struct {
	tab   map[string]*Term
	terms []*Term
	fresh map[string]int

	T, F, Nil *Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, fresh: map[string]int{}}
	c.T = c.mk(&Term{Op: OpTrue, S: BoolS})
	c.F = c.mk(&Term{Op: OpFalse, S: BoolS})
	c.Nil = c.mk(&Term{Op: OpNil, S: RefS})
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%d,%d,%s|%d|%s", t.Op, t.S.K, t.S.W, t.S.T, t.V, t.Name)
	for i, a := range t.Args {
		fmt.Fprintf(&b, "|%d", a.ID)
		if t.Coef != nil {
			fmt.Fprintf(&b, "*%d", t.Coef[i])
		}
		if a.hasBV {
			t.hasBV = true
		}
	}
	k := b.String()
	if o, ok := c.tab[k]; ok {
		return o
	}
	if t.Op == OpVar && strings.HasPrefix(t.Name, "#") {
		t.hasBV = true
	}
	if t.Op == OpFold || t.Op == OpSum || t.Op == OpForall || t.Op == OpMapFilter {
		t.hasBV = t.Args[0].hasBV
	}
	t.ID = len(c.terms)
	c.terms = append(c.terms, t)
	c.tab[k] = t
	return t
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 14 {
		return "…"
	}
	switch t.Op {
	case OpVar:
		return t.Name
	case OpConst:
		return fmt.Sprintf("%d", t.V)
	case OpLin:
		var p []string
		for i, a := range t.Args {
			s := a.str(d + 1)
			co := int64(t.Coef[i])
			if t.S.W < 64 && co >= 1<<(t.S.W-1) {
				co -= 1 << t.S.W
			}
			if co != 1 {
				s = fmt.Sprintf("%d*%s", co, s)
			}
			p = append(p, s)
		}
		if t.V != 0 {
			p = append(p, fmt.Sprint(int64(t.V)))
		}
		return "(" + strings.Join(p, "+") + ")"
	case OpPtr:
		s := fmt.Sprintf("&o%d%s", t.V, t.Name)
		for _, a := range t.Args {
			s += "[" + a.str(d+1) + "]"
		}
		return s
	case OpCat:
		var p []string
		for _, a := range t.Args {
			p = append(p, a.str(d+1))
		}
		return "<" + strings.Join(p, " ++ ") + ">"
	}
	n := opNames[t.Op]
	if t.Op == OpUF || t.Op == OpGlob || t.Op == OpBox {
		n += t.Name
	}
	if t.Op == OpExtract {
		n += fmt.Sprintf("[%d+%d]", t.V, t.S.W)
	}
	if t.Op == OpZext || t.Op == OpSext {
		n += fmt.Sprint(t.S.W)
	}
	if (t.Op == OpAt || t.Op == OpMapGet) && t.V != 0 {
		n += fmt.Sprintf(".%d", t.V)
	}
	if len(t.Args) == 0 {
		return n
	}
	var p []string
	for _, a := range t.Args {
		p = append(p, a.str(d+1))
	}
	return n + "(" + strings.Join(p, ",") + ")"
}

/* ---- variables and constants ---- */

func (c *Ctx) Var(name string, s Sort) *Term { return c.mk(&Term{Op: OpVar, S: s, Name: name}) }

func (c *Ctx) Fresh(name string, s Sort) *Term {
	c.fresh[name]++
	return c.Var(fmt.Sprintf("%s!%d", name, c.fresh[name]), s)
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func (c *Ctx) K(v uint64, w int) *Term {
	return c.mk(&Term{Op: OpConst, S: BV(w), V: v & mask(w)})
}

func (c *Ctx) I(v int64) *Term { return c.K(uint64(v), 64) }

func (c *Ctx) B(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func (t *Term) isConst() bool { return t.Op == OpConst }
func (t *Term) isTrue() bool  { return t.Op == OpTrue }
func (t *Term) isFalse() bool { return t.Op == OpFalse }

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-uint(w))) >> (64 - uint(w))
}

/* ---- booleans ---- */

func (c *Ctx) Not(a *Term) *Term {
	switch a.Op {
	case OpTrue:
		return c.F
	case OpFalse:
		return c.T
	case OpNot:
		return a.Args[0]
	case OpUlt:
		return c.Ule(a.Args[1], a.Args[0])
	case OpUle:
		return c.Ult(a.Args[1], a.Args[0])
	case OpSlt:
		return c.Sle(a.Args[1], a.Args[0])
	case OpSle:
		return c.Slt(a.Args[1], a.Args[0])
	}
	return c.mk(&Term{Op: OpNot, S: BoolS, Args: []*Term{a}})
}

func (c *Ctx) And(as ...*Term) *Term { return c.nary(OpAnd, as) }
func (c *Ctx) Or(as ...*Term) *Term  { return c.nary(OpOr, as) }

func (c *Ctx) nary(op Op, as []*Term) *Term {
	unit, zero := c.T, c.F
	if op == OpOr {
		unit, zero = c.F, c.T
	}
	seen := map[int]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit || seen[t.ID] {
			return true
		}
		if t == zero {
			return false
		}
		if t.Op == op {
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(t).ID] {
			return false
		}
		seen[t.ID] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return c.mk(&Term{Op: op, S: BoolS, Args: out})
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(k, a, b *Term) *Term {
	if k.isTrue() || a == b {
		return a
	}
	if k.isFalse() {
		return b
	}
	if k.Op == OpNot {
		return c.Ite(k.Args[0], b, a)
	}
	if a.S != b.S {
		panic(fmt.Sprintf("ite of different sorts %v %v: %v / %v", a.S, b.S, a, b))
	}
	// nested decisions on the same condition
	if a.Op == OpIte && a.Args[0] == k {
		a = a.Args[1]
	}
	if b.Op == OpIte && b.Args[0] == k {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	switch a.S.K {
	case KBool:
		switch {
		case a.isTrue():
			return c.Or(k, b)
		case a.isFalse():
			return c.And(c.Not(k), b)
		case b.isTrue():
			return c.Or(c.Not(k), a)
		case b.isFalse():
			return c.And(k, a)
		}
	case KBV:
		if a.Op == OpLin || b.Op == OpLin {
			// factor the common linear part out
			la, lb := c.lin(a), c.lin(b)
			common := &linear{w: a.S.W, m: map[*Term]uint64{}}
			for t, x := range la.m {
				if lb.m[t] == x {
					common.m[t] = x
				}
			}
			if len(common.m) > 0 {
				for t := range common.m {
					delete(la.m, t)
					delete(lb.m, t)
				}
				// move the constant of the else branch out too, so that base+x / base becomes base+ite(x,0)
				common.k = lb.k
				if len(la.m) == 0 && (len(lb.m) > 0 || sx(la.k&mask(la.w), la.w) < sx(lb.k&mask(lb.w), lb.w)) {
					common.k = la.k
				}
				la.k -= common.k
				lb.k -= common.k
				return c.Add(c.unlin(common), c.Ite(k, c.unlin(la), c.unlin(lb)))
			}
		}
	case KSeq:
		ia, ib := items(a), items(b)
		var pre, suf []*Term
		for len(ia) > 0 && len(ib) > 0 && ia[0] == ib[0] {
			pre = append(pre, ia[0])
			ia, ib = ia[1:], ib[1:]
		}
		for len(ia) > 0 && len(ib) > 0 && ia[len(ia)-1] == ib[len(ib)-1] {
			suf = append([]*Term{ia[len(ia)-1]}, suf...)
			ia, ib = ia[:len(ia)-1], ib[:len(ib)-1]
		}
		if len(pre)+len(suf) > 0 {
			mid := c.Ite(k, c.Cat(a.S, ia...), c.Cat(a.S, ib...))
			return c.Cat(a.S, append(append(pre, mid), suf...)...)
		}
	}
	return c.mk(&Term{Op: OpIte, S: a.S, Args: []*Term{k, a, b}})
}

func (c *Ctx) Ne(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.S != b.S {
		panic(fmt.Sprintf("eq of different sorts: %v %v / %v %v", a, a.S, b, b.S))
	}
	switch a.S.K {
	case KBool:
		switch {
		case a.isTrue():
			return b
		case b.isTrue():
			return a
		case a.isFalse():
			return c.Not(b)
		case b.isFalse():
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.F
		}
	case KBV:
		if a.isConst() && b.isConst() {
			return c.B(a.V == b.V)
		}
		d := c.lin(c.Sub(a, b))
		if len(d.m) == 0 {
			return c.B(d.k == 0)
		}
		if len(d.m) == 1 {
			for t, x := range d.m {
				if x == 1 {
					return c.eqAtom(t, (-d.k)&mask(d.w))
				}
				if x == mask(d.w) {
					return c.eqAtom(t, d.k)
				}
			}
		}
		// positive part = negative part
		pos := &linear{w: d.w, m: map[*Term]uint64{}}
		neg := &linear{w: d.w, m: map[*Term]uint64{}}
		for t, x := range d.m {
			if sx(x, d.w) > 0 {
				pos.m[t] = x
			} else {
				neg.m[t] = -x & mask(d.w)
			}
		}
		if sx(d.k, d.w) > 0 {
			pos.k = d.k
		} else {
			neg.k = -d.k & mask(d.w)
		}
		a, b = c.unlin(pos), c.unlin(neg)
		if a.isConst() && b.isConst() {
			return c.B(a.V == b.V)
		}
	case KRef:
		if r := c.eqRef(a, b); r != nil {
			return r
		}
	case KSeq:
		return c.eqSeq(a, b)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(&Term{Op: OpEq, S: BoolS, Args: []*Term{a, b}})
}

// eqAtom: atom = constant.
func (c *Ctx) eqAtom(t *Term, v uint64) *Term {
	w := t.S.W
	switch t.Op {
	case OpZext:
		x := t.Args[0]
		if v > mask(x.S.W) {
			return c.F
		}
		return c.Eq(x, c.K(v, x.S.W))
	case OpIte:
		if t.Args[1].isConst() || t.Args[2].isConst() {
			return c.Ite(t.Args[0], c.Eq(t.Args[1], c.K(v, w)), c.Eq(t.Args[2], c.K(v, w)))
		}
	}
	if ub, ok := c.ub(t); ok && v > ub {
		return c.F
	}
	// bit tests have one form: (x & m) = 0 with m applied to the unshifted x
	if t.Op == OpAndB {
		x, m := t.Args[0], t.Args[1]
		if x.isConst() {
			x, m = m, x
		}
		if m.isConst() {
			if v&^m.V != 0 {
				return c.F
			}
			if v != 0 && v == m.V && v&(v-1) == 0 {
				return c.Not(c.eqAtom(t, 0))
			}
			if k := uint64(0); x.Op == OpLshr && x.Args[1].isConst() {
				if k = x.Args[1].V; k < 64 && (m.V<<k)&mask(w)>>k == m.V {
					return c.Eq(c.AndB(x.Args[0], c.K(m.V<<k&mask(w), w)), c.K(v<<k&mask(w), w))
				}
			}
		}
	}
	a, b := t, c.K(v, w)
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk(&Term{Op: OpEq, S: BoolS, Args: []*Term{a, b}})
}

func distinctRef(t *Term) bool {
	return t.Op == OpNil || t.Op == OpPtr || t.Op == OpGlob || t.Op == OpBox
}

func (c *Ctx) eqRef(a, b *Term) *Term {
	if a.Op == OpIte {
		return c.Ite(a.Args[0], c.Eq(a.Args[1], b), c.Eq(a.Args[2], b))
	}
	if b.Op == OpIte {
		return c.Ite(b.Args[0], c.Eq(a, b.Args[1]), c.Eq(a, b.Args[2]))
	}
	if distinctRef(a) && distinctRef(b) {
		if a.Op != b.Op {
			return c.F
		}
		switch a.Op {
		case OpPtr:
			if a.V != b.V || a.Name != b.Name {
				return c.F
			}
			var es []*Term
			for i := range a.Args {
				es = append(es, c.Eq(a.Args[i], b.Args[i]))
			}
			return c.And(es...)
		case OpGlob:
			return c.F
		case OpBox:
			if a.Name != b.Name {
				return c.F
			}
			var es []*Term
			for i := range a.Args {
				es = append(es, c.Eq(a.Args[i], b.Args[i]))
			}
			return c.And(es...)
		}
	}
	return nil
}

/* ---- linear arithmetic normal form ---- */

type linear struct {
	w int
	m map[*Term]uint64
	k uint64
}

func (c *Ctx) lin(t *Term) *linear {
	l := &linear{w: t.S.W, m: map[*Term]uint64{}}
	switch t.Op {
	case OpConst:
		l.k = t.V
	case OpLin:
		l.k = t.V
		for i, a := range t.Args {
			l.m[a] = t.Coef[i]
		}
	case OpIte:
		if a, b := t.Args[1], t.Args[2]; a.isConst() && b.isConst() && l.w >= 32 {
			m := a.V
			if sx(b.V, l.w) < sx(a.V, l.w) {
				m = b.V
			}
			if m != 0 {
				l.k = m
				l.m[c.Ite(t.Args[0], c.K(a.V-m, l.w), c.K(b.V-m, l.w))] = 1
				return l
			}
		}
		l.m[t] = 1
	default:
		l.m[t] = 1
	}
	return l
}

func (c *Ctx) unlin(l *linear) *Term {
	l.k &= mask(l.w)
	var as []*Term
	for t, x := range l.m {
		if x&mask(l.w) != 0 {
			as = append(as, t)
		}
	}
	if len(as) == 0 {
		return c.K(l.k, l.w)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	co := make([]uint64, len(as))
	for i, t := range as {
		co[i] = l.m[t] & mask(l.w)
	}
	if len(as) == 1 && co[0] == 1 && l.k == 0 {
		return as[0]
	}
	return c.mk(&Term{Op: OpLin, S: BV(l.w), Args: as, Coef: co, V: l.k})
}

func (l *linear) add(o *linear, f uint64) {
	for t, x := range o.m {
		l.m[t] += x * f
	}
	l.k += o.k * f
}

func (c *Ctx) Add(as ...*Term) *Term {
	l := &linear{w: as[0].S.W, m: map[*Term]uint64{}}
	for _, a := range as {
		if a.S.W != l.w {
			panic("add of different widths")
		}
		l.add(c.lin(a), 1)
	}
	return c.unlin(l)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	l := &linear{w: a.S.W, m: map[*Term]uint64{}}
	l.add(c.lin(a), 1)
	l.add(c.lin(b), ^uint64(0))
	return c.unlin(l)
}

func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.K(0, a.S.W), a) }

func (c *Ctx) Scale(a *Term, f uint64) *Term {
	l := &linear{w: a.S.W, m: map[*Term]uint64{}}
	l.add(c.lin(a), f)
	return c.unlin(l)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() {
		return c.Scale(b, a.V)
	}
	if b.isConst() {
		return c.Scale(a, b.V)
	}
	return c.bin(OpMul, a, b)
}

func (c *Ctx) bin(op Op, a, b *Term) *Term {
	return c.mk(&Term{Op: op, S: a.S, Args: []*Term{a, b}})
}

// ub gives an upper bound of t as an unsigned number, if one below 2^62 is known.
func (c *Ctx) ub(t *Term) (uint64, bool) {
	const lim = 1 << 62
	switch t.Op {
	case OpConst:
		return t.V, t.V < lim
	case OpLen, OpCard:
		return maxLen, true
	case OpSum:
		if t.S.W == 64 {
			if _, ok := c.ub(t.Args[1]); ok {
				return maxLen, true
			}
		}
	case OpZext:
		w := t.Args[0].S.W
		if u, ok := c.ub(t.Args[0]); ok {
			return u, true
		}
		if w < 62 {
			return mask(w), true
		}
	case OpExtract, OpVar, OpAt, OpUF, OpMapGet:
		if t.Op == OpUF && t.Name == "varintlen" {
			return 4, true
		}
		if t.S.W < 62 {
			return mask(t.S.W), true
		}
	case OpIte:
		a, ok1 := c.ub(t.Args[1])
		b, ok2 := c.ub(t.Args[2])
		if ok1 && ok2 {
			if a < b {
				a = b
			}
			return a, true
		}
	case OpAndB:
		a, ok1 := c.ub(t.Args[0])
		b, ok2 := c.ub(t.Args[1])
		if ok1 && (!ok2 || a < b) {
			return a, true
		}
		return b, ok2
	case OpLin:
		sum := t.V
		if sum >= lim {
			return 0, false
		}
		for i, a := range t.Args {
			u, ok := c.ub(a)
			if !ok || t.Coef[i] >= lim {
				return 0, false
			}
			hi, lo := bits.Mul64(u, t.Coef[i])
			if hi != 0 || lo >= lim || sum+lo >= lim {
				return 0, false
			}
			sum += lo
		}
		if t.S.W < 64 && sum > mask(t.S.W) {
			return 0, false
		}
		return sum, true
	}
	return 0, false
}

// maxLen bounds the length of every sequence (assumption: no object has 2^48 or more bytes).
const maxLen = 1<<48 - 1

func (c *Ctx) nonneg(t *Term) bool {
	u, ok := c.ub(t)
	return ok && u < 1<<uint(t.S.W-1)
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.isConst() && b.isConst() {
		return c.B(a.V < b.V)
	}
	if a.isConst() && a.V == 0 {
		return c.Ne(b, a)
	}
	if b.isConst() && b.V == 0 {
		return c.F
	}
	if b.isConst() && b.V == 1 {
		return c.Eq(a, c.K(0, a.S.W))
	}
	if b.isConst() {
		if u, ok := c.ub(a); ok && u < b.V {
			return c.T
		}
		if a.Op == OpZext {
			x := a.Args[0]
			if b.V > mask(x.S.W) {
				return c.T
			}
			return c.Ult(x, c.K(b.V, x.S.W))
		}
	}
	if a.isConst() {
		if u, ok := c.ub(b); ok && u <= a.V {
			return c.F
		}
		if b.Op == OpZext && a.V <= mask(b.Args[0].S.W) {
			return c.Ult(c.K(a.V, b.Args[0].S.W), b.Args[0])
		}
	}
	return c.mk(&Term{Op: OpUlt, S: BoolS, Args: []*Term{a, b}})
}

func (c *Ctx) Ule(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.isConst() && b.isConst() {
		return c.B(a.V <= b.V)
	}
	if b.isConst() {
		if b.V == mask(b.S.W) {
			return c.T
		}
		return c.Ult(a, c.K(b.V+1, b.S.W))
	}
	if a.isConst() {
		if a.V == 0 {
			return c.T
		}
		return c.Ult(c.K(a.V-1, a.S.W), b)
	}
	return c.mk(&Term{Op: OpUle, S: BoolS, Args: []*Term{a, b}})
}

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.isConst() && b.isConst() {
		return c.B(sx(a.V, a.S.W) < sx(b.V, b.S.W))
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Ult(a, b)
	}
	if b.isConst() && sx(b.V, b.S.W) <= 0 && c.nonneg(a) {
		return c.F
	}
	if a.isConst() && sx(a.V, a.S.W) < 0 && c.nonneg(b) {
		return c.T
	}
	return c.mk(&Term{Op: OpSlt, S: BoolS, Args: []*Term{a, b}})
}

func (c *Ctx) Sle(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.isConst() && b.isConst() {
		return c.B(sx(a.V, a.S.W) <= sx(b.V, b.S.W))
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Ule(a, b)
	}
	if b.isConst() && sx(b.V, b.S.W) < sx(mask(b.S.W-1), b.S.W) {
		return c.Slt(a, c.K(b.V+1, b.S.W))
	}
	if a.isConst() && a.V != 1<<uint(a.S.W-1) {
		return c.Slt(c.K(a.V-1, a.S.W), b)
	}
	return c.mk(&Term{Op: OpSle, S: BoolS, Args: []*Term{a, b}})
}

func (c *Ctx) Zext(a *Term, w int) *Term {
	if a.S.W == w {
		return a
	}
	switch a.Op {
	case OpConst:
		return c.K(a.V, w)
	case OpZext:
		return c.Zext(a.Args[0], w)
	case OpIte:
		return c.Ite(a.Args[0], c.Zext(a.Args[1], w), c.Zext(a.Args[2], w))
	}
	return c.mk(&Term{Op: OpZext, S: BV(w), Args: []*Term{a}})
}

func (c *Ctx) Sext(a *Term, w int) *Term {
	if a.S.W == w {
		return a
	}
	switch a.Op {
	case OpConst:
		return c.K(uint64(sx(a.V, a.S.W)), w)
	case OpZext:
		return c.Zext(a, w)
	case OpIte:
		return c.Ite(a.Args[0], c.Sext(a.Args[1], w), c.Sext(a.Args[2], w))
	}
	return c.mk(&Term{Op: OpSext, S: BV(w), Args: []*Term{a}})
}

// Extract takes w bits from bit lo on.
func (c *Ctx) Extract(a *Term, lo, w int) *Term {
	if lo == 0 && w == a.S.W {
		return a
	}
	switch a.Op {
	case OpConst:
		return c.K(a.V>>uint(lo), w)
	case OpIte:
		return c.Ite(a.Args[0], c.Extract(a.Args[1], lo, w), c.Extract(a.Args[2], lo, w))
	case OpExtract:
		return c.Extract(a.Args[0], lo+int(a.V), w)
	case OpZext:
		x := a.Args[0]
		if lo >= x.S.W {
			return c.K(0, w)
		}
		if lo+w <= x.S.W {
			return c.Extract(x, lo, w)
		}
		if lo == 0 {
			return c.Zext(x, w)
		}
	case OpSext:
		x := a.Args[0]
		if lo+w <= x.S.W {
			return c.Extract(x, lo, w)
		}
		if lo == 0 {
			return c.Sext(x, w)
		}
	case OpLshr:
		if a.Args[1].isConst() && int(a.Args[1].V)+lo+w <= a.S.W {
			return c.Extract(a.Args[0], lo+int(a.Args[1].V), w)
		}
	case OpLin:
		if lo == 0 {
			l := &linear{w: w, m: map[*Term]uint64{}, k: a.V}
			for i, x := range a.Args {
				l.add(c.lin(c.Extract(x, 0, w)), a.Coef[i])
			}
			return c.unlin(l)
		}
	case OpSum:
		if lo == 0 {
			return c.Sum(a.Args[0], c.Extract(a.Args[1], 0, w))
		}
	case OpAndB, OpOrB, OpXorB:
		x, y := c.Extract(a.Args[0], lo, w), c.Extract(a.Args[1], lo, w)
		switch a.Op {
		case OpAndB:
			return c.AndB(x, y)
		case OpOrB:
			return c.OrB(x, y)
		}
		return c.XorB(x, y)
	}
	return c.mk(&Term{Op: OpExtract, S: BV(w), V: uint64(lo), Args: []*Term{a}})
}

func (c *Ctx) ord(a, b *Term) (*Term, *Term) {
	if a.ID > b.ID {
		return b, a
	}
	return a, b
}

func (c *Ctx) AndB(a, b *Term) *Term {
	a, b = c.ord(a, b)
	if a == b {
		return a
	}
	for i := 0; i < 2; i++ {
		if a.isConst() {
			if a.V == 0 {
				return a
			}
			if a.V == mask(a.S.W) {
				return b
			}
			if b.isConst() {
				return c.K(a.V&b.V, a.S.W)
			}
		}
		if a.isConst() && b.Op == OpAndB {
			for j := 0; j < 2; j++ {
				if b.Args[j].isConst() {
					return c.AndB(b.Args[1-j], c.K(a.V&b.Args[j].V, a.S.W))
				}
			}
		}
		a, b = b, a
	}
	return c.bin(OpAndB, a, b)
}

func (c *Ctx) OrB(a, b *Term) *Term {
	a, b = c.ord(a, b)
	if a == b {
		return a
	}
	for i := 0; i < 2; i++ {
		if a.isConst() {
			if a.V == 0 {
				return b
			}
			if a.V == mask(a.S.W) {
				return a
			}
			if b.isConst() {
				return c.K(a.V|b.V, a.S.W)
			}
		}
		a, b = b, a
	}
	return c.bin(OpOrB, a, b)
}

func (c *Ctx) XorB(a, b *Term) *Term {
	a, b = c.ord(a, b)
	if a == b {
		return c.K(0, a.S.W)
	}
	if a.isConst() && b.isConst() {
		return c.K(a.V^b.V, a.S.W)
	}
	if a.isConst() && a.V == 0 {
		return b
	}
	if b.isConst() && b.V == 0 {
		return a
	}
	return c.bin(OpXorB, a, b)
}

// Shl etc.: the shift count has the width of a; Go semantics for counts >= width match SMT-LIB.
func (c *Ctx) Shl(a, n *Term) *Term {
	if n.isConst() {
		if n.V == 0 {
			return a
		}
		if n.V >= uint64(a.S.W) {
			return c.K(0, a.S.W)
		}
		if a.isConst() {
			return c.K(a.V<<n.V, a.S.W)
		}
	}
	return c.bin(OpShl, a, n)
}

func (c *Ctx) Lshr(a, n *Term) *Term {
	if n.isConst() {
		if n.V == 0 {
			return a
		}
		if n.V >= uint64(a.S.W) {
			return c.K(0, a.S.W)
		}
		if a.isConst() {
			return c.K(a.V>>n.V, a.S.W)
		}
		if a.Op == OpLshr && a.Args[1].isConst() && a.Args[1].V+n.V < 64 {
			return c.Lshr(a.Args[0], c.K(a.Args[1].V+n.V, a.S.W))
		}
		if a.Op == OpAndB {
			if a.Args[0].isConst() {
				return c.AndB(c.Lshr(a.Args[1], n), c.K(a.Args[0].V>>n.V, a.S.W))
			}
			if a.Args[1].isConst() {
				return c.AndB(c.Lshr(a.Args[0], n), c.K(a.Args[1].V>>n.V, a.S.W))
			}
		}
	}
	return c.bin(OpLshr, a, n)
}

func (c *Ctx) Ashr(a, n *Term) *Term {
	if n.isConst() && a.isConst() && n.V < 64 {
		return c.K(uint64(sx(a.V, a.S.W)>>n.V), a.S.W)
	}
	if c.nonneg(a) {
		return c.Lshr(a, n)
	}
	return c.bin(OpAshr, a, n)
}

func (c *Ctx) Udiv(a, b *Term) *Term {
	if b.isConst() && b.V != 0 {
		if a.isConst() {
			return c.K(a.V/b.V, a.S.W)
		}
		if bits.OnesCount64(b.V) == 1 {
			return c.Lshr(a, c.K(uint64(bits.TrailingZeros64(b.V)), a.S.W))
		}
	}
	return c.bin(OpUdiv, a, b)
}

func (c *Ctx) Urem(a, b *Term) *Term {
	if b.isConst() && b.V != 0 {
		if a.isConst() {
			return c.K(a.V%b.V, a.S.W)
		}
		if bits.OnesCount64(b.V) == 1 {
			return c.AndB(a, c.K(b.V-1, a.S.W))
		}
	}
	return c.bin(OpUrem, a, b)
}

func (c *Ctx) Sdiv(a, b *Term) *Term {
	if c.nonneg(a) && c.nonneg(b) {
		return c.Udiv(a, b)
	}
	if a.isConst() && b.isConst() && b.V != 0 {
		return c.K(uint64(sx(a.V, a.S.W)/sx(b.V, b.S.W)), a.S.W)
	}
	return c.bin(OpSdiv, a, b)
}

func (c *Ctx) Srem(a, b *Term) *Term {
	if c.nonneg(a) && c.nonneg(b) {
		return c.Urem(a, b)
	}
	return c.bin(OpSrem, a, b)
}

func (c *Ctx) UF(name string, s Sort, args ...*Term) *Term {
	if len(args) == 1 && args[0].isConst() && args[0].V < 1<<28 {
		v, n := args[0].V, 0
		var us []*Term
		for first := true; first || v > 0; first = false {
			b := v & 127
			if v >>= 7; v > 0 {
				b |= 128
			}
			us = append(us, c.Unit(s, c.K(b, 8)))
			n++
		}
		switch name {
		case "varint":
			return c.Cat(s, us...)
		case "varintlen":
			return c.K(uint64(n), s.W)
		}
	}
	return c.mk(&Term{Op: OpUF, S: s, Name: name, Args: args})
}

/* ---- sequences ---- */

func items(t *Term) []*Term {
	switch t.Op {
	case OpEmpty:
		return nil
	case OpCat:
		return t.Args
	}
	return []*Term{t}
}

func (c *Ctx) Empty(s Sort) *Term { return c.mk(&Term{Op: OpEmpty, S: s}) }

func (c *Ctx) Unit(s Sort, leaves ...*Term) *Term {
	return c.mk(&Term{Op: OpUnit, S: s, Args: leaves})
}

func (c *Ctx) StrConst(v string) *Term {
	var u []*Term
	for i := 0; i < len(v); i++ {
		u = append(u, c.Unit(Bytes, c.K(uint64(v[i]), 8)))
	}
	return c.Cat(Bytes, u...)
}

func (c *Ctx) Cat(s Sort, as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		for _, x := range items(a) {
			if n := len(out); n > 0 && x.Op == OpSub && out[n-1].Op == OpSub && x.Args[0] == out[n-1].Args[0] &&
				c.Add(out[n-1].Args[1], out[n-1].Args[2]) == x.Args[1] {
				p := out[n-1]
				out = append(out[:n-1:n-1], items(c.SubSeq(p.Args[0], p.Args[1], c.Add(p.Args[2], x.Args[2])))...)
				continue
			}
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return c.Empty(s)
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{Op: OpCat, S: s, Args: out})
}

func (c *Ctx) Len(t *Term) *Term {
	switch t.Op {
	case OpEmpty:
		return c.I(0)
	case OpUnit:
		return c.I(1)
	case OpCat:
		r := c.I(0)
		for _, a := range t.Args {
			r = c.Add(r, c.Len(a))
		}
		return r
	case OpIte:
		return c.Ite(t.Args[0], c.Len(t.Args[1]), c.Len(t.Args[2]))
	case OpSub:
		return t.Args[2]
	case OpFold:
		return c.Sum(t.Args[0], c.Len(t.Args[1]))
	case OpUF:
		if t.Name == "varint" {
			return c.UF("varintlen", BV(64), t.Args[0])
		}
		if t.Name == "zeros" {
			return t.Args[0]
		}
	}
	return c.mk(&Term{Op: OpLen, S: BV(64), Args: []*Term{t}})
}

// At is leaf j of the element at index i (in range).
func (c *Ctx) At(t, i *Term, j int, s Sort) *Term {
	switch t.Op {
	case OpUnit:
		return t.Args[j]
	case OpIte:
		return c.Ite(t.Args[0], c.At(t.Args[1], i, j, s), c.At(t.Args[2], i, j, s))
	case OpSub:
		return c.At(t.Args[0], c.Add(t.Args[1], i), j, s)
	case OpUF:
		if t.Name == "zeros" && s.K == KBV {
			return c.K(0, s.W)
		}
	case OpCat:
		n := c.Len(t.Args[0])
		rest := c.Cat(t.S, t.Args[1:]...)
		k := c.Ult(i, n)
		if !k.isTrue() && !k.isFalse() {
			if d := c.Sub(i, n); d.isConst() && int64(d.V) >= 0 {
				k = c.F
			} else if c.nonneg(d) {
				k = c.F
			}
		}
		if k.isTrue() {
			return c.At(t.Args[0], i, j, s)
		}
		r := c.At(rest, c.Sub(i, n), j, s)
		if k.isFalse() {
			return r
		}
		return c.Ite(k, c.At(t.Args[0], i, j, s), r)
	}
	return c.mk(&Term{Op: OpAt, S: s, V: uint64(j), Args: []*Term{t, i}})
}

// SubSeq is n elements of t from off on (in range).
func (c *Ctx) SubSeq(t, off, n *Term) *Term {
	if n.isConst() && n.V == 0 {
		return c.Empty(t.S)
	}
	if off.isConst() && off.V == 0 && n == c.Len(t) {
		return t
	}
	switch t.Op {
	case OpSub:
		return c.SubSeq(t.Args[0], c.Add(t.Args[1], off), n)
	case OpUF:
		if t.Name == "zeros" {
			return c.Zeros(t.S, n)
		}
	case OpIte:
		return c.Ite(t.Args[0], c.SubSeq(t.Args[1], off, n), c.SubSeq(t.Args[2], off, n))
	case OpCat:
		// bounds that coincide with bounds of items
		sum := c.I(0)
		for k, x := range t.Args {
			if sum == off && k > 0 {
				return c.SubSeq(c.Cat(t.S, t.Args[k:]...), c.I(0), n)
			}
			if sum == n && off.isConst() && off.V == 0 {
				return c.Cat(t.S, t.Args[:k]...)
			}
			sum = c.Add(sum, c.Len(x))
		}
		// peel leading items while the offset lies behind them
		o, k := off, 0
		for k < len(t.Args) && !(o.isConst() && o.V == 0) {
			l := c.Len(t.Args[k])
			d := c.Sub(o, l)
			if d.isConst() && int64(d.V) >= 0 || c.nonneg(d) {
				o = d
				k++
				continue
			}
			break
		}
		if k > 0 {
			return c.SubSeq(c.Cat(t.S, t.Args[k:]...), o, n)
		}
		// take whole items
		if o.isConst() && o.V == 0 {
			rem, j := n, 0
			for j < len(t.Args) {
				l := c.Len(t.Args[j])
				d := c.Sub(rem, l)
				if d.isConst() && int64(d.V) >= 0 || c.nonneg(d) {
					rem = d
					j++
					if d.isConst() && d.V == 0 {
						break
					}
					continue
				}
				break
			}
			if rem.isConst() && rem.V == 0 {
				return c.Cat(t.S, t.Args[:j]...)
			}
			if j > 0 {
				return c.Cat(t.S, append(append([]*Term{}, t.Args[:j]...), c.SubSeq(c.Cat(t.S, t.Args[j:]...), o, rem))...)
			}
		}
		// inside the first item
		l := c.Len(t.Args[0])
		d := c.Sub(l, c.Add(o, n))
		if d.isConst() && int64(d.V) >= 0 || c.nonneg(d) {
			return c.SubSeq(t.Args[0], o, n)
		}
	}
	return c.mk(&Term{Op: OpSub, S: t.S, Args: []*Term{t, off, n}})
}

// Zeros is a sequence of n zero elements.
func (c *Ctx) Zeros(s Sort, n *Term) *Term {
	if n.isConst() && n.V == 0 {
		return c.Empty(s)
	}
	if s == Bytes && n.isConst() && n.V <= 16 {
		var u []*Term
		for i := uint64(0); i < n.V; i++ {
			u = append(u, c.Unit(s, c.K(0, 8)))
		}
		return c.Cat(s, u...)
	}
	return c.UF("zeros", s, n)
}

func (c *Ctx) eqSeq(a, b *Term) *Term {
	ia, ib := items(a), items(b)
	ea := []*Term{}
	for len(ia) > 0 && len(ib) > 0 {
		x, y := ia[0], ib[0]
		if x == y {
			ia, ib = ia[1:], ib[1:]
			continue
		}
		if x.Op == OpUnit && y.Op == OpUnit {
			for j := range x.Args {
				ea = append(ea, c.Eq(x.Args[j], y.Args[j]))
			}
			ia, ib = ia[1:], ib[1:]
			continue
		}
		break
	}
	for len(ia) > 0 && len(ib) > 0 {
		x, y := ia[len(ia)-1], ib[len(ib)-1]
		if x == y {
			ia, ib = ia[:len(ia)-1], ib[:len(ib)-1]
			continue
		}
		if x.Op == OpUnit && y.Op == OpUnit {
			for j := range x.Args {
				ea = append(ea, c.Eq(x.Args[j], y.Args[j]))
			}
			ia, ib = ia[:len(ia)-1], ib[:len(ib)-1]
			continue
		}
		break
	}
	ra, rb := c.Cat(a.S, ia...), c.Cat(a.S, ib...)
	if ra == rb {
		return c.And(ea...)
	}
	if ra.Op == OpEmpty {
		return c.And(append(ea, c.Eq(c.Len(rb), c.I(0)))...)
	}
	if rb.Op == OpEmpty {
		return c.And(append(ea, c.Eq(c.Len(ra), c.I(0)))...)
	}
	allUnit := func(is []*Term) bool {
		for _, x := range is {
			if x.Op != OpUnit {
				return false
			}
		}
		return true
	}
	for k := 0; k < 2; k++ {
		folds := false
		for _, x := range ia {
			folds = folds || x.Op == OpFold || x.Op == OpUF && x.Name == "varint"
		}
		if allUnit(ib) && len(ib) <= 64 && !folds {
			e := c.Eq(c.Len(ra), c.I(int64(len(ib))))
			if e.isFalse() {
				return c.F
			}
			ea = append(ea, e)
			for i, u := range ib {
				for j, l := range u.Args {
					ea = append(ea, c.Eq(c.At(ra, c.I(int64(i)), j, l.S), l))
				}
			}
			return c.And(ea...)
		}
		ra, rb, ia, ib = rb, ra, ib, ia
	}
	if c.Eq(c.Len(ra), c.Len(rb)).isFalse() {
		return c.F
	}
	ra, rb = c.ord(ra, rb)
	return c.And(append(ea, c.mk(&Term{Op: OpEq, S: BoolS, Args: []*Term{ra, rb}}))...)
}

/* ---- collections ---- */

// Fold is the concatenation of body over the entries of a map (in some order) or the elements of a sequence (in order);
// body uses the bound variables #k.i, #v.i or #e.i.
func (c *Ctx) Fold(coll, body *Term) *Term {
	if coll.Op == OpMapEmpty || coll.Op == OpEmpty || body.Op == OpEmpty {
		return c.Empty(body.S)
	}
	if coll.Op == OpIte {
		return c.Ite(coll.Args[0], c.Fold(coll.Args[1], body), c.Fold(coll.Args[2], body))
	}
	if coll.S.K == KSeq {
		if coll.Op == OpUnit {
			return c.instElem(body, coll.Args)
		}
		if coll.Op == OpCat {
			var out []*Term
			for _, x := range coll.Args {
				out = append(out, c.Fold(x, body))
			}
			return c.Cat(body.S, out...)
		}
		if x, b, ok := c.fused(coll, body); ok {
			return c.Fold(x, b)
		}
	} else if b := c.ofEntry(coll, body); b != body {
		return c.Fold(coll, b)
	} else if k := c.Eq(c.Card(coll), c.I(0)); k.Op == OpEq {
		// where there is an entry, the map is not empty
		if b := c.Subst(body, map[*Term]*Term{k: c.F}); b != body {
			return c.Fold(coll, b)
		}
	}
	return c.mk(&Term{Op: OpFold, S: body.S, Args: []*Term{coll, body}})
}

// ofEntry: the entry visited is in the map, with the value visited.
func (c *Ctx) ofEntry(coll, body *Term) *Term {
	if coll.S.K != KMap || !body.hasBV {
		return body
	}
	sub := map[*Term]*Term{}
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.hasBV || seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if (t.Op == OpMapHas || t.Op == OpMapGet) && t.Args[0] == coll {
			own := true
			for i, k := range t.Args[1:] {
				own = own && k.Op == OpVar && k.Name == fmt.Sprintf("#k.%d", i)
			}
			if own && t.Op == OpMapHas {
				sub[t] = c.T
			} else if own {
				sub[t] = c.Var(fmt.Sprintf("#v.%d", t.V), t.S)
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(body)
	return c.Subst(body, sub)
}

// fused: what is said of the elements of a sequence made element by element from a collection, said of the collection.
func (c *Ctx) fused(coll, body *Term) (*Term, *Term, bool) {
	if coll.Op == OpFold && coll.Args[1].Op == OpUnit {
		return coll.Args[0], c.instElem(body, coll.Args[1].Args), true
	}
	return coll, body, false
}

func (c *Ctx) instElem(body *Term, leaves []*Term) *Term {
	m := map[*Term]*Term{}
	for i, l := range leaves {
		m[c.Var(fmt.Sprintf("#e.%d", i), l.S)] = l
	}
	return c.Subst(body, m)
}

func (c *Ctx) Card(coll *Term) *Term {
	if coll.S.K == KSeq {
		return c.Len(coll)
	}
	if coll.Op == OpMapEmpty {
		return c.I(0)
	}
	if coll.Op == OpIte {
		return c.Ite(coll.Args[0], c.Card(coll.Args[1]), c.Card(coll.Args[2]))
	}
	return c.mk(&Term{Op: OpCard, S: BV(64), Args: []*Term{coll}})
}

func (c *Ctx) Sum(coll, body *Term) *Term {
	w := body.S.W
	body = c.ofEntry(coll, body)
	if coll.Op == OpIte {
		return c.Ite(coll.Args[0], c.Sum(coll.Args[1], body), c.Sum(coll.Args[2], body))
	}
	if x, b, ok := c.fused(coll, body); ok {
		return c.Sum(x, b)
	}
	l := c.lin(body)
	out := c.K(0, w)
	if l.k != 0 {
		out = c.Add(out, c.Scale(c.Extract(c.Card(coll), 0, w), l.k))
	}
	for t, x := range l.m {
		var s *Term
		switch {
		case coll.Op == OpMapEmpty || coll.Op == OpEmpty:
			s = c.K(0, w)
		case !t.hasBV:
			s = c.Mul(c.Extract(c.Card(coll), 0, w), t)
		case coll.Op == OpUnit:
			s = c.instElem(t, coll.Args)
		case coll.Op == OpCat:
			s = c.K(0, w)
			for _, y := range coll.Args {
				s = c.Add(s, c.Sum(y, t))
			}
		default:
			s = c.mk(&Term{Op: OpSum, S: t.S, Args: []*Term{coll, t}})
		}
		out = c.Add(out, c.Scale(s, x))
	}
	return out
}

func (c *Ctx) Forall(coll, body *Term) *Term {
	body = c.ofEntry(coll, body)
	if body.isTrue() || coll.Op == OpMapEmpty || coll.Op == OpEmpty {
		return c.T
	}
	if coll.Op == OpIte {
		return c.Ite(coll.Args[0], c.Forall(coll.Args[1], body), c.Forall(coll.Args[2], body))
	}
	if coll.Op == OpUnit {
		return c.instElem(body, coll.Args)
	}
	if x, b, ok := c.fused(coll, body); ok {
		return c.Forall(x, b)
	}
	if coll.Op == OpCat {
		var out []*Term
		for _, x := range coll.Args {
			out = append(out, c.Forall(x, body))
		}
		return c.And(out...)
	}
	if body.isFalse() && coll.S.K == KMap {
		return c.Eq(c.Card(coll), c.I(0))
	}
	return c.mk(&Term{Op: OpForall, S: BoolS, Args: []*Term{coll, body}})
}

/* ---- maps: key leaves and value leaves are in the sort's registration ---- */

func (c *Ctx) MapEmpty(s Sort) *Term { return c.mk(&Term{Op: OpMapEmpty, S: s}) }

// MapPut: V = number of key leaves.
func (c *Ctx) MapPut(m *Term, key, val []*Term) *Term {
	if m.Op == OpMapPut && c.keyEq(m.Args[1:1+len(key)], key).isTrue() {
		m = m.Args[0]
	}
	return c.mk(&Term{Op: OpMapPut, S: m.S, V: uint64(len(key)), Args: append(append([]*Term{m}, key...), val...)})
}

func (c *Ctx) MapDel(m *Term, key []*Term) *Term {
	if m.Op == OpMapEmpty {
		return m
	}
	return c.mk(&Term{Op: OpMapDel, S: m.S, V: uint64(len(key)), Args: append([]*Term{m}, key...)})
}

func (c *Ctx) keyEq(a, b []*Term) *Term {
	var es []*Term
	for i := range a {
		es = append(es, c.Eq(a[i], b[i]))
	}
	return c.And(es...)
}

func (c *Ctx) MapHas(m *Term, key []*Term) *Term {
	if m.Op == OpIte {
		return c.Ite(m.Args[0], c.MapHas(m.Args[1], key), c.MapHas(m.Args[2], key))
	}
	switch m.Op {
	case OpMapEmpty:
		return c.F
	case OpMapPut:
		n := int(m.V)
		return c.Or(c.keyEq(m.Args[1:1+n], key), c.MapHas(m.Args[0], key))
	case OpMapDel:
		return c.And(c.Not(c.keyEq(m.Args[1:], key)), c.MapHas(m.Args[0], key))
	case OpIte:
		return c.Ite(m.Args[0], c.MapHas(m.Args[1], key), c.MapHas(m.Args[2], key))
	case OpMapFilter:
		return c.And(c.MapHas(m.Args[0], key), c.instEntry(m.Args[1], m.Args[0], key))
	}
	return c.mk(&Term{Op: OpMapHas, S: BoolS, Args: append([]*Term{m}, key...)})
}

func (c *Ctx) MapGet(m *Term, key []*Term, j int, s Sort) *Term {
	if m.Op == OpIte {
		return c.Ite(m.Args[0], c.MapGet(m.Args[1], key, j, s), c.MapGet(m.Args[2], key, j, s))
	}
	switch m.Op {
	case OpMapPut:
		n := int(m.V)
		return c.Ite(c.keyEq(m.Args[1:1+n], key), m.Args[1+n+j], c.MapGet(m.Args[0], key, j, s))
	case OpMapDel, OpMapFilter:
		return c.MapGet(m.Args[0], key, j, s)
	case OpIte:
		return c.Ite(m.Args[0], c.MapGet(m.Args[1], key, j, s), c.MapGet(m.Args[2], key, j, s))
	}
	return c.mk(&Term{Op: OpMapGet, S: s, V: uint64(j), Args: append([]*Term{m}, key...)})
}

// instEntry instantiates a body over #k/#v with a key of m and its value.
func (c *Ctx) instEntry(body, m *Term, key []*Term) *Term {
	sub := map[*Term]*Term{}
	for _, v := range c.boundVars(body) {
		var j int
		if strings.HasPrefix(v.Name, "#k.") {
			fmt.Sscanf(v.Name, "#k.%d", &j)
			sub[v] = key[j]
		} else if strings.HasPrefix(v.Name, "#v.") {
			fmt.Sscanf(v.Name, "#v.%d", &j)
			sub[v] = c.MapGet(m, key, j, v.S)
		}
	}
	return c.Subst(body, sub)
}

func (c *Ctx) boundVars(t *Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.hasBV || seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if t.Op == OpVar {
			out = append(out, t)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return out
}

func (c *Ctx) MapFilter(m, body *Term) *Term {
	body = c.ofEntry(m, body)
	if body.isTrue() {
		return m
	}
	if body.isFalse() || m.Op == OpMapEmpty {
		return c.MapEmpty(m.S)
	}
	return c.mk(&Term{Op: OpMapFilter, S: m.S, Args: []*Term{m, body}})
}

/* ---- references ---- */

func (c *Ctx) Ptr(obj int, path string, idx ...*Term) *Term {
	return c.mk(&Term{Op: OpPtr, S: RefS, V: uint64(obj), Name: path, Args: idx})
}

func (c *Ctx) Glob(name string) *Term { return c.mk(&Term{Op: OpGlob, S: RefS, Name: name}) }

func (c *Ctx) Box(typ string, payload ...*Term) *Term {
	return c.mk(&Term{Op: OpBox, S: RefS, Name: typ, Args: payload})
}

/* ---- substitution ---- */

// Subst replaces terms; the result is rebuilt with the simplifying constructors.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	min := -1
	for k := range m {
		if min < 0 || k.ID < min {
			min = k.ID
		}
	}
	return c.subst(t, m, memo, min)
}

func (c *Ctx) subst(t *Term, m, memo map[*Term]*Term, min int) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if t.ID < min || len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	changed := false
	for i, a := range t.Args {
		args[i] = c.subst(a, m, memo, min)
		if args[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = c.rebuild(t, args)
	}
	memo[t] = r
	return r
}

func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case OpNot:
		return c.Not(a[0])
	case OpAnd:
		return c.And(a...)
	case OpOr:
		return c.Or(a...)
	case OpEq:
		return c.Eq(a[0], a[1])
	case OpIte:
		return c.Ite(a[0], a[1], a[2])
	case OpLin:
		l := &linear{w: t.S.W, m: map[*Term]uint64{}, k: t.V}
		for i, x := range a {
			l.add(c.lin(x), t.Coef[i])
		}
		return c.unlin(l)
	case OpMul:
		return c.Mul(a[0], a[1])
	case OpUdiv:
		return c.Udiv(a[0], a[1])
	case OpUrem:
		return c.Urem(a[0], a[1])
	case OpSdiv:
		return c.Sdiv(a[0], a[1])
	case OpSrem:
		return c.Srem(a[0], a[1])
	case OpAndB:
		return c.AndB(a[0], a[1])
	case OpOrB:
		return c.OrB(a[0], a[1])
	case OpXorB:
		return c.XorB(a[0], a[1])
	case OpShl:
		return c.Shl(a[0], a[1])
	case OpLshr:
		return c.Lshr(a[0], a[1])
	case OpAshr:
		return c.Ashr(a[0], a[1])
	case OpZext:
		return c.Zext(a[0], t.S.W)
	case OpSext:
		return c.Sext(a[0], t.S.W)
	case OpExtract:
		return c.Extract(a[0], int(t.V), t.S.W)
	case OpUlt:
		return c.Ult(a[0], a[1])
	case OpUle:
		return c.Ule(a[0], a[1])
	case OpSlt:
		return c.Slt(a[0], a[1])
	case OpSle:
		return c.Sle(a[0], a[1])
	case OpCat:
		return c.Cat(t.S, a...)
	case OpLen:
		return c.Len(a[0])
	case OpAt:
		return c.At(a[0], a[1], int(t.V), t.S)
	case OpSub:
		return c.SubSeq(a[0], a[1], a[2])
	case OpFold:
		return c.Fold(a[0], a[1])
	case OpSum:
		return c.Sum(a[0], a[1])
	case OpForall:
		return c.Forall(a[0], a[1])
	case OpCard:
		return c.Card(a[0])
	case OpMapPut:
		return c.MapPut(a[0], a[1:1+t.V], a[1+t.V:])
	case OpMapDel:
		return c.MapDel(a[0], a[1:])
	case OpMapFilter:
		return c.MapFilter(a[0], a[1])
	case OpMapHas:
		return c.MapHas(a[0], a[1:])
	case OpMapGet:
		return c.MapGet(a[0], a[1:], int(t.V), t.S)
	case OpUF:
		if t.Name == "zeros" {
			return c.Zeros(t.S, a[0])
		}
		return c.UF(t.Name, t.S, a...)
	}
	return c.mk(&Term{Op: t.Op, S: t.S, Args: a, Coef: t.Coef, V: t.V, Name: t.Name})
}

// contains reports whether x occurs in t.
func contains(t, x *Term) bool {
	seen := map[int]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == x {
			return true
		}
		if t.ID < x.ID || seen[t.ID] {
			return false
		}
		seen[t.ID] = true
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}
