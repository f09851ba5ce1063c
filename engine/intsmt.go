package main

import (
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"time"
)

// A second encoding of the same queries: every bit vector is the integer it stands for (unsigned), with its exact range.
// Sums that cannot wrap are plain integer sums; the others are taken modulo the width. Bit operations without an integer
// reading are uninterpreted, so only "unsat" answers are used.

type IntSolver struct {
	c       *Ctx
	main    *Solver
	script  strings.Builder
	names   map[int]string
	decl    map[string]bool
	refNo   map[string]int
	tags    map[string]int
	pending []*Term
	pres    map[int]preR
	iv      map[int][2]*big.Int
}

func (s *IntSolver) emit(l string) { s.script.WriteString(l); s.script.WriteByte('\n') }

func intSort(so Sort) string {
	if so.K == KBV {
		return "Int"
	}
	return smtSort(so)
}

func (s *IntSolver) fun(name string, res Sort, args []*Term) string {
	var as []string
	for _, a := range args {
		as = append(as, intSort(a.S))
	}
	d := fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(as, " "), intSort(res))
	if !s.decl[d] {
		s.decl[d] = true
		s.emit(d)
	}
	return name
}

func pow2(w int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(w)) }

// sgnIv: bounds of a term's value, where a linear term is read with signed coefficients and without wrapping.
func (s *IntSolver) linIv(t *Term) (lo, hi *big.Int) {
	w := t.S.W
	k := big.NewInt(sx(t.V, w))
	lo, hi = new(big.Int).Set(k), new(big.Int).Set(k)
	for i, a := range t.Args {
		f := big.NewInt(sx(t.Coef[i], w))
		al, ah := s.uIv(a)
		x, y := new(big.Int).Mul(al, f), new(big.Int).Mul(ah, f)
		if f.Sign() < 0 {
			x, y = y, x
		}
		lo.Add(lo, x)
		hi.Add(hi, y)
	}
	return
}

// uIv: bounds of the unsigned value.
func (s *IntSolver) uIv(t *Term) (*big.Int, *big.Int) {
	if v, ok := s.iv[t.ID]; ok {
		return v[0], v[1]
	}
	w := t.S.W
	lo, hi := big.NewInt(0), new(big.Int).Sub(pow2(w), big.NewInt(1))
	if u, ok := s.c.ub(t); ok {
		if b := new(big.Int).SetUint64(u); b.Cmp(hi) < 0 {
			hi = b
		}
	}
	switch t.Op {
	case OpConst:
		lo = new(big.Int).SetUint64(t.V)
		hi = lo
	case OpLin:
		l, h := s.linIv(t)
		if l.Sign() >= 0 && h.Cmp(pow2(w)) < 0 {
			lo, hi = l, h
		}
	case OpZext:
		lo, hi = s.uIv(t.Args[0])
	case OpIte:
		l1, h1 := s.uIv(t.Args[1])
		l2, h2 := s.uIv(t.Args[2])
		lo, hi = l1, h1
		if l2.Cmp(lo) < 0 {
			lo = l2
		}
		if h2.Cmp(hi) > 0 {
			hi = h2
		}
	case OpUF:
		if t.Name == "varintlen" {
			lo, hi = big.NewInt(1), big.NewInt(4)
		}
	}
	s.iv[t.ID] = [2]*big.Int{lo, hi}
	return lo, hi
}

// pre is an integer congruent to t modulo its width, with its bounds: reductions below sums are left out.
func (s *IntSolver) pre(t *Term) (string, *big.Int, *big.Int) {
	w := t.S.W
	if r, ok := s.pres[t.ID]; ok {
		return r.n, r.lo, r.hi
	}
	done := func(n string, lo, hi *big.Int) (string, *big.Int, *big.Int) {
		if len(n) > 40 {
			nm := fmt.Sprintf("p%d", t.ID)
			s.emit(fmt.Sprintf("(define-fun %s () Int %s)", nm, n))
			n = nm
		}
		s.pres[t.ID] = preR{n, lo, hi}
		return n, lo, hi
	}
	switch t.Op {
	case OpConst:
		k := big.NewInt(sx(t.V, w))
		if k.Sign() < 0 {
			return done(fmt.Sprintf("(- %s)", new(big.Int).Neg(k)), k, k)
		}
		return done(k.String(), k, k)
	case OpExtract:
		if t.V == 0 {
			return done(s.pre(t.Args[0]))
		}
	case OpIte:
		n1, l1, h1 := s.pre(t.Args[1])
		n2, l2, h2 := s.pre(t.Args[2])
		if l2.Cmp(l1) < 0 {
			l1 = l2
		}
		if h2.Cmp(h1) > 0 {
			h1 = h2
		}
		return done(fmt.Sprintf("(ite %s %s %s)", s.ref(t.Args[0]), n1, n2), l1, h1)
	case OpLin:
		k := big.NewInt(sx(t.V, w))
		lo, hi := new(big.Int).Set(k), new(big.Int).Set(k)
		var ps []string
		for i, a := range t.Args {
			f := big.NewInt(sx(t.Coef[i], w))
			n, al, ah := s.pre(a)
			x, y := new(big.Int).Mul(al, f), new(big.Int).Mul(ah, f)
			if f.Sign() < 0 {
				x, y = y, x
			}
			lo.Add(lo, x)
			hi.Add(hi, y)
			if f.Sign() < 0 {
				ps = append(ps, fmt.Sprintf("(- (* %s %s))", new(big.Int).Neg(f), n))
			} else if f.Cmp(big.NewInt(1)) == 0 {
				ps = append(ps, n)
			} else {
				ps = append(ps, fmt.Sprintf("(* %s %s)", f, n))
			}
		}
		if k.Sign() > 0 {
			ps = append(ps, k.String())
		} else if k.Sign() < 0 {
			ps = append(ps, fmt.Sprintf("(- %s)", new(big.Int).Neg(k)))
		}
		if len(ps) == 1 {
			return done(ps[0], lo, hi)
		}
		return done(app("+", ps), lo, hi)
	case OpSum:
		if b := t.Args[1]; w < 64 && b.Op == OpExtract && b.V == 0 && b.Args[0].S.W == 64 {
			return done(s.pre(s.c.Sum(t.Args[0], b.Args[0])))
		}
	}
	lo, hi := s.uIv(t)
	return done(s.ref(t), lo, hi)
}

type preR struct {
	n      string
	lo, hi *big.Int
}

// reduced is t from its unreduced form.
func (s *IntSolver) reduced(t *Term) string {
	n, lo, hi := s.pre(t)
	w := pow2(t.S.W)
	if lo.Sign() >= 0 && hi.Cmp(w) < 0 {
		return n
	}
	if lo.Sign() >= 0 {
		return fmt.Sprintf("(ite (< %s %s) %s (mod %s %s))", n, w, n, n, w)
	}
	return fmt.Sprintf("(mod %s %s)", n, w)
}

// plain is the unwrapped integer sum of a linear term.
func (s *IntSolver) plain(t *Term) string {
	w := t.S.W
	var ps []string
	for i, a := range t.Args {
		n := s.ref(a)
		switch f := sx(t.Coef[i], w); {
		case f == 1:
			ps = append(ps, n)
		case f == -1:
			ps = append(ps, "(- "+n+")")
		case f < 0:
			ps = append(ps, fmt.Sprintf("(- (* %s %s))", new(big.Int).Neg(big.NewInt(f)).String(), n))
		default:
			ps = append(ps, fmt.Sprintf("(* %d %s)", f, n))
		}
	}
	if k := sx(t.V, w); k > 0 {
		ps = append(ps, fmt.Sprint(k))
	} else if k < 0 {
		ps = append(ps, fmt.Sprintf("(- %s)", new(big.Int).Neg(big.NewInt(k)).String()))
	}
	if len(ps) == 1 {
		return ps[0]
	}
	return app("+", ps)
}

// signed is the two's complement reading.
func (s *IntSolver) signed(t *Term) string {
	w := t.S.W
	half := pow2(w - 1)
	if t.Op == OpLin {
		lo, hi := s.linIv(t)
		if lo.Cmp(new(big.Int).Neg(half)) >= 0 && hi.Cmp(half) < 0 {
			return s.plain(t)
		}
	}
	if t.Op == OpConst {
		v := sx(t.V, w)
		if v < 0 {
			return fmt.Sprintf("(- %s)", new(big.Int).Neg(big.NewInt(v)).String())
		}
		return fmt.Sprint(v)
	}
	n := s.ref(t)
	if _, hi := s.uIv(t); hi.Cmp(half) < 0 {
		return n
	}
	return fmt.Sprintf("(ite (>= %s %s) (- %s %s) %s)", n, half, n, pow2(w), n)
}

func (s *IntSolver) ref(t *Term) string {
	if n, ok := s.names[t.ID]; ok {
		return n
	}
	c := s.c
	w := t.S.W
	n := fmt.Sprintf("t%d", t.ID)
	set := func(x string) string { s.names[t.ID] = x; return x }
	var after []func()
	axiom := func(f string, a ...any) {
		x := fmt.Sprintf(f, a...)
		after = append(after, func() { s.emit("(assert " + x + ")") })
	}
	ranged := false // whether the range must be stated
	var body string
	args := func() []string {
		var out []string
		bound := t.Op == OpFold || t.Op == OpSum || t.Op == OpForall || t.Op == OpMapFilter
		for i, a := range t.Args {
			if bound && i == 1 {
				continue
			}
			out = append(out, s.ref(a))
		}
		return out
	}
	opaque := func(name string, as []*Term) {
		body = app(s.fun(name, t.S, as), args())
		ranged = true
	}
	switch t.Op {
	case OpTrue:
		return set("true")
	case OpFalse:
		return set("false")
	case OpConst:
		return set(fmt.Sprint(t.V))
	case OpVar:
		body = s.fun("v_"+mangle(t.Name)+"_"+fmt.Sprint(w), t.S, nil)
		ranged = true
	case OpNil:
		return set("0")
	case OpGlob:
		if _, ok := s.refNo[t.Name]; !ok {
			s.refNo[t.Name] = len(s.refNo) + 1
		}
		return set(fmt.Sprintf("(- %d)", s.refNo[t.Name]))
	case OpPtr:
		if len(t.Args) == 0 {
			k := fmt.Sprintf("ptr:%d%s", t.V, t.Name)
			if _, ok := s.refNo[k]; !ok {
				s.refNo[k] = len(s.refNo) + 1
			}
			return set(fmt.Sprintf("(- %d)", s.refNo[k]))
		}
		opaque(fmt.Sprintf("ptr_%d%s", t.V, mangle(t.Name)), t.Args)
		ranged = false
	case OpBox:
		opaque("box_"+mangle(t.Name), t.Args)
		ranged = false
		if _, ok := s.tags[t.Name]; !ok {
			s.tags[t.Name] = len(s.tags) + 1
		}
		axiom("(and (> %s 0) (= (tagof %s) %d))", n, n, s.tags[t.Name])
		for i, a := range t.Args {
			axiom("(= (%s %s) %s)", s.fun(fmt.Sprintf("unbox%d_%s", i, mangle(t.Name)), a.S, []*Term{t}), n, s.ref(a))
		}
	case OpNot:
		body = app("not", args())
	case OpAnd:
		body = app("and", args())
	case OpOr:
		body = app("or", args())
	case OpEq:
		a, b := t.Args[0], t.Args[1]
		if a.S.K == KBV {
			half := pow2(a.S.W - 1)
			ok := true
			for _, x := range []*Term{a, b} {
				lo, hi := s.uIv(x)
				if x.Op == OpLin {
					lo, hi = s.linIv(x)
				}
				if lo.Cmp(new(big.Int).Neg(half)) < 0 || hi.Cmp(half) >= 0 {
					ok = false
				}
			}
			if ok {
				body = app("=", []string{s.signed(a), s.signed(b)})
				break
			}
		}
		body = app("=", args())
		if a.S.K == KSeq {
			axiom("(=> %s (= %s %s))", n, s.ref(c.Len(a)), s.ref(c.Len(b)))
		}
	case OpIte:
		body = app("ite", args())
	case OpLin:
		lo, hi := s.linIv(t)
		if lo.Sign() >= 0 && hi.Cmp(pow2(w)) < 0 {
			body = s.plain(t)
		} else {
			body = s.reduced(t)
		}
	case OpZext:
		return set(s.ref(t.Args[0]))
	case OpExtract:
		if t.V == 0 {
			if _, hi := s.uIv(t.Args[0]); hi.Cmp(pow2(w)) < 0 {
				return set(s.ref(t.Args[0]))
			}
			body = s.reduced(t)
		} else {
			body = fmt.Sprintf("(mod (div %s %s) %s)", s.ref(t.Args[0]), pow2(int(t.V)), pow2(w))
		}
	case OpUlt:
		body = app("<", args())
	case OpUle:
		body = app("<=", args())
	case OpSlt:
		body = app("<", []string{s.signed(t.Args[0]), s.signed(t.Args[1])})
	case OpSle:
		body = app("<=", []string{s.signed(t.Args[0]), s.signed(t.Args[1])})
	case OpAndB:
		for i := 0; i < 2; i++ {
			if k := t.Args[i]; k.isConst() && k.V&(k.V+1) == 0 {
				body = fmt.Sprintf("(mod %s %d)", s.ref(t.Args[1-i]), k.V+1)
				break
			}
		}
		if body == "" || t.Args[0].isConst() && t.Args[0].V+1 == 0 {
			opaque(fmt.Sprintf("bv%d_%d", t.Op, w), t.Args)
		}
	case OpUdiv:
		if t.Args[1].isConst() && t.Args[1].V != 0 {
			body = app("div", args())
		} else {
			opaque(fmt.Sprintf("bv%d_%d", t.Op, w), t.Args)
		}
	case OpUrem:
		if t.Args[1].isConst() && t.Args[1].V != 0 {
			body = app("mod", args())
		} else {
			opaque(fmt.Sprintf("bv%d_%d", t.Op, w), t.Args)
		}
	case OpLshr:
		if k := t.Args[1]; k.isConst() && k.V < uint64(w) {
			body = fmt.Sprintf("(div %s %s)", s.ref(t.Args[0]), pow2(int(k.V)))
		} else {
			opaque(fmt.Sprintf("bv%d_%d", t.Op, w), t.Args)
		}
	case OpMul, OpSdiv, OpSrem, OpOrB, OpXorB, OpShl, OpAshr, OpSext:
		opaque(fmt.Sprintf("bv%d_%d_%d", t.Op, w, t.Args[0].S.W), t.Args)
	case OpEmpty:
		opaque("empty_"+mangle(t.S.T), nil)
	case OpUnit:
		opaque("unit_"+mangle(t.S.T), t.Args)
	case OpCat:
		opaque(fmt.Sprintf("cat%d", len(t.Args)), t.Args)
	case OpSub:
		opaque("sub", t.Args)
	case OpLen:
		body = app("len", args())
		ranged = true
	case OpAt:
		opaque(fmt.Sprintf("at%d_%s", t.V, mangle(t.Args[0].S.T)), t.Args)
	case OpFold:
		opaque(fmt.Sprintf("fold_%d", t.Args[1].ID), t.Args[:1])
	case OpSum:
		if b := t.Args[1]; w < 64 && b.Op == OpExtract && b.V == 0 && b.Args[0].S.W == 64 {
			body = s.reduced(t)
			break
		}
		opaque(fmt.Sprintf("sum_%d_%d", t.Args[1].ID, w), t.Args[:1])
	case OpForall:
		opaque(fmt.Sprintf("forall_%d", t.Args[1].ID), t.Args[:1])
	case OpMapFilter:
		opaque(fmt.Sprintf("filter_%d", t.Args[1].ID), t.Args[:1])
	case OpCard:
		opaque("card", t.Args)
	case OpUF:
		if t.Name == "varintlen" {
			body = app("varintlen", args())
		} else {
			opaque("f_"+mangle(t.Name), t.Args)
		}
	case OpMapEmpty:
		opaque("mempty_"+mangle(t.S.T), nil)
	case OpMapPut, OpMapDel:
		opaque(fmt.Sprintf("m%d_%s", t.Op, mangle(t.S.T)), t.Args)
	case OpMapHas:
		opaque("mhas_"+mangle(t.Args[0].S.T), t.Args)
	case OpMapGet:
		opaque(fmt.Sprintf("mget%d_%s", t.V, mangle(t.Args[0].S.T)), t.Args)
	default:
		panic("int smt: no translation for " + t.String())
	}
	s.names[t.ID] = n
	s.emit(fmt.Sprintf("(define-fun %s () %s %s)", n, intSort(t.S), body))
	if ranged && t.S.K == KBV {
		_, hi := s.uIv(t)
		s.emit(fmt.Sprintf("(assert (<= 0 %s %s))", n, hi))
	}
	for _, f := range after {
		f()
	}
	if s.main.hook != nil {
		s.pending = append(s.pending, t)
	}
	return n
}

// intEntails: whether the facts imply the goal in this encoding (false: no answer).
func (m *Solver) intEntails(facts []*Term, goal *Term, quick bool) bool {
	t0 := time.Now()
	defer func() { m.Time += time.Since(t0) }()
	s, names := m.intScript(append(append([]*Term{}, facts...), m.c.Not(goal)))
	for _, n := range names {
		s.emit("(assert " + n + ")")
	}
	s.emit("(check-sat)")
	m.Queries++
	name, o := race(s.script.String(), quick)
	if os.Getenv("VERIF_DUMPINTS") != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d-%s-%s.smt2", os.Getenv("VERIF_DUMPINTS"), m.Queries, name, strings.Fields(o + " none")[0]), []byte(s.script.String()), 0o644)
	}
	if o == "unsat" {
		m.ByBack[name+" (integers)"]++
	}
	return o == "unsat"
}

// race runs the solvers, the later ones only if the earlier ones take their time, until one of them has an answer.
func race(script string, quick bool) (name, answer string) {
	type result struct{ name, out string }
	alts := []struct {
		after time.Duration
		cmd   []string
	}{{0, []string{"z3-new", "-smt2", "-T:6", "-in"}}, {200 * time.Millisecond, []string{"z3", "-smt2", "-T:2", "-in"}},
		{900 * time.Millisecond, []string{"cvc5", "--lang=smt2", "--tlimit=4000"}}}
	if quick {
		alts = alts[:1]
		alts[0].cmd = []string{"z3-new", "-smt2", "-t:700", "-in"}
	}
	done := make(chan result, len(alts))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	run := func(cmd []string) {
		p := exec.CommandContext(ctx, cmd[0], cmd[1:]...)
		p.Stdin = strings.NewReader(script)
		b, _ := p.Output()
		done <- result{cmd[0], strings.TrimSpace(string(b))}
	}
	t0 := time.Now()
	started, ended := 0, 0
	for {
		for started < len(alts) && (time.Since(t0) >= alts[started].after || started == ended) {
			go run(alts[started].cmd)
			started++
		}
		var next <-chan time.Time
		if started < len(alts) {
			next = time.After(alts[started].after - time.Since(t0))
		}
		select {
		case r := <-done:
			ended++
			switch {
			case strings.HasPrefix(r.out, "unsat"):
				return r.name, "unsat"
			case strings.HasPrefix(r.out, "sat"):
				return r.name, "sat"
			case strings.HasPrefix(r.out, "(error"):
				panic("int smt error: " + r.out)
			}
			if ended == len(alts) {
				return r.name, "unknown"
			}
		case <-next:
		}
	}
}

// intScript defines the terms.
func (m *Solver) intScript(ts []*Term) (*IntSolver, []string) {
	s := &IntSolver{c: m.c, main: m, names: map[int]string{}, decl: map[string]bool{}, refNo: map[string]int{}, tags: map[string]int{}, iv: map[int][2]*big.Int{}, pres: map[int]preR{}}
	for _, l := range []string{"(set-logic ALL)", "(declare-sort BSeq 0)", "(declare-sort BMap 0)", "(declare-fun len (BSeq) Int)", "(declare-fun tagof (Int) Int)",
		"(define-fun varintlen ((x Int)) Int (ite (< x 128) 1 (ite (< x 16384) 2 (ite (< x 2097152) 3 4))))"} {
		s.emit(l)
	}
	var names []string
	for _, f := range ts {
		names = append(names, s.ref(f))
	}
	for len(s.pending) > 0 {
		t := s.pending[0]
		s.pending = s.pending[1:]
		for _, a := range m.hook(t) {
			if !a.isTrue() {
				s.emit("(assert " + s.ref(a) + ")")
			}
		}
	}
	return s, names
}

// falsified finds goals that the facts do not imply, all those that one model makes false (it may be a model of the integer
// encoding only). all: there are none. An error means no answer.
func (m *Solver) falsified(facts []*Term, goals []*Term) (bad []int, all, answered bool) {
	if late() {
		return nil, false, false
	}
	t0 := time.Now()
	defer func() { m.Time += time.Since(t0) }()
	s, names := m.intScript(append(append([]*Term{}, facts...), goals...))
	gs := names[len(facts):]
	for _, n := range names[:len(facts)] {
		s.emit("(assert " + n + ")")
	}
	s.emit("(assert (not (and true " + strings.Join(gs, " ") + ")))")
	s.emit("(check-sat)")
	s.emit("(get-value (" + strings.Join(gs, " ") + "))")
	m.Queries++
	cmd := exec.Command("z3-new", "-smt2", "-t:2500", "-in")
	cmd.Stdin = strings.NewReader(s.script.String())
	b, _ := cmd.Output()
	if os.Getenv("VERIF_SLOW") != "" {
		fmt.Fprintf(os.Stderr, "slow %.3fs falsified %s:%d goal -\n", time.Since(t0).Seconds(), who(), len(goals))
	}
	o := strings.TrimSpace(string(b))
	switch {
	case strings.HasPrefix(o, "unsat"):
		return nil, true, true
	case strings.HasPrefix(o, "sat"):
		o = o[3:]
		rest := o
		for i, g := range gs {
			j := strings.Index(rest, "("+g+" ")
			if j < 0 {
				if g == "false" {
					bad = append(bad, i)
				}
				continue
			}
			rest = rest[j+len(g)+2:]
			if strings.HasPrefix(strings.TrimSpace(rest), "false") {
				bad = append(bad, i)
			}
		}
		return bad, false, len(bad) > 0
	}
	return nil, false, false
}
