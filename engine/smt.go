package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"time"
)

// Solver is the SMT back end of one Ctx: an incremental z3 process, and one-shot runs of other solvers for the queries z3
// does not decide.
type Solver struct {
	c       *Ctx
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	defs    map[int]string // definition of the term, "" if inline
	axioms  map[int][]string
	deps    map[int][]*Term // terms the axioms of a term speak about
	names   map[int]string
	decl    map[string]bool
	declOf  map[int][]string // extra declarations made by the term
	refNo   map[string]int
	tags    map[string]int
	cache   map[string]int
	Queries int
	Time    time.Duration
	ByBack  map[string]int
	timeout int
	hook    func(t *Term) []*Term // axioms for the term
	busy    map[int]bool
	pending []*Term
}

func NewSolver(c *Ctx) *Solver {
	s := &Solver{c: c, defs: map[int]string{}, axioms: map[int][]string{}, deps: map[int][]*Term{}, names: map[int]string{}, decl: map[string]bool{},
		declOf: map[int][]string{}, refNo: map[string]int{}, tags: map[string]int{}, cache: map[string]int{},
		ByBack: map[string]int{}, timeout: 4000, busy: map[int]bool{}}
	return s
}

var preamble = []string{
	"(set-option :print-success false)",
	"(declare-sort BSeq 0)",
	"(declare-sort BMap 0)",
	"(declare-fun len (BSeq) (_ BitVec 64))",
	"(declare-fun tagof (Int) Int)",
	"(define-fun varintlen ((x (_ BitVec 32))) (_ BitVec 64) (ite (bvult x (_ bv128 32)) (_ bv1 64) (ite (bvult x (_ bv16384 32)) (_ bv2 64) (ite (bvult x (_ bv2097152 32)) (_ bv3 64) (_ bv4 64)))))",
}

func (s *Solver) start() {
	if s.cmd != nil {
		return
	}
	s.cmd = exec.Command(z3bin, "-in", "-smt2", fmt.Sprintf("-t:%d", s.timeout))
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		panic(err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.out = bufio.NewReaderSize(o, 1<<20)
	if err = s.cmd.Start(); err != nil {
		panic(err)
	}
	for _, p := range preamble {
		fmt.Fprintln(s.in, p)
	}
}

var z3bin = "z3-new"

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func smtSort(so Sort) string {
	switch so.K {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", so.W)
	case KSeq:
		return "BSeq"
	case KRef:
		return "Int"
	}
	return "BMap"
}

func mangle(x string) string {
	var b strings.Builder
	for _, r := range x {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' {
			b.WriteRune(r)
		} else {
			fmt.Fprintf(&b, "$%x", r)
		}
	}
	return b.String()
}

func (s *Solver) emit(line string) {
	fmt.Fprintln(s.in, line)
}

// fun declares an uninterpreted function once.
func (s *Solver) fun(t *Term, name string, res Sort, args []*Term) string {
	var as []string
	for _, a := range args {
		as = append(as, smtSort(a.S))
	}
	sig := fmt.Sprintf("(%s) %s", strings.Join(as, " "), smtSort(res))
	d := fmt.Sprintf("(declare-fun %s %s)", name, sig)
	if !s.decl[d] {
		s.decl[d] = true
		s.emit(d)
	}
	s.declOf[t.ID] = append(s.declOf[t.ID], d)
	return name
}

func app(f string, args []string) string {
	if len(args) == 0 {
		return f
	}
	return "(" + f + " " + strings.Join(args, " ") + ")"
}

func (s *Solver) axiom(t *Term, a string) {
	s.axioms[t.ID] = append(s.axioms[t.ID], a)
}

// relevant gives the axioms of the terms a query speaks about, with those the axioms speak about, and all these terms.
func (s *Solver) relevant(ts []*Term) (axioms []string, terms map[int]bool) {
	terms = map[int]bool{}
	work := append([]*Term{}, ts...)
	for len(work) > 0 {
		t := work[len(work)-1]
		work = work[:len(work)-1]
		if terms[t.ID] {
			continue
		}
		terms[t.ID] = true
		bound := t.Op == OpFold || t.Op == OpSum || t.Op == OpForall || t.Op == OpMapFilter
		for i, a := range t.Args {
			if bound && i == 1 {
				continue
			}
			work = append(work, a)
		}
		axioms = append(axioms, s.axioms[t.ID]...)
		work = append(work, s.deps[t.ID]...)
	}
	return
}

// ref returns the SMT name of t, emitting its definition if needed.
func (s *Solver) ref(t *Term) string {
	if n, ok := s.names[t.ID]; ok {
		return n
	}
	c := s.c
	var args []string
	bound := t.Op == OpFold || t.Op == OpSum || t.Op == OpForall || t.Op == OpMapFilter
	for i, a := range t.Args {
		if bound && i == 1 {
			continue
		}
		args = append(args, s.ref(a))
	}
	w := t.S.W
	var body string
	n := fmt.Sprintf("t%d", t.ID)
	set := func(x string) string { s.names[t.ID] = x; return x }
	switch t.Op {
	case OpTrue:
		return set("true")
	case OpFalse:
		return set("false")
	case OpConst:
		return set(fmt.Sprintf("(_ bv%d %d)", t.V, w))
	case OpVar:
		return set(s.fun(t, "v_"+mangle(t.Name), t.S, nil))
	case OpNil:
		return set("0")
	case OpGlob:
		if _, ok := s.refNo[t.Name]; !ok {
			s.refNo[t.Name] = len(s.refNo) + 1
		}
		return set(fmt.Sprintf("(- %d)", s.refNo[t.Name]))
	case OpPtr:
		if len(args) == 0 {
			k := fmt.Sprintf("ptr:%d%s", t.V, t.Name)
			if _, ok := s.refNo[k]; !ok {
				s.refNo[k] = len(s.refNo) + 1
			}
			return set(fmt.Sprintf("(- %d)", s.refNo[k]))
		}
		body = app(s.fun(t, fmt.Sprintf("ptr_%d%s", t.V, mangle(t.Name)), t.S, t.Args), args)
	case OpBox:
		f := "box_" + mangle(t.Name)
		body = app(s.fun(t, f, t.S, t.Args), args)
		if _, ok := s.tags[t.Name]; !ok {
			s.tags[t.Name] = len(s.tags) + 1
		}
		defer func() {
			s.axiom(t, fmt.Sprintf("(and (> %s 0) (= (tagof %s) %d))", n, n, s.tags[t.Name]))
			for i, a := range t.Args {
				inv := fmt.Sprintf("unbox%d_%s", i, mangle(t.Name))
				s.fun(t, inv, a.S, []*Term{t})
				s.axiom(t, fmt.Sprintf("(= (%s %s) %s)", inv, n, args[i]))
			}
		}()
	case OpNot:
		body = app("not", args)
	case OpAnd:
		body = app("and", args)
	case OpOr:
		body = app("or", args)
	case OpEq:
		body = app("=", args)
		if t.Args[0].S.K == KSeq {
			la, lb := s.ref(c.Len(t.Args[0])), s.ref(c.Len(t.Args[1]))
			s.deps[t.ID] = append(s.deps[t.ID], c.Len(t.Args[0]), c.Len(t.Args[1]))
			defer func() { s.axiom(t, fmt.Sprintf("(=> %s (= %s %s))", n, la, lb)) }()
		}
	case OpIte:
		body = app("ite", args)
	case OpLin:
		var ps []string
		for i := range t.Args {
			if t.Coef[i] == 1 {
				ps = append(ps, args[i])
			} else {
				ps = append(ps, fmt.Sprintf("(bvmul (_ bv%d %d) %s)", t.Coef[i], w, args[i]))
			}
		}
		if t.V != 0 {
			ps = append(ps, fmt.Sprintf("(_ bv%d %d)", t.V, w))
		}
		body = ps[0]
		if len(ps) > 1 {
			body = app("bvadd", ps)
		}
	case OpMul:
		body = app("bvmul", args)
	case OpUdiv:
		body = app("bvudiv", args)
	case OpUrem:
		body = app("bvurem", args)
	case OpSdiv:
		body = app("bvsdiv", args)
	case OpSrem:
		body = app("bvsrem", args)
	case OpAndB:
		body = app("bvand", args)
	case OpOrB:
		body = app("bvor", args)
	case OpXorB:
		body = app("bvxor", args)
	case OpShl:
		body = app("bvshl", args)
	case OpLshr:
		body = app("bvlshr", args)
	case OpAshr:
		body = app("bvashr", args)
	case OpZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", w-t.Args[0].S.W, args[0])
	case OpSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", w-t.Args[0].S.W, args[0])
	case OpExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", int(t.V)+w-1, t.V, args[0])
	case OpUlt:
		body = app("bvult", args)
	case OpUle:
		body = app("bvule", args)
	case OpSlt:
		body = app("bvslt", args)
	case OpSle:
		body = app("bvsle", args)
	case OpEmpty:
		body = s.fun(t, "empty_"+mangle(t.S.T), t.S, nil)
	case OpUnit:
		body = app(s.fun(t, "unit_"+mangle(t.S.T), t.S, t.Args), args)
	case OpCat:
		body = app(s.fun(t, fmt.Sprintf("cat%d", len(args)), t.S, t.Args), args)
	case OpSub:
		body = app(s.fun(t, "sub", t.S, t.Args), args)
	case OpLen:
		body = app("len", args)
		defer func() { s.axiom(t, fmt.Sprintf("(bvule %s (_ bv%d 64))", n, uint64(maxLen))) }()
	case OpAt:
		body = app(s.fun(t, fmt.Sprintf("at%d_%s", t.V, mangle(t.Args[0].S.T)), t.S, t.Args), args)
	case OpFold:
		body = app(s.fun(t, fmt.Sprintf("fold_%d", t.Args[1].ID), t.S, t.Args[:1]), args)
	case OpSum:
		body = app(s.fun(t, fmt.Sprintf("sum_%d", t.Args[1].ID), t.S, t.Args[:1]), args)
		if w == 64 {
			if _, ok := c.ub(t.Args[1]); ok {
				defer func() { s.axiom(t, fmt.Sprintf("(bvule %s (_ bv%d 64))", n, uint64(maxLen))) }()
			}
		} else if b := t.Args[1]; b.Op == OpExtract && b.V == 0 && b.Args[0].S.W == 64 {
			wide := s.ref(c.Sum(t.Args[0], b.Args[0]))
			s.deps[t.ID] = append(s.deps[t.ID], c.Sum(t.Args[0], b.Args[0]))
			defer func() { s.axiom(t, fmt.Sprintf("(= %s ((_ extract %d 0) %s))", n, w-1, wide)) }()
		}
	case OpForall:
		body = app(s.fun(t, fmt.Sprintf("forall_%d", t.Args[1].ID), t.S, t.Args[:1]), args)
	case OpMapFilter:
		body = app(s.fun(t, fmt.Sprintf("filter_%d", t.Args[1].ID), t.S, t.Args[:1]), args)
	case OpCard:
		body = app(s.fun(t, "card", t.S, t.Args), args)
		defer func() { s.axiom(t, fmt.Sprintf("(bvule %s (_ bv%d 64))", n, uint64(maxLen))) }()
	case OpUF:
		if t.Name == "varintlen" {
			body = app("varintlen", args)
		} else {
			body = app(s.fun(t, "f_"+mangle(t.Name), t.S, t.Args), args)
		}
	case OpMapEmpty:
		body = s.fun(t, "mempty_"+mangle(t.S.T), t.S, nil)
	case OpMapPut, OpMapDel:
		body = app(s.fun(t, fmt.Sprintf("m%s_%s", map[Op]string{OpMapPut: "put", OpMapDel: "del"}[t.Op], mangle(t.S.T)), t.S, t.Args), args)
	case OpMapHas:
		body = app(s.fun(t, "mhas_"+mangle(t.Args[0].S.T), t.S, t.Args), args)
	case OpMapGet:
		body = app(s.fun(t, fmt.Sprintf("mget%d_%s", t.V, mangle(t.Args[0].S.T)), t.S, t.Args), args)
	default:
		panic("smt: no translation for " + t.String())
	}
	s.names[t.ID] = n
	d := fmt.Sprintf("(define-fun %s () %s %s)", n, smtSort(t.S), body)
	s.defs[t.ID] = d
	s.emit(d)
	if s.hook != nil {
		s.pending = append(s.pending, t)
	}
	return n
}

func (s *Solver) flushHooks() {
	for len(s.pending) > 0 {
		t := s.pending[0]
		s.pending = s.pending[1:]
		for _, a := range s.hook(t) {
			if a.isTrue() {
				continue
			}
			r := s.ref(a)
			s.deps[t.ID] = append(s.deps[t.ID], a)
			s.axiom(t, r)
		}
	}
}

const (
	Proved = iota
	Refuted
	Late
	Unknown
)

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		panic("solver died: " + err.Error() + l)
	}
	return strings.TrimSpace(l)
}

// Check decides whether the facts entail the goal. With model set, the values of the query's atoms come back for a
// refuted goal.
func (s *Solver) Check(facts []*Term, goal *Term, model bool) (int, map[string]string) {
	return s.check(facts, goal, model, false)
}

// check with quick set gives up early: the goal will be taken apart otherwise.
func (s *Solver) check(facts []*Term, goal *Term, model, quick bool) (int, map[string]string) {
	if goal.isTrue() {
		return Proved, nil
	}
	if fs := slim(facts, goal); len(fs) < len(facts) && !model {
		if r, _ := s.check1(fs, goal, false, quick); r == Proved || quick {
			return r, nil
		}
	}
	return s.check1(facts, goal, model, quick)
}

// slim leaves out the definitions of specification terms that nothing else speaks about.
func slim(facts []*Term, goal *Term) []*Term {
	isRec := func(t *Term) bool { return t.Op == OpUF && strings.HasPrefix(t.Name, "rec:") }
	isDef := func(f *Term) bool { return f.Op == OpEq && (isRec(f.Args[0]) || isRec(f.Args[1])) }
	n := 0
	for _, f := range facts {
		if isDef(f) {
			n++
		}
	}
	if n < 8 {
		return facts
	}
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(goal)
	in := make([]bool, len(facts))
	for i, f := range facts {
		if !isDef(f) {
			in[i] = true
			walk(f)
		}
	}
	for changed := true; changed; {
		changed = false
		for i, f := range facts {
			if in[i] {
				continue
			}
			for _, a := range f.Args {
				if isRec(a) && seen[a.ID] {
					in[i], changed = true, true
					walk(f)
					break
				}
			}
		}
	}
	out := make([]*Term, 0, len(facts))
	for i, f := range facts {
		if in[i] {
			out = append(out, f)
		}
	}
	return out
}

func (s *Solver) check1(facts []*Term, goal *Term, model, quick bool) (int, map[string]string) {
	if late() {
		return Unknown, nil
	}
	ng := s.c.Not(goal)
	for _, f := range facts {
		if f == goal || f.isFalse() {
			return Proved, nil
		}
	}
	if os.Getenv("VERIF_SLOW") != "" {
		t1 := time.Now()
		defer func() {
			if d := time.Since(t1); d > 5*time.Millisecond {
				fmt.Fprintf(os.Stderr, "slow %.3fs quick=%v %s goal %v\n", d.Seconds(), quick, who(), goal)
			}
		}()
	}
	key := fmt.Sprint(goal.ID)
	ids := map[int]bool{}
	for _, f := range facts {
		ids[f.ID] = true
	}
	sorted := make([]int, 0, len(ids))
	for i := range ids {
		sorted = append(sorted, i)
	}
	sortInts(sorted)
	key += fmt.Sprint(sorted)
	if r, ok := s.cache[key]; ok && !model {
		return r, nil
	}
	if quick {
		if _, ok := s.cache[key+"q"]; ok {
			return Unknown, nil
		}
	}
	sz := !model && sizes(append(append([]*Term{}, facts...), ng))
	if sz && s.intEntails(facts, goal, quick) {
		s.cache[key] = Proved
		return Proved, nil
	}
	s.start()
	t0 := time.Now()
	var names []string
	for _, f := range facts {
		names = append(names, s.ref(f))
	}
	names = append(names, s.ref(ng))
	s.flushHooks()
	ms := s.timeout
	if quick || sz {
		ms = 300
	}
	s.emit(fmt.Sprintf("(set-option :timeout %d)", ms))
	s.emit("(push)")
	axs, _ := s.relevant(append(append([]*Term{}, facts...), ng))
	for _, a := range axs {
		s.emit("(assert " + a + ")")
	}
	for _, n := range names {
		s.emit("(assert " + n + ")")
	}
	s.emit("(check-sat)")
	r := s.readLine()
	for strings.HasPrefix(r, "(error") {
		panic("smt error: " + r)
	}
	var m map[string]string
	if r == "sat" && model {
		m = s.values(append(append([]*Term{}, facts...), ng))
	}
	s.emit("(pop)")
	s.Queries++
	res := Unknown
	back := z3bin
	switch r {
	case "unsat":
		res = Proved
	case "sat":
		res = Refuted
	default:
		if quick {
			s.Time += time.Since(t0)
			s.cache[key+"q"] = Unknown
			return Unknown, nil
		}
		// another back end
		for _, alt := range [][]string{{"cvc5", "--lang=smt2", "--tlimit=8000"}, {"z3", "-smt2", "-T:8", "-in"}} {
			script := s.script(append(append([]*Term{}, facts...), ng))
			cmd := exec.Command(alt[0], alt[1:]...)
			cmd.Stdin = strings.NewReader(script)
			out, _ := cmd.Output()
			o := strings.TrimSpace(string(out))
			if strings.HasPrefix(o, "unsat") {
				res, back = Proved, alt[0]
				break
			}
			if strings.HasPrefix(o, "sat") {
				res, back = Refuted, alt[0]
				break
			}
		}
	}
	if res == Proved {
		s.ByBack[back]++
	}
	s.Time += time.Since(t0)
	s.cache[key] = res
	return res, m
}

// sizes: the query is about sums of lengths.
func sizes(ts []*Term) bool {
	for _, t := range cone(ts) {
		if t.Op == OpLin && len(t.Args) >= 3 || t.Op == OpSum {
			return true
		}
	}
	return false
}

// cone is the set of terms below the given ones, in dependency order.
func cone(ts []*Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		bound := t.Op == OpFold || t.Op == OpSum || t.Op == OpForall || t.Op == OpMapFilter
		for i, a := range t.Args {
			if bound && i == 1 {
				continue
			}
			walk(a)
		}
		out = append(out, t)
	}
	for _, t := range ts {
		walk(t)
	}
	return out
}

// script is the whole query as a standalone SMT-LIB file (all definitions made so far).
func (s *Solver) script(ts []*Term) string {
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	for _, p := range preamble[1:] {
		b.WriteString(p + "\n")
	}
	for d := range s.decl {
		b.WriteString(d + "\n")
	}
	axs, terms := s.relevant(ts)
	var ids []int
	for id := range s.defs {
		if terms[id] {
			ids = append(ids, id)
		}
	}
	sortInts(ids)
	for _, id := range ids {
		b.WriteString(s.defs[id] + "\n")
	}
	for _, a := range axs {
		b.WriteString("(assert " + a + ")\n")
	}
	for _, t := range ts {
		b.WriteString("(assert " + s.names[t.ID] + ")\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

func (s *Solver) values(ts []*Term) map[string]string {
	var want []*Term
	for _, t := range cone(ts) {
		if t.S.K != KBV && t.S.K != KBool {
			continue
		}
		if t.Op == OpVar || t.Op == OpLen || t.Op == OpAt {
			want = append(want, t)
		}
	}
	m := map[string]string{}
	for _, t := range want {
		n, ok := s.names[t.ID]
		if !ok {
			continue
		}
		s.emit("(eval " + n + ")")
		l := s.readLine()
		m[t.String()] = smtValue(l)
	}
	return m
}

func smtValue(l string) string {
	if strings.HasPrefix(l, "#x") {
		var v uint64
		fmt.Sscanf(l[2:], "%x", &v)
		return fmt.Sprint(v)
	}
	if strings.HasPrefix(l, "#b") {
		var v uint64
		fmt.Sscanf(l[2:], "%b", &v)
		return fmt.Sprint(v)
	}
	return l
}

// who names the part of the engine that asked (for profiling).
func who() string {
	pc := make([]uintptr, 40)
	fs := runtime.CallersFrames(pc[:runtime.Callers(3, pc)])
	var out []string
	for {
		f, more := fs.Next()
		n := f.Function[strings.LastIndex(f.Function, ".")+1:]
		if n != "check" && n != "Check" && n != "smt" && n != "prove" && n != "quickly" && n != "quiet" {
			out = append(out, fmt.Sprintf("%s:%d", n, f.Line))
			if len(out) >= 2 {
				break
			}
		}
		if !more {
			break
		}
	}
	return strings.Join(out, "<")
}
