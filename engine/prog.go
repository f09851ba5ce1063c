package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/waj334/tinygo-mqtt/mqtt"

// contract directories and the package of /repo each belongs to
var contractDirs = map[string]string{"verifspec": "mqtt/verifspec", "primitives": "mqtt/packets/primitives",
	"packets": "mqtt/packets", "mqtt": "mqtt", "memory": "mqtt/storage/memory"}

// Program is the current source of /repo together with the contracts.
type Program struct {
	repo, dir string
	fset      *token.FileSet
	ssa       *ssa.Program
	overlay   map[string][]byte
	dropped   map[string]string // contract files that do not type-check against the current source
	contracts []*Contract
	byTarget  map[*ssa.Function]*Contract
	modPkgs   map[string]bool

	mu    sync.Mutex
	types map[string]types.Type
	cfgs  map[*ssa.Function]*CFG
	recs  map[*ssa.Function]bool
	gids  map[string]int
	fns   map[string]*ssa.Function
	live  map[*ssa.BasicBlock]func(ssa.Value) bool
}

type CFG struct {
	RPO    []*ssa.BasicBlock
	LoopOf map[*ssa.BasicBlock]*Loop // by header
}

type Loop struct {
	Head   *ssa.BasicBlock
	Blocks map[*ssa.BasicBlock]bool
}

// Contract is a harness function: the specification of one function of /repo.
type Contract struct {
	Name    string
	Harness *ssa.Function
	Target  *ssa.Function
	File    string
	Tags    []string // properties that own its safety, frame and termination obligations
	Opts    map[string]bool
	Deps    []*Contract // contracts of functions the target calls

	done   chan struct{}
	result *Result
}

var dirRe = regexp.MustCompile(`^//verif:(\w+)\s*(.*)$`)

func load(repo, dir string) (*Program, error) {
	p := &Program{repo: repo, dir: dir, overlay: map[string][]byte{}, dropped: map[string]string{}, byTarget: map[*ssa.Function]*Contract{},
		types: map[string]types.Type{}, cfgs: map[*ssa.Function]*CFG{}, recs: map[*ssa.Function]bool{}, gids: map[string]int{},
		fns: map[string]*ssa.Function{}, modPkgs: map[string]bool{}, live: map[*ssa.BasicBlock]func(ssa.Value) bool{}}
	src := map[string]string{}
	for d, dst := range contractDirs {
		fs, _ := filepath.Glob(filepath.Join(dir, d, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") || d == "verifspec" && filepath.Base(f) != "spec.go" && filepath.Base(f) != "contract.go" {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			to := filepath.Join(repo, dst, "zz_verif_"+filepath.Base(f))
			p.overlay[to] = b
			src[to] = f
		}
	}
	var pkgs []*packages.Package
	for try := 0; ; try++ {
		p.fset = token.NewFileSet()
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: p.overlay, Fset: p.fset,
			Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")}
		var err error
		pkgs, err = packages.Load(cfg, "./mqtt/...")
		if err != nil {
			return nil, err
		}
		again := false
		var other []string
		packages.Visit(pkgs, nil, func(pk *packages.Package) {
			for _, e := range pk.Errors {
				pos := e.Pos
				if i := strings.Index(pos, ":"); i > 0 {
					pos = pos[:i]
				}
				if _, ok := p.overlay[pos]; ok && try < 6 {
					if _, done := p.dropped[src[pos]]; !done {
						p.dropped[src[pos]] = e.Msg
						again = true
					}
				} else {
					other = append(other, e.Error())
				}
			}
		})
		if !again {
			if len(other) > 0 {
				return nil, fmt.Errorf("the source does not type-check: %s", strings.Join(other, "; "))
			}
			break
		}
		for to, f := range src {
			if _, ok := p.dropped[f]; ok {
				delete(p.overlay, to)
			}
		}
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.ssa = prog
	for i, pk := range pkgs {
		p.modPkgs[pk.PkgPath] = true
		sp := spkgs[i]
		if sp == nil {
			continue
		}
		for _, f := range pk.Syntax {
			name := p.fset.Position(f.Pos()).Filename
			if _, ok := p.overlay[name]; !ok {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				var c *Contract
				for _, cm := range fd.Doc.List {
					m := dirRe.FindStringSubmatch(cm.Text)
					if m == nil {
						continue
					}
					if m[1] == "contract" {
						c = &Contract{Name: sp.Pkg.Name() + "." + fd.Name.Name, Harness: sp.Func(fd.Name.Name), File: src[name], Opts: map[string]bool{}, done: make(chan struct{})}
						if m[2] != "" {
							c.Target = p.lookupFn(sp, m[2])
							if c.Target == nil {
								p.dropped[src[name]+"#"+fd.Name.Name] = "no function " + m[2]
								c = nil
								break
							}
						}
						p.contracts = append(p.contracts, c)
					} else if c != nil {
						switch m[1] {
						case "safety":
							c.Tags = strings.Fields(strings.ReplaceAll(m[2], ",", " "))
						case "opt":
							for _, o := range strings.Fields(m[2]) {
								c.Opts[o] = true
							}
						}
					}
				}
			}
		}
	}
	for _, c := range p.contracts {
		if sharedHarness(c.Harness) {
			c.Opts["nomodular"] = true
		}
		if c.Target != nil && !c.Opts["nomodular"] && len(c.Harness.Params) == len(c.Target.Params) {
			if d := p.byTarget[c.Target]; d != nil && d.Opts["caller"] {
				continue // the contract for the callers
			}
			p.byTarget[c.Target] = c
		}
	}
	for _, c := range p.contracts {
		p.findDeps(c)
	}
	// contracts that depend on each other are not used for each other
	keep := map[*Contract][]*Contract{}
	for _, c := range p.contracts {
		for _, d := range c.Deps {
			if !p.depCycle(c, d) {
				keep[c] = append(keep[c], d)
			}
		}
	}
	for _, c := range p.contracts {
		c.Deps = keep[c]
	}
	sort.Slice(p.contracts, func(i, j int) bool { return p.contracts[i].Name < p.contracts[j].Name })
	return p, nil
}

func (p *Program) lookupFn(sp *ssa.Package, name string) *ssa.Function {
	if f := sp.Func(name); f != nil {
		return f
	}
	m := regexp.MustCompile(`^\((\*?)(\w+)\)\.(\w+)$`).FindStringSubmatch(name)
	if m == nil {
		return nil
	}
	tn, ok := sp.Members[m[2]].(*ssa.Type)
	if !ok {
		return nil
	}
	var t types.Type = tn.Type()
	if m[1] == "*" {
		t = types.NewPointer(t)
	}
	sel := p.ssa.MethodSets.MethodSet(t).Lookup(sp.Pkg, m[3])
	if sel == nil {
		return nil
	}
	f := p.ssa.MethodValue(sel)
	if f != nil && f.Synthetic != "" {
		return nil
	}
	return f
}

// findDeps: contracts that may be used while verifying c, by the static call graph of the module.
func (p *Program) findDeps(c *Contract) {
	seen := map[*ssa.Function]bool{}
	deps := map[*Contract]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						p.dep(c, g, deps, walk)
					}
				}
				if mi, ok := in.(*ssa.MakeInterface); ok {
					// methods reachable through interfaces
					ms := p.ssa.MethodSets.MethodSet(mi.X.Type())
					for i := 0; i < ms.Len(); i++ {
						if g := p.ssa.MethodValue(ms.At(i)); g != nil && g.Package() != nil && p.modPkgs[g.Package().Pkg.Path()] {
							p.dep(c, g, deps, walk)
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			walk(a)
		}
	}
	walk(c.Harness)
	if c.Target != nil {
		walk(c.Target)
	}
	for d := range deps {
		c.Deps = append(c.Deps, d)
	}
	sort.Slice(c.Deps, func(i, j int) bool { return c.Deps[i].Name < c.Deps[j].Name })
}

func (p *Program) dep(c *Contract, g *ssa.Function, deps map[*Contract]bool, walk func(*ssa.Function)) {
	if d := p.byTarget[g]; d != nil && d != c && !d.Opts["nomodular"] {
		deps[d] = true
		// the callee may still have to be inlined, with its own callees
	}
	if g.Package() == nil && g.Synthetic == "" && g.Origin() == nil {
		return
	}
	walk(g)
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return ""
	}
	q := p.fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Program) isSpecFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	pos := f.Pos()
	if !pos.IsValid() {
		return false
	}
	_, ok := p.overlay[p.fset.Position(pos).Filename]
	return ok
}

// isRecursive: the function calls itself directly.
func (p *Program) isRecursive(f *ssa.Function) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	if r, ok := p.recs[f]; ok {
		return r
	}
	r := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && c.Common().StaticCallee() == f {
				r = true
			}
		}
	}
	p.recs[f] = r
	return r
}

// usable: the contract to use at calls of fn, if it has one that was proved.
func (p *Program) usable(fn *ssa.Function, ex *Exec) *Contract {
	c := p.byTarget[fn]
	if c == nil || c == ex.main || c.Opts["nomodular"] {
		return nil
	}
	for _, d := range ex.main.Deps {
		if d == c {
			if d.result != nil && d.result.ok {
				return c
			}
			return nil
		}
	}
	return nil
}

func (p *Program) cfg(fn *ssa.Function) *CFG {
	p.mu.Lock()
	defer p.mu.Unlock()
	if g, ok := p.cfgs[fn]; ok {
		return g
	}
	g := &CFG{LoopOf: map[*ssa.BasicBlock]*Loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		g.RPO = append(g.RPO, post[i])
	}
	for _, b := range g.RPO {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := g.LoopOf[s]
				if l == nil {
					l = &Loop{Head: s, Blocks: map[*ssa.BasicBlock]bool{s: true}}
					g.LoopOf[s] = l
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.Blocks[x] || !seen[x] {
						return
					}
					l.Blocks[x] = true
					for _, q := range x.Preds {
						up(q)
					}
				}
				up(b)
			}
		}
	}
	p.cfgs[fn] = g
	return g
}

// liveAt: registers that may still be read at b.
func (p *Program) liveAt(b *ssa.BasicBlock) func(ssa.Value) bool {
	return func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		if !ok {
			return true
		}
		if !(in.Block() == b || in.Block().Dominates(b)) {
			return false
		}
		refs := v.Referrers()
		if refs == nil {
			return true
		}
		reach := p.reachable(b)
		for _, r := range *refs {
			if _, isPhi := r.(*ssa.Phi); isPhi || reach[r.Block()] {
				return true
			}
		}
		return false
	}
}

var reachMu sync.Mutex
var reachMemo = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

func (p *Program) reachable(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	reachMu.Lock()
	defer reachMu.Unlock()
	if r, ok := reachMemo[b]; ok {
		return r
	}
	r := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock)
	walk = func(x *ssa.BasicBlock) {
		if r[x] {
			return
		}
		r[x] = true
		for _, s := range x.Succs {
			walk(s)
		}
	}
	walk(b)
	reachMemo[b] = r
	return r
}

func (p *Program) inModule(path string) bool {
	return p.modPkgs[path]
}

func (p *Program) globalID(key string) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	id, ok := p.gids[key]
	if !ok {
		id = 1_000_000 + len(p.gids)
		p.gids[key] = id
	}
	return id
}

func (p *Program) regType(t types.Type) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.types[types.TypeString(t, nil)] = t
}

func (p *Program) typeByName(n string) types.Type {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.types[n]
}

func (p *Program) fnByName(n string) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(p.fns) == 0 {
		for f := range ssautil.AllFunctions(p.ssa) {
			p.fns[f.String()] = f
		}
	}
	return p.fns[n]
}

func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	sel := p.ssa.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.ssa.MethodValue(sel)
}

// sharedHarness: the contract is about an operation on a client that others may use at the same time. Such contracts also
// speak about the world, so a call of the operation is checked with its body.
func sharedHarness(f *ssa.Function) bool {
	found := false
	var walk func(f *ssa.Function, depth int)
	walk = func(f *ssa.Function, depth int) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil {
					continue
				}
				if g.Name() == "Shared" || g.Origin() != nil && g.Origin().Name() == "Shared" {
					found = true
				}
				if strings.HasPrefix(g.Name(), "v") && depth < 3 {
					walk(g, depth+1)
				}
			}
		}
	}
	walk(f, 0)
	return found
}
