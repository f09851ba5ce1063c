package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"regexp"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"go/constant"

	"golang.org/x/tools/go/ssa"
)

type oblJSON struct {
	Name   string            `json:"name"`
	Where  string            `json:"where,omitempty"`
	Paths  int               `json:"paths"`
	Failed int               `json:"failed"`
	Status string            `json:"status"`
	Detail string            `json:"detail,omitempty"`
	Model  map[string]string `json:"model,omitempty"`
	Trace  []string          `json:"trace,omitempty"`
	Cover  bool              `json:"cover,omitempty"`
}

type resJSON struct {
	Contract string         `json:"contract"`
	File     string         `json:"file"`
	Target   string         `json:"target,omitempty"`
	Tags     []string       `json:"tags"`
	OK       bool           `json:"ok"`
	Err      string         `json:"err,omitempty"`
	Obls     []*oblJSON     `json:"obligations"`
	Used     []string       `json:"used"`
	Inlined  []string       `json:"inlined"`
	Trusted  []string       `json:"trusted"`
	Queries  int            `json:"queries"`
	ByBack   map[string]int `json:"by_backend"`
	Solver   float64        `json:"solver_s"`
	Wall     float64        `json:"wall_s"`
	Notes    []string       `json:"notes,omitempty"`
	Total    int            `json:"total"`
	Proved   int            `json:"proved"`
}

type outJSON struct {
	LoadError string            `json:"load_error,omitempty"`
	Dropped   map[string]string `json:"dropped,omitempty"`
	Results   []*resJSON        `json:"results"`
	Wall      float64           `json:"wall_s"`
}

var statusName = map[int]string{Proved: "proved", Refuted: "refuted", Unknown: "unknown", Late: "late"}

func (p *Program) toJSON(c *Contract) *resJSON {
	r := c.result
	o := &resJSON{Contract: r.Contract, File: c.File, Target: r.Target, Tags: c.Tags, OK: r.ok, Err: r.Err, Used: r.Used, Inlined: r.Inlined, Trusted: r.Trusted,
		Queries: r.Queries, ByBack: r.ByBack, Solver: r.Solver.Seconds(), Wall: r.Wall.Seconds()}
	for k, v := range r.Notes {
		o.Notes = append(o.Notes, k+": "+v)
	}
	sort.Strings(o.Notes)
	by := map[string]*oblJSON{}
	for _, ob := range r.Obls {
		k := ob.Name + "|" + ob.Where
		if ob.Cover {
			k = "cover|" + ob.Name
		}
		j := by[k]
		if j == nil {
			j = &oblJSON{Name: ob.Name, Where: ob.Where, Status: "proved", Cover: ob.Cover}
			if ob.Cover {
				j.Status = "unreachable"
			}
			by[k] = j
			o.Obls = append(o.Obls, j)
		}
		j.Paths++
		if ob.Cover {
			if ob.Status == Proved {
				j.Status = "reachable"
			}
			continue
		}
		o.Total++
		if ob.Status == Proved {
			o.Proved++
			continue
		}
		if ob.Status == Late {
			o.Err = lateMsg
			continue
		}
		j.Failed++
		if j.Status == "proved" || j.Status == "unknown" && ob.Status == Refuted {
			j.Status, j.Detail, j.Model, j.Trace = statusName[ob.Status], ob.Detail, ob.Model, ob.Trace
			if len(j.Detail) > 2000 {
				j.Detail = j.Detail[:2000]
			}
		}
	}
	return o
}

var tagRe = regexp.MustCompile(`^[CN]\d\d(\b|,)`)

// propTags: the properties a contract has obligations for.
func propTags(c *Contract) map[string]bool {
	out := map[string]bool{}
	for _, t := range c.Tags {
		out[t] = true
	}
	if c.Harness == nil {
		return out
	}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						s := constant.StringVal(k.Value)
						if tagRe.MatchString(s) {
							for _, t := range strings.FieldsFunc(strings.SplitN(s, ":", 2)[0], func(r rune) bool { return r == ' ' || r == ',' }) {
								out[t] = true
							}
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			scan(a)
		}
	}
	scan(c.Harness)
	return out
}

// run verifies a contract after the ones it depends on.
func (p *Program) run(c *Contract, sem chan bool, once *sync.Map, debug bool) {
	if _, dup := once.LoadOrStore(c, true); dup {
		<-c.done
		return
	}
	defer close(c.done)
	var wg sync.WaitGroup
	for _, d := range c.Deps {
		d := d
		wg.Add(1)
		go func() { defer wg.Done(); p.run(d, sem, once, debug) }()
	}
	wg.Wait()
	sem <- true
	c.result = p.verify(c, debug)
	<-sem
}

// depCycle: d depends on c in turn; neither is used for the other then.
func (p *Program) depCycle(c, d *Contract) bool {
	seen := map[*Contract]bool{}
	var walk func(x *Contract) bool
	walk = func(x *Contract) bool {
		if x == c {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, y := range x.Deps {
			if walk(y) {
				return true
			}
		}
		return false
	}
	return walk(d)
}

func main() {
	initIntrinsics()
	repo := flag.String("repo", "/repo", "repository")
	dir := flag.String("contracts", "/verif/contracts", "contract directory")
	prop := flag.String("prop", "", "property")
	con := flag.String("c", "", "contracts to verify (regular expression)")
	jsonOut := flag.String("json", "", "result file")
	dbg := flag.Bool("debug", false, "trace the execution")
	list := flag.Bool("list", false, "list contracts and their properties")
	jobs := flag.Int("j", 8, "parallel contracts")
	prof := flag.String("cpuprofile", "", "profile of the engine itself")
	flag.Parse()
	if *prof != "" {
		if f, err := os.Create(*prof); err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	t0 := time.Now()
	p, err := load(*repo, *dir)
	out := &outJSON{}
	if err != nil {
		out.LoadError = err.Error()
		fmt.Println("load error:", err)
		if *jsonOut != "" {
			b, _ := json.Marshal(out)
			os.WriteFile(*jsonOut, b, 0o644)
		}
		os.Exit(3)
	}
	out.Dropped = p.dropped
	for k, v := range p.dropped {
		fmt.Println("dropped:", k, v)
	}
	if *list {
		for _, c := range p.contracts {
			fmt.Println(c.Name, sortedKeys(propTags(c)))
		}
		return
	}
	var todo []*Contract
	for _, c := range p.contracts {
		if *prop != "" && propTags(c)[*prop] || *con != "" && regexp.MustCompile(*con).MatchString(c.Name) || *prop == "" && *con == "" {
			todo = append(todo, c)
		}
	}
	sem := make(chan bool, *jobs)
	var once sync.Map
	var wg sync.WaitGroup
	if s := os.Getenv("VERIF_ENGINE_BUDGET"); s != "" {
		if n, err := strconv.Atoi(s); err == nil && n > 0 {
			deadline = t0.Add(time.Duration(n) * time.Second)
			go func() { // what does not notice in time is given up
				time.Sleep(time.Until(deadline) + 25*time.Second)
				os.Exit(p.finish(out, todo, *jsonOut, t0))
			}()
		}
	}
	for _, c := range todo {
		c := c
		wg.Add(1)
		go func() { defer wg.Done(); p.run(c, sem, &once, *dbg) }()
	}
	wg.Wait()
	if code := p.finish(out, todo, *jsonOut, t0); code > 0 {
		os.Exit(code)
	}
}

var finishing sync.Mutex

// finish reports the results there are.
func (p *Program) finish(out *outJSON, todo []*Contract, jsonOut string, t0 time.Time) int {
	finishing.Lock()
	defer finishing.Unlock()
	bad := 0
	wanted := map[*Contract]bool{}
	for _, c := range todo {
		wanted[c] = true
	}
	for _, c := range p.contracts {
		var r *resJSON
		select {
		case <-c.done:
			if c.result == nil {
				continue
			}
			r = p.toJSON(c)
		default:
			if !wanted[c] {
				continue
			}
			r = &resJSON{Contract: c.Name, File: c.File, Tags: c.Tags, Err: lateMsg}
			if c.Target != nil {
				r.Target = shortFn(c.Target)
			}
		}
		out.Results = append(out.Results, r)
		mark := "ok  "
		if !r.OK {
			mark = "FAIL"
			bad++
		}
		fmt.Printf("%s %-40s %4d/%-4d %5d queries %6.1fs wall\n", mark, r.Contract, r.Proved, r.Total, r.Queries, r.Wall)
		if r.Err != "" {
			fmt.Println("     error:", r.Err)
		}
		for _, o := range r.Obls {
			if o.Cover && o.Status == "unreachable" || !o.Cover && o.Status != "proved" {
				fmt.Printf("     %s %s %s (%d of %d paths) %s\n", o.Status, o.Name, o.Where, o.Failed, o.Paths, o.Detail)
				if len(todo) == 1 {
					for _, k := range sortedStr(o.Model) {
						fmt.Printf("          %s = %s\n", k, o.Model[k])
					}
				}
			}
		}
	}
	out.Wall = time.Since(t0).Seconds()
	if jsonOut != "" {
		b, _ := json.MarshalIndent(out, "", " ")
		os.WriteFile(jsonOut, b, 0o644)
	}
	if bad > 0 {
		return 1
	}
	return 0
}

func sortedStr(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
