package main

// Command line: selects units, runs them in parallel, discharges the obligations, writes a report.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Unit struct {
	Name  string
	Props []string
	Fns   []string // functions whose bodies are verified
	Run   func(w *Worker) []*Oblig
}

type Worker struct {
	ex   *Ex
	a2   *a2lv
	prog *ssa.Program
	pkgs map[string]*ssa.Package
	g    *Grammar
}

type Report struct {
	Prop        string
	Functions   []string
	Units       int
	Obligations int
	Discharged  int
	Simplifier  int
	BySolver    map[string]int
	Queries     int64
	SolverMs    int64
	WallMs      int64
	Covers      int
	CoversOK    int
	Failed      []*Oblig
	Inlined     []string
	Externs     []string
	Assumptions []string
	ByName      map[string]int
	Slow        []string
	Again       int // obligations asked a second time
	Cross       map[string]int
}

func newWorker(prog *ssa.Program, pkgs map[string]*ssa.Package, g *Grammar) *Worker {
	w := &Worker{prog: prog, pkgs: pkgs, g: g}
	w.reset()
	return w
}

func (w *Worker) reset() {
	old := w.ex
	ex := newEx(w.prog, w.pkgs)
	if old != nil {
		ex.inlined, ex.externs = old.inlined, old.externs
	}
	w.ex = ex
	ex.c.LitPred = map[string]func(string) bool{"iskw": func(s string) bool { return w.g.isKw[s] }}
	for _, p := range w.pkgs {
		ex.groundTables(p)
	}
	ex.c.LitFold = hexLits()
	ex.hexTables()
	w.a2 = newA2L(ex, w.g, w.pkgs["a2l"])
	w.a2.register()
}

func newA2L(ex *Ex, g *Grammar, pkg *ssa.Package) *a2lv {
	a := &a2lv{ex: ex, g: g, pkg: pkg, cov: map[string]int{}}
	c := ex.c
	a.T = c.Var("T", c.SeqOf(c.Str))
	a.N = c.Len(a.T)
	if v := pkg.Var("tokenList"); v != nil {
		a.gTok = v
		ex.ginit[v] = a.T
	}
	if v := pkg.Var("useMultithreading"); v != nil {
		a.gMT = v
	}
	return a
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func hasAny(l []string, ids string) bool {
	for _, id := range strings.Split(ids, ",") {
		if has(l, id) {
			return true
		}
	}
	return false
}

func allUnits(g *Grammar, pkgs map[string]*ssa.Package) []*Unit {
	var us []*Unit
	us = append(us, a2lUnits(g, pkgs)...)
	us = append(us, enumUnits()...)
	us = append(us, acyclicUnit(g))
	us = append(us, calibUnits()...)
	us = append(us, hexUnits()...)
	us = append(us, tokUnits()...)
	us = append(us, modParUnits()...)
	us = append(us, a2lFileUnits()...)
	return us
}

func fnUnit(pkg, name string, props []string) *Unit {
	return &Unit{Name: pkg + "." + name, Props: props, Fns: []string{pkg + "." + name}, Run: func(w *Worker) []*Oblig {
		fn := pkgFunc(w.pkgs[pkg], name)
		if fn == nil {
			return []*Oblig{{Fn: pkg + "." + name, Name: "exists", Detail: "function not found", Props: props, Failed: true, Res: "missing"}}
		}
		n := len(w.ex.obs)
		w.ex.verify(w.ex.contract[fn])
		return w.ex.obs[n:]
	}}
}

func a2lUnits(g *Grammar, pkgs map[string]*ssa.Package) []*Unit {
	var us []*Unit
	for _, p := range g.Parsers {
		p := p
		a := &a2lv{}
		val, stop := a.propsOf(p)
		props := append(append([]string{"P10"}, val...), stop...)
		u := fnUnit("a2l", p.Fn, props)
		run := u.Run
		u.Run = func(w *Worker) []*Oblig {
			obs := run(w)
			if w.a2.cov[p.Fn] == 0 {
				ok := false
				for _, o := range obs {
					if o.Failed {
						ok = true
					}
				}
				if !ok {
					obs = append(obs, &Oblig{Fn: "a2l." + p.Fn, Name: "accepts", Detail: "no successful path exists", Props: append(val, stop...), Failed: true, Res: "vacuous"})
				}
			}
			return obs
		}
		us = append(us, u)
	}
	for _, e := range g.Enums {
		us = append(us, fnUnit("a2l", e.Fn, []string{"P11", "P07", "P10"}))
	}
	us = append(us, &Unit{Name: "a2l.isKeyword", Props: []string{"P07", "P08", "P09"}, Fns: []string{"a2l.isKeyword"}, Run: func(w *Worker) []*Oblig {
		fn := pkgFunc(w.pkgs["a2l"], "isKeyword")
		if fn == nil {
			return []*Oblig{{Fn: "a2l.isKeyword", Name: "exists", Props: []string{"P07", "P08", "P09"}, Failed: true, Res: "missing"}}
		}
		n := len(w.ex.obs)
		for _, kw := range append([]string{""}, g.Keywords...) {
			w.a2.kwCase = kw
			w.ex.verify(w.ex.contract[fn])
		}
		return w.ex.obs[n:]
	}})
	return us
}

func driver(args []string) int {
	fs := flag.NewFlagSet("govc", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "property ids, separated by commas (empty: all)")
	only := fs.String("only", "", "only this unit (substring)")
	out := fs.String("out", "", "report file")
	workers := fs.Int("j", 8, "")
	timeout := fs.Int("timeout", 10000, "ms per query")
	verbose := fs.Bool("v", false, "")
	cross := fs.Bool("cross", false, "confirm every solver answer with the other back ends")
	fs.Parse(args)
	if f := os.Getenv("GOVC_PROFILE"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	debug.SetGCPercent(200)
	debug.SetMaxStack(4 << 30)
	t0 := time.Now()
	prog, pkgs, err := load(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc: cannot load:", err)
		return 3
	}
	findRenamed(pkgs, *verif+"/spec/functions.json")
	g, err := loadGrammar(*verif + "/spec/a2l_grammar.json")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var us []*Unit
	for _, u := range allUnits(g, pkgs) {
		if *prop != "" && !hasAny(u.Props, *prop) {
			continue
		}
		if *only != "" && !strings.Contains(u.Name, *only) {
			continue
		}
		us = append(us, u)
	}
	candMs = *timeout / 6
	pool := thePool
	defer pool.CloseAll()
	rep := &Report{Prop: *prop, BySolver: map[string]int{}, ByName: map[string]int{}, Cross: map[string]int{}}
	fset := map[string]bool{}
	inl := map[string]bool{}
	ext := map[string]bool{}
	var mu sync.Mutex
	var all []*Oblig
	jobs := make(chan *Unit, len(us))
	// big units first
	for _, u := range us {
		jobs <- u
	}
	close(jobs)
	solve := make(chan *Oblig, 100000)
	var sw, ww sync.WaitGroup
	memo := map[string]*Oblig{}
	for i := 0; i < *workers; i++ {
		sw.Add(1)
		go func() {
			defer sw.Done()
			for o := range solve {
				discharge(pool, o, *timeout)
				if *cross && o.Res == "unsat" && !o.Cover {
					for _, sv := range []string{"z3", "cvc5"} {
						if sv == o.Solver {
							continue
						}
						r, _ := pool.run(sv, 5000, o.Script, false)
						mu.Lock()
						rep.Cross[sv+":"+r]++
						mu.Unlock()
						if r == "sat" {
							o.Res = "back ends disagree (" + sv + ")"
						}
					}
				}
			}
		}()
	}
	for i := 0; i < *workers; i++ {
		ww.Add(1)
		go func() {
			defer ww.Done()
			w := newWorker(prog, pkgs, g)
			for u := range jobs {
				ut := time.Now()
				if w.ex.c.n > 400000 {
					w.reset()
				}
				obs := u.Run(w)
				w.ex.obs = nil
				mu.Lock()
				if d := time.Since(ut); d > 2*time.Second {
					rep.Slow = append(rep.Slow, fmt.Sprintf("%s %.1fs", u.Name, d.Seconds()))
				}
				for _, f := range u.Fns {
					fset[f] = true
				}
				for _, o := range obs {
					if *prop != "" && !hasAny(o.Props, *prop) {
						continue
					}
					all = append(all, o)
					if o.Res != "" {
						continue
					}
					key := o.Script
					if o.Cover {
						key += "#c"
					}
					if m := memo[key]; m != nil {
						o.Res = "dup"
						o.Model = ""
						o.dup = m
						continue
					}
					memo[key] = o
					solve <- o
				}
				for k := range w.ex.inlined {
					inl[k] = true
				}
				for k := range w.ex.externs {
					ext[k] = true
				}
				mu.Unlock()
			}
		}()
	}
	ww.Wait()
	close(solve)
	sw.Wait()
	rep.Again = again(pool, all, 3**timeout)
	covered := map[string]bool{}
	for _, o := range all {
		if o.dup != nil {
			o.Res, o.Solver, o.Model = o.dup.Res, o.dup.Solver, o.dup.Model
		}
		if o.Cover && o.Res != "unsat" {
			covered[o.Fn] = true
		}
	}
	for _, o := range all {
		if o.Cover {
			rep.Covers++
			if o.Res != "unsat" {
				rep.CoversOK++
			} else if !covered[o.Fn] {
				o.Detail = "vacuous: " + o.Detail
				rep.Failed = append(rep.Failed, o)
			}
			continue
		}
		rep.Obligations++
		n := o.Name
		if i := strings.Index(n, ":"); i > 0 {
			n = n[:i]
		}
		rep.ByName[n]++
		if o.Res == "unsat" && !o.Failed {
			rep.Discharged++
			if o.Trivial {
				rep.Simplifier++
			} else {
				rep.BySolver[o.Solver]++
			}
		} else {
			rep.Failed = append(rep.Failed, o)
		}
	}
	rep.Units = len(us)
	rep.Functions = sortedKeys(fset)
	rep.Inlined = sortedKeys(inl)
	rep.Externs = sortedKeys(ext)
	rep.Queries = pool.Stats.Queries
	rep.SolverMs = pool.Stats.Nanos / 1e6
	rep.WallMs = time.Since(t0).Milliseconds()
	sort.Slice(rep.Failed, func(i, j int) bool {
		return rep.Failed[i].Fn+rep.Failed[i].Name < rep.Failed[j].Fn+rep.Failed[j].Name
	})
	if *out != "" {
		for _, o := range rep.Failed {
			if !*verbose {
				o.Script = ""
			}
		}
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, b, 0o644)
	}
	fmt.Printf("govc: units=%d functions=%d obligations=%d discharged=%d (simplifier %d) failed=%d covers=%d/%d queries=%d solver=%dms wall=%dms\n", rep.Units, len(rep.Functions), rep.Obligations, rep.Discharged, rep.Simplifier, len(rep.Failed), rep.CoversOK, rep.Covers, rep.Queries, rep.SolverMs, rep.WallMs)
	if *verbose {
		fmt.Println("slow:", rep.Slow)
		for _, o := range rep.Failed {
			fmt.Printf("FAILED %s %s %s [%s] %v\n    %s\n", o.Fn, o.Name, o.Pos, o.Res, o.Props, o.Detail)
			if os.Getenv("GOVC_SCRIPT") != "" {
				fmt.Println(o.Script)
			}
		}
	}
	if len(rep.Failed) > 0 {
		return 1
	}
	return 0
}

// again: an unknown is no verdict; a few of them are asked once more, of fresh solver processes, with other seeds and more time
func again(pool *Pool, all []*Oblig, timeout int) int {
	var l []*Oblig
	for _, o := range all {
		if !o.Cover && o.dup == nil && !o.Failed && o.Script != "" && o.Res != "unsat" && o.Res != "sat" {
			l = append(l, o)
		}
	}
	if len(l) > 12 {
		return 0
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 4)
	end := time.Now().Add(120 * time.Second)
	for _, o := range l {
		wg.Add(1)
		go func(o *Oblig) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			for seed := 0; seed < 4; seed++ {
				for _, k := range []string{"z3-new", "z3", "cvc5"} {
					if k == "cvc5" && seed > 0 || time.Now().After(end) {
						continue
					}
					to := timeout / 3
					if seed == 3 || k == "cvc5" {
						to = timeout
					}
					s, err := startSolver(k, to)
					if err != nil {
						continue
					}
					if k != "cvc5" {
						fmt.Fprintf(s.in, "(set-option :smt.random_seed %d)\n", seed*7+1)
					}
					t0 := time.Now()
					r, _, _ := s.check(o.Script, false)
					s.close()
					atomic.AddInt64(&pool.Stats.Nanos, int64(time.Since(t0)))
					atomic.AddInt64(&pool.Stats.Queries, 1)
					if r == "unsat" {
						o.Res, o.Solver = r, k
						return
					}
					if r == "sat" {
						o.Res = r
					}
				}
			}
		}(o)
	}
	wg.Wait()
	return len(l)
}

func discharge(pool *Pool, o *Oblig, timeout int) {
	t := time.Now()
	defer func() { o.Ms = time.Since(t).Milliseconds() }()
	if o.Cover {
		r, _ := pool.run("z3-new", 3000, o.Script, false)
		o.Res, o.Solver = r, "z3-new"
		return
	}
	r, m := pool.run("z3-new", 2000, o.Script, false)
	o.Res, o.Solver = r, "z3-new"
	if r == "unsat" {
		return
	}
	if r == "error" {
		o.Model = m
	}
	for _, s := range []string{"z3", "cvc5", "z3-new"} {
		r2, m2 := pool.run(s, timeout, o.Script, s == "z3-new")
		if r2 == "unsat" {
			o.Res, o.Solver = r2, s
			return
		}
		if r2 == "sat" {
			o.Res = "sat"
		}
		if s == "z3-new" && m2 != "" {
			o.Model = m2
		}
		if r2 == "sat" && s != "z3-new" {
			continue
		}
	}
}
