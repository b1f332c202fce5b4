package main

// ReadCalibration: two readers run beside the caller. Goroutines are collected at the go statement; where the
// caller waits (WaitGroup.Wait, receive from an empty channel) the bodies of the started goroutines are executed
// in every order, and after each of them the caller goes on if it can. Bodies that could block, that share
// memory with somebody else while they run, or that go on to communicate after their Done are violations, so the
// whole bodies are the steps that matter.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type gor struct {
	id     int
	callee *ssa.Function
	bind   []Val
	args   []Val
	in     *ssa.Go
}
type pend struct{ l []gor }
type access struct {
	obj, who int
	write    bool
	path     []PE
}

// apart: the two paths lead to different parts of an object
func apart(a, b []PE) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].F != b[i].F {
			return true
		}
		if a[i].F < 0 && a[i].Idx != b[i].Idx && a[i].Idx.Op == "int" && b[i].Idx.Op == "int" {
			return true
		}
	}
	return false
}

type accs struct{ l []access }

type sched struct {
	ex    *Ex
	props []string
	n     int
}

const (
	gPend = "spec:pending"
	gWho  = "spec:who"
	gAcc  = "spec:accesses"
	gDone = "spec:done"
)

func (s *sched) pending(st *State) []gor {
	if p, ok := st.ghost[gPend].(*pend); ok {
		return p.l
	}
	return nil
}

func (s *sched) who(st *State) int {
	if w, ok := st.ghost[gWho].(int); ok {
		return w
	}
	return 0
}

func (s *sched) counter(st *State, wg Val) (string, *Term) {
	a, ok := wg.(*Addr)
	if !ok || a.Kind != 'o' || len(a.Path) > 0 {
		unsup("WaitGroup that is no local variable")
	}
	k := fmt.Sprintf("spec:wg:%d", a.Obj)
	if t, ok := st.ghost[k].(*Term); ok {
		return k, t
	}
	return k, s.ex.c.IntLit(0)
}

func (s *sched) spawn(st *State, callee *ssa.Function, bind, args []Val, in *ssa.Go) {
	if s.who(st) != 0 {
		unsup("goroutine started by a goroutine")
	}
	s.n++
	l := append(append([]gor(nil), s.pending(st)...), gor{s.n, callee, bind, args, in})
	st.ghost[gPend] = &pend{l}
}

// run executes one of the started goroutines to its end
func (s *sched) run(st *State, fr *Frame, i int, k func(*State)) {
	p := s.pending(st)
	g := p[i]
	st.ghost[gPend] = &pend{append(append([]gor(nil), p[:i]...), p[i+1:]...)}
	st.ghost[gWho] = g.id
	st.ghost[gDone] = false
	s.ex.callFn(st, fr, g.callee, g.bind, g.args, g.in, func(s2 *State, f2 *Frame, _ []Val) {
		s2.ghost[gWho] = 0
		s2.ghost[gDone] = false
		if len(s.pending(s2)) == 0 {
			delete(s2.ghost, gAcc)
		}
		k(s2)
	})
}

// wait explores every order of the started goroutines until the condition lets the caller go on
func (s *sched) wait(st *State, fr *Frame, ready func(*State) int, stuck func(*State), k func(*State)) {
	if st.dead {
		return
	}
	r := ready(st)
	if r == 1 {
		// the others may as well run first: they do so at the next point where the caller waits
		k(st)
		return
	}
	n := len(s.pending(st))
	if n == 0 {
		if r == 0 {
			unsup("cannot decide whether the caller goes on")
		}
		stuck(st)
		return
	}
	for i := 0; i < n; i++ {
		s2 := st
		if i+1 < n {
			s2 = st.clone()
		}
		s.run(s2, fr, i, func(s3 *State) { s.wait(s3, fr, ready, stuck, k) })
	}
}

func (s *sched) event(st *State, kind string, args []Val, pos token.Pos) {
	c, ex := s.ex.c, s.ex
	busy := func() {
		if s.who(st) == 0 && len(s.pending(st)) > 0 {
			unsup("channel operation beside running goroutines")
		}
		if d, _ := st.ghost[gDone].(bool); d {
			ex.refute(st, s.props, "done-is-last", "nothing is communicated after the Done that lets the caller go on", pos)
		}
	}
	switch kind {
	case "(*sync.WaitGroup).Add":
		if s.who(st) != 0 {
			unsup("Add inside a goroutine")
		}
		n, t := s.counter(st, args[0])
		st.ghost[n] = c.Add(t, st.term(args[1]))
	case "(*sync.WaitGroup).Done":
		n, t := s.counter(st, args[0])
		ex.oblige(st, s.props, "counter", "the counter of the WaitGroup does not become negative", pos, c.Lt(c.IntLit(0), t))
		st.ghost[n] = c.Sub(t, c.IntLit(1))
		if s.who(st) != 0 {
			st.ghost[gDone] = true
		}
	case "send":
		busy()
		if ch, ok := args[0].(*ChanV); ok {
			cs := st.chans[ch.ID]
			if cs.Cap == nil {
				unsup("channel of unknown capacity")
			}
			ex.oblige(st, s.props, "no-block", "there is room for the message on every schedule", pos, c.Le(c.Sub(c.Len(cs.Sent), cs.Rcvd), cs.Cap))
		}
	case "close", "len":
		busy()
	}
}

func (s *sched) access(st *State, a *Addr, write bool, pos token.Pos) {
	if a.Kind != 'o' {
		return
	}
	me := s.who(st)
	if me == 0 && len(s.pending(st)) == 0 {
		return
	}
	var l []access
	if x, ok := st.ghost[gAcc].(*accs); ok {
		l = x.l
	}
	for _, x := range l {
		if x.obj == a.Obj && x.who != me && (x.write || write) && !apart(x.path, a.Path) {
			s.ex.refute(st, s.props, "no-race", "memory shared with a running goroutine", pos)
			return
		}
	}
	st.ghost[gAcc] = &accs{append(append([]access(nil), l...), access{a.Obj, me, write, a.Path})}
}

// ---------------------------------------------------------------- file type: the lower case extension of a path

func ftype(ex *Ex, p *Term) *Term { return ex.c.App("ftype", ex.c.Str, p) }

func lowerOf(t *Term) *Term {
	if t.Op == "app:strings.ToLower" {
		return t.Args[0]
	}
	return nil
}

func extOf(t *Term) *Term {
	if t.Op == "app:filepath.Ext" {
		return t.Args[0]
	}
	return nil
}

func ftypeCall(ex *Ex, st *State, callee *ssa.Function, args []Val) Val {
	c := ex.c
	T := func(i int) *Term { return st.norm(st.term(args[i])) }
	isExt := func(t *Term) bool {
		return t.Op == "str" && strings.HasPrefix(t.S, ".") && strings.Count(t.S, ".") == 1 && !strings.Contains(t.S, "/") && t.S == strings.ToLower(t.S)
	}
	switch callee.String() {
	case "strings.ToLower":
		if p := extOf(T(0)); p != nil {
			return ftype(ex, p)
		}
	case "path/filepath.Ext", "path.Ext":
		if p := lowerOf(T(0)); p != nil {
			return ftype(ex, p)
		}
		return c.App("filepath.Ext", c.Str, T(0))
	case "strings.HasSuffix":
		if p := lowerOf(T(0)); p != nil && isExt(T(1)) {
			return c.Eq(ftype(ex, p), T(1))
		}
	case "strings.EqualFold":
		for i := 0; i < 2; i++ {
			if p := extOf(T(i)); p != nil && T(1-i).Op == "str" {
				return c.Eq(ftype(ex, p), c.StrLit(strings.ToLower(T(1-i).S)))
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- the contract

func readCalContract(w *Worker, props []string) *Contract {
	pkgFn := func(p, n string) *ssa.Function {
		if pk := w.pkgs[p]; pk != nil {
			return pkgFunc(pk, n)
		}
		return nil
	}
	fn := pkgFn(rootPkg, "ReadCalibration")
	if fn == nil {
		return nil
	}
	readers := map[string]*ssa.Function{}
	for _, p := range []string{"a2l", "ihex32", "srec19"} {
		if readers[p] = pkgFn(p, "ParseFromFile"); readers[p] == nil {
			return nil
		}
	}
	bad := func(ex *Ex, p string, path *Term) *Term { return ex.c.App("read:"+p+".err", ex.c.Bool, path) }
	got := func(ex *Ex, p string, path *Term) *Term {
		t := readers[p].Signature.Results().At(0).Type()
		return ex.c.App("read:"+p, ex.sortOf(t), path)
	}
	var s *cspec
	var sc *sched
	ct := &Contract{Fn: fn, Props: props, Safe: props, Unroll: true}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		s = ex.symbolic(st, fr, fn)
		if len(s.in["string"]) != 2 || fn.Signature.Results().Len() != 2 {
			unsup("signature of %s", fn.Name())
		}
		sc = &sched{ex: ex, props: props}
		if st.ghost == nil {
			st.ghost = map[string]Val{}
		}
		for p, rf := range readers {
			p := p
			ex.contract[rf] = &Contract{Fn: rf, Apply: func(ex *Ex, st *State, fr *Frame, args []Val, pos token.Pos, k K) {
				c := ex.c
				path := st.norm(st.term(args[0]))
				v := got(ex, p, path)
				ex.convFork(st, bad(ex, p, path), func(s2 *State, isBad bool) {
					if isBad {
						k(s2, []Val{c.Fresh("partial", v.Sort), c.ErrI})
						return
					}
					k(s2, []Val{v, c.NilI})
				})
			}}
		}
	}
	ct.GoHook = func(ex *Ex, st *State, fr *Frame, callee *ssa.Function, args []Val, in *ssa.Go) bool {
		var bind []Val
		if cl, ok := ex.val(st, fr, in.Call.Value).(*Closure); ok {
			bind = cl.Bind
		}
		sc.spawn(st, callee, bind, args, in)
		return true
	}
	ct.OnEvent = func(ex *Ex, st *State, kind string, args ...Val) { sc.event(st, kind, args, fn.Pos()) }
	ct.OnObj = func(ex *Ex, st *State, a *Addr, write bool, pos token.Pos) { sc.access(st, a, write, pos) }
	ct.ChanHook = func(ex *Ex, st *State, fr *Frame, in *ssa.MakeChan) Val {
		v := ex.makeChan(st, in.Type().Underlying().(*types.Chan).Elem(), in.Name(), in)
		st.chans[v.(*ChanV).ID].Cap = st.term(ex.val(st, fr, in.Size))
		return v
	}
	ct.ChanWait = func(ex *Ex, st *State, fr *Frame, ch *ChanV, pos token.Pos, k func(*State)) {
		if sc.who(st) != 0 {
			unsup("a goroutine receives")
		}
		sc.wait(st, fr, func(s2 *State) int {
			cs := s2.chans[ch.ID]
			if cs.Closed {
				return 1
			}
			return s2.decide(ex.c.Lt(cs.Rcvd, ex.c.Len(cs.Sent)))
		}, func(s2 *State) {
			ex.refute(s2, props, "returns", "a receive nobody sends to blocks forever", pos)
		}, k)
	}
	ct.CallHook = func(ex *Ex, st *State, fr *Frame, callee *ssa.Function, args []Val, in ssa.CallInstruction, k K) bool {
		c := ex.c
		if callee.String() == "(*sync.WaitGroup).Wait" {
			sc.wait(st, fr, func(s2 *State) int {
				_, t := sc.counter(s2, args[0])
				return s2.decide(c.Eq(t, c.IntLit(0)))
			}, func(s2 *State) {
				ex.refute(s2, props, "returns", "Wait blocks forever", in.Pos())
			}, func(s2 *State) { k(s2, nil) })
			return true
		}
		if callee.String() == "os.Create" {
			ex.externs["os.Create (log file)"]++
			ex.convFork(st, c.App("logfile.err", c.Bool), func(s2 *State, isBad bool) {
				if isBad {
					k(s2, []Val{&Opaque{"file"}, c.ErrI})
				} else {
					k(s2, []Val{&Opaque{"file"}, c.NilI})
				}
			})
			return true
		}
		if v := ftypeCall(ex, st, callee, args); v != nil {
			ex.externs[callee.String()]++
			k(st, []Val{v})
			return true
		}
		return false
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		pa, ph := s.in["string"][0], s.in["string"][1]
		isHex, isS19 := c.Eq(ftype(ex, ph), c.StrLit(".hex")), c.Eq(ftype(ex, ph), c.StrLit(".s19"))
		okA := c.Not(bad(ex, "a2l", pa))
		okH := c.Or(c.And(isHex, c.Not(bad(ex, "ihex32", ph))), c.And(isS19, c.Not(bad(ex, "srec19", ph))))
		log := c.Not(c.App("logfile.err", c.Bool))
		e := isErr(c, st, rets[1])
		cd := st.term(rets[0])
		rt := fn.Signature.Results().At(0).Type()
		fld := func(n string) *Term { return ex.fld(cd, n) }
		zero := func(n string) *Term { return ex.fld(ex.zero(rt), n) }
		ex.oblige(st, props, "accepted", "no error if both readers succeed", fn.Pos(), c.Implies(c.And(okA, okH, log), c.Not(e)))
		ex.oblige(st, props, "rejected", "an error if a reader fails or the file type is unknown", fn.Pos(), c.Implies(c.Not(c.And(okA, okH)), e))
		ex.oblige(st, props, "a2l", "the A2L that was read", fn.Pos(), c.Or(e, c.Eq(fld("A2l"), got(ex, "a2l", pa))))
		ex.oblige(st, props, "hex", "the image that the reader of the file type returned", fn.Pos(), c.Or(e, c.Eq(fld("Hex"), c.Ite(isHex, got(ex, "ihex32", ph), got(ex, "srec19", ph)))))
		ex.oblige(st, props, "module", "the first module is selected", fn.Pos(), c.Or(e, c.Eq(fld("ModuleIndex"), c.IntLit(0))))
		ex.oblige(st, props, "nothing-partial", "no content beside an error", fn.Pos(), c.Implies(e, c.And(c.Eq(fld("A2l"), zero("A2l")), c.Eq(fld("Hex"), zero("Hex")))))
	}
	return ct
}
