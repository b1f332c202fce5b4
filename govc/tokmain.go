package main

// The workers of the tokenizer and the function that starts and joins them. fl(L,i): the words of the first i lines
// of L, line by line, blank lines left out. T, C, MC: tokens, completeness and number of modules of such a text
// (tok.go); TP, CP, MP: the same for the lines a..b of the whole text.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tokMain struct {
	ex    *Ex
	props []string
	part  types.Type // message of a worker
	L     *Term
	count *ssa.Global
}

func (k *tokMain) words() *Sort { return k.ex.c.SeqOf(k.ex.c.SeqOf(k.ex.c.Str)) }
func (k *tokMain) fl(l, i *Term) *Term {
	return k.ex.c.App("tk.lines", k.words(), l, i)
}
func (k *tokMain) T(f *Term) *Term  { return k.ex.c.App("tk.T", k.ex.c.SeqOf(k.ex.c.Str), f) }
func (k *tokMain) C(f *Term) *Term  { return k.ex.c.App("tk.C", k.ex.c.Bool, f) }
func (k *tokMain) MC(f *Term) *Term { return k.ex.c.App("tk.MC", k.ex.c.Int, f) }
func (k *tokMain) TP(a, b *Term) *Term {
	return k.ex.c.App("tk.TP", k.ex.c.SeqOf(k.ex.c.Str), a, b)
}
func (k *tokMain) CP(a, b *Term) *Term { return k.ex.c.App("tk.CP", k.ex.c.Bool, a, b) }
func (k *tokMain) MP(a, b *Term) *Term { return k.ex.c.App("tk.MP", k.ex.c.Int, a, b) }
func (k *tokMain) S(j *Term) *Term     { return k.ex.c.App("tk.modulesum", k.ex.c.Int, j) }

// flDef: line i of l is added if it is not blank
func (k *tokMain) flDef(l, i *Term) *Term {
	c := k.ex.c
	ln := c.At(l, i)
	f := k.fl(l, i)
	blank := c.Eq(c.App("strings.TrimSpace", c.Str, ln), c.StrLit(""))
	return c.Implies(c.And(c.Le(c.IntLit(0), i), c.Lt(i, c.Len(l))),
		c.Eq(k.fl(l, c.Add(i, c.IntLit(1))), c.Ite(blank, f, c.Cat(f, c.Unit(c.App("strings.Fields", c.SeqOf(c.Str), ln))))))
}

// wellFormed: every line has a word, no word is empty
func (k *tokMain) wellFormed(f *Term) *Term {
	c := k.ex.c
	z := c.IntLit(0)
	o, i := c.Fresh("o", c.Int), c.Fresh("i", c.Int)
	ln := c.At(f, o)
	w := c.At(ln, i)
	in := c.And(c.Le(z, o), c.Lt(o, c.Len(f)))
	return c.And(c.Forall([]*Term{o}, c.Implies(in, c.Lt(z, c.Len(ln))), ln),
		c.Forall([]*Term{o, i}, c.Implies(c.And(in, c.Le(z, i), c.Lt(i, c.Len(ln))), c.Ne(w, c.StrLit(""))), w))
}

// fieldLaws: strings.Fields and strings.TrimSpace
func (k *tokMain) fieldLaws(st *State) {
	c := k.ex.c
	z := c.IntLit(0)
	l, i := c.Fresh("l", c.Str), c.Fresh("i", c.Int)
	f := c.App("strings.Fields", c.SeqOf(c.Str), l)
	t := c.App("strings.TrimSpace", c.Str, l)
	st.assume(c.Forall([]*Term{l}, c.Eq(c.Eq(t, c.StrLit("")), c.Eq(c.Len(f), z)), f))
	st.assume(c.Forall([]*Term{l}, c.Eq(c.Eq(t, c.StrLit("")), c.Eq(c.Len(f), z)), t))
	w := c.At(f, i)
	st.assume(c.Forall([]*Term{l, i}, c.Implies(c.And(c.Le(z, i), c.Lt(i, c.Len(f))), c.Ne(w, c.StrLit(""))), w))
}

// partMsg: a message with these tokens
func (k *tokMain) partMsg(toks, complete *Term) *Term {
	c := k.ex.c
	st, ok := k.part.Underlying().(*types.Struct)
	if !ok {
		unsup("message of the tokenizer workers")
	}
	var a []*Term
	for i := 0; i < st.NumFields(); i++ {
		switch t := st.Field(i).Type().Underlying().(type) {
		case *types.Slice:
			a = append(a, toks)
			continue
		case *types.Basic:
			if t.Kind() == types.Bool {
				a = append(a, complete)
				continue
			}
		}
		unsup("message of the tokenizer workers")
	}
	return c.Mk(k.ex.sortOf(k.part), a)
}

// useList: buildTokenList by its contract; add: what happens to the number of modules
func (k *tokMain) useList(w *Worker, add func(st *State, n *Term)) {
	fn := pkgFunc(w.pkgs["a2l"], "buildTokenList")
	if fn == nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 {
		unsup("buildTokenList")
	}
	k.ex.contract[fn] = &Contract{Fn: fn, Apply: func(ex *Ex, st *State, fr *Frame, args []Val, pos token.Pos, kk K) {
		f := st.norm(st.seqOf(args[0]))
		ex.oblige(st, k.props, "pre", "every line given to buildTokenList has words", pos, k.wellFormed(f))
		if sl, ok := args[0].(*SliceRef); ok && sl.Base.Kind == 'o' {
			st.store(sl.Base, ex.c.Fresh("words", st.load(sl.Base).Sort))
		}
		n := k.MC(f)
		st.assume(ex.c.Le(ex.c.IntLit(0), n))
		add(st, n)
		m := *k
		m.part = fn.Signature.Results().At(0).Type()
		kk(st, []Val{m.partMsg(k.T(f), k.C(f))})
	}}
}

// lineLoop: a loop that collects the words of lines
func (k *tokMain) lineLoop(lr *LoopRun, l func() *Term) *LoopSpec {
	c := k.ex.c
	one := c.IntLit(1)
	ints := func(st *State, fr *Frame, f func(n string, v *Term)) {
		for _, lf := range sortLeaves(lr.mod) {
			if v := lr.get(st, fr, lf); v != nil && v.Sort == c.Int && plainInt(lr.leafType(lf)) {
				f(lf, v)
			}
		}
	}
	spec := &LoopSpec{CandProps: k.props, Part: func(string) bool { return false }}
	spec.Cands = func(st *State, fr *Frame, q func(string, *Term)) {
		ints(st, fr, func(n string, v *Term) {
			q(n+":range", c.And(c.Le(c.IntLit(-1), v), c.Le(v, c.Len(l()))))
			q(n+":range>=0", c.Le(c.IntLit(0), v))
			q(n+":range<", c.Lt(v, c.Len(l())))
			for _, lf := range lr.accLeaves(st, fr, k.words()) {
				q(n+":"+lf, c.Eq(lr.get(st, fr, lf), k.fl(l(), v)))
				q(n+"+1:"+lf, c.Eq(lr.get(st, fr, lf), k.fl(l(), c.Add(v, one))))
			}
		})
		for _, lf := range lr.accLeaves(st, fr, k.words()) {
			q("words:"+lf, k.wellFormed(lr.get(st, fr, lf)))
		}
	}
	spec.Havoc = func(st *State, fr *Frame) {
		ints(st, fr, func(_ string, v *Term) {
			st.assume(k.flDef(l(), v))
			st.assume(k.flDef(l(), c.Add(v, one)))
		})
	}
	spec.Meas = func(st *State, fr *Frame, q func(string, *Term)) {
		ints(st, fr, func(n string, v *Term) { q(n, v) })
	}
	spec.MeasMax = c.Len(l())
	return spec
}

// ---------------------------------------------------------------- a worker

func tokWorkerFn(w *Worker) *ssa.Function {
	fn := pkgFunc(w.pkgs["a2l"], "buildTokenGeneratorFromString")
	if fn == nil {
		return nil
	}
	var r *ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if g, ok := in.(*ssa.Go); ok {
				if r != nil {
					return nil
				}
				r = g.Call.StaticCallee()
			}
		}
	}
	return soleCall(r)
}

// soleCall: the function a goroutine runs, where all it does is call it (see unwrapGo)
func soleCall(fn *ssa.Function) *ssa.Function {
	if fn == nil || fn.Parent() == nil || len(fn.Blocks) != 1 {
		return fn
	}
	var r *ssa.Function
	for _, in := range fn.Blocks[0].Instrs {
		c, ok := in.(*ssa.Call)
		if !ok {
			continue
		}
		f := c.Call.StaticCallee()
		if r != nil || f == nil || f.Pkg != fn.Pkg {
			return fn
		}
		r = f
	}
	if r == nil {
		return fn
	}
	return r
}

func tokWorkerContract(w *Worker, props []string) *Contract {
	fn := tokWorkerFn(w)
	if fn == nil {
		return nil
	}
	var k *tokMain
	ch := -1
	ct := &Contract{Fn: fn, Props: props, Safe: props}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		c := ex.c
		k = &tokMain{ex: ex, props: props}
		if st.ghost == nil {
			st.ghost = map[string]Val{}
		}
		st.ghost["modules"] = c.IntLit(0)
		for _, p := range workIns(fn) {
			switch t := p.t.Underlying().(type) {
			case *types.Slice:
				if k.L != nil || t.String() != "[]string" {
					unsup("signature of %s", fn.Name())
				}
				k.L = c.Var("L", c.SeqOf(c.Str))
				ex.noteType(k.L, t)
				p.give(ex, st, fr, k.L)
			case *types.Chan:
				if ch >= 0 {
					unsup("signature of %s", fn.Name())
				}
				k.part = t.Elem()
				ch = ex.chanParam(st, fr, p)
			default:
				unsup("signature of %s", fn.Name())
			}
		}
		if k.L == nil || ch < 0 {
			unsup("signature of %s", fn.Name())
		}
		st.assume(c.Eq(k.fl(k.L, c.IntLit(0)), c.Empty(k.words())))
		st.assume(k.flDef(k.L, c.IntLit(0)))
		k.fieldLaws(st)
		numProcPos(ex, st, "a2l")
		k.useList(w, func(st *State, n *Term) { st.ghost["modules"] = c.Add(g(st, "modules"), n) })
	}
	ct.Loop = func(ex *Ex, lr *LoopRun) *LoopSpec { return k.lineLoop(lr, func() *Term { return k.L }) }
	ct.OnGlob = func(ex *Ex, st *State, gl *ssa.Global, write bool, pos token.Pos) {
		if write || gl.Name() == "moduleCount" || gl.Name() == "tokenList" {
			ex.refute(st, props, "shared", "a worker touches "+gl.Name()+" only by an atomic addition", pos)
		}
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		cs := st.chans[ch]
		f := k.fl(k.L, c.Len(k.L))
		ex.oblige(st, props, "one-message", "one message, then the channel is closed", fn.Pos(), c.And(c.Eq(c.Len(cs.Sent), c.IntLit(1)), c.BoolLit(cs.Closed)))
		ex.oblige(st, props, "message", "tokens and completeness of all lines of the part", fn.Pos(), c.Eq(cs.Sent, c.Unit(k.partMsg(k.T(f), k.C(f)))))
		ex.oblige(st, props, "modules", "the modules of the part are counted once", fn.Pos(), c.Eq(g(st, "modules"), k.MC(f)))
	}
	return ct
}

// ---------------------------------------------------------------- the whole

// compose (lemma.tokens): behind a complete part the tokens go on with those of the next part
func (k *tokMain) compose(a, b, d *Term) *Term {
	c := k.ex.c
	return c.Implies(c.And(c.Le(c.IntLit(0), a), c.Le(a, b), c.Le(b, d), c.Le(d, c.Len(k.L)), k.CP(a, b)),
		c.And(c.Eq(k.TP(a, d), c.Cat(k.TP(a, b), k.TP(b, d))), c.Eq(k.CP(a, d), k.CP(b, d)), c.Eq(k.MP(a, d), c.Add(k.MP(a, b), k.MP(b, d)))))
}

func (k *tokMain) message(m *hexMain, st *State, j *Term) *Term {
	c := k.ex.c
	a, b := m.cv("parse", j), m.cv("parse", c.Add(j, c.IntLit(1)))
	st.assume(k.compose(c.IntLit(0), a, b))
	st.assume(k.sum(m, j))
	return k.partMsg(k.TP(a, b), k.CP(a, b))
}

func (k *tokMain) small(t *Term) *Term {
	c := k.ex.c
	return c.And(c.Le(c.IntLit(0), t), c.Lt(t, c.IntLit(1<<32)))
}

// sum: the modules of the parts in front of part j+1
func (k *tokMain) sum(m *hexMain, j *Term) *Term {
	c := k.ex.c
	n := c.Add(j, c.IntLit(1))
	return c.Eq(k.S(n), c.Add(k.S(j), k.MP(m.cv("parse", j), m.cv("parse", n))))
}

// spawned: the worker adds the modules of its part; nobody looks at the sum before the join
func (k *tokMain) spawned(m *hexMain, st *State, s *Term) {
	c := k.ex.c
	one := c.IntLit(1)
	n := c.Add(s, one)
	st.assume(k.sum(m, s))
	st.assume(k.small(k.S(n)))
	st.assume(k.small(k.S(s)))
	st.globs[k.count] = k.ex.wrap(c.Add(st.global(k.count), k.MP(m.cv("parse", s), m.cv("parse", n))), types.Typ[types.Uint32])
}

func (k *tokMain) spawnInv(m *hexMain, st *State, s *Term, q func(string, *Term)) {
	c := k.ex.c
	st.assume(k.small(k.S(s)))
	q("modules", c.Eq(st.global(k.count), k.S(s)))
}

func (k *tokMain) drainCands(m *hexMain, lr *LoopRun) func(st *State, fr *Frame, q func(string, *Term)) {
	c := k.ex.c
	z, one := c.IntLit(0), c.IntLit(1)
	return func(st *State, fr *Frame, q func(string, *Term)) {
		if !lr.mod["ghost:drained:parse"] {
			return
		}
		d := g(st, "drained:parse")
		e := m.cv("parse", d)
		st.assume(k.small(k.S(d)))
		type guard struct {
			n string
			t *Term
		}
		gs := []guard{{"", c.T}, {"one:", c.Le(d, one)}}
		for _, lf := range sortLeaves(lr.mod) {
			if v := lr.get(st, fr, lf); v != nil && v.Sort == c.Bool && !strings.HasPrefix(lf, "chan:") {
				gs = append(gs, guard{lf + "=>", v}, guard{"!" + lf + "=>", c.Not(v)})
			}
		}
		q("d", c.Le(z, d))
		for _, g := range gs {
			for _, lf := range lr.accLeaves(st, fr, c.SeqOf(c.Str)) {
				q(g.n+"tokens:"+lf, c.Implies(g.t, c.Eq(lr.get(st, fr, lf), k.TP(z, e))))
			}
			q(g.n+"complete", c.Implies(g.t, k.CP(z, e)))
			q(g.n+"modules", c.Implies(g.t, c.Eq(k.S(d), k.MP(z, e))))
		}
	}
}

func tokMainContract(w *Worker, props []string) *Contract {
	fn := pkgFunc(w.pkgs["a2l"], "buildTokenGeneratorFromString")
	wf := tokWorkerFn(w)
	if fn == nil {
		return nil
	}
	var k *tokMain
	var m *hexMain
	joined := func(st *State) *Term { return k.ex.c.Eq(g(st, "drained:parse"), g(st, "spawn:parse")) }
	ct := &Contract{Fn: fn, Props: props, Safe: props}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		c := ex.c
		z, one := c.IntLit(0), c.IntLit(1)
		if wf == nil || len(fn.Params) != 1 {
			unsup("workers of %s", fn.Name())
		}
		k = &tokMain{ex: ex, props: props, count: w.pkgs["a2l"].Var("moduleCount")}
		if k.count == nil {
			unsup("moduleCount")
		}
		for _, p := range workIns(wf) {
			if t, ok := p.t.Underlying().(*types.Chan); ok {
				k.part = t.Elem()
			}
		}
		in := c.Var("in", c.Str)
		fr.env[fn.Params[0]] = in
		k.L = c.App("strings.Split", c.SeqOf(c.Str), c.App("strings.ReplaceAll", c.Str, in, c.StrLit(`\"`), c.StrLit("'")), c.StrLit("\n"))
		ex.noteType(k.L, types.NewSlice(types.Typ[types.String]))
		m = &hexMain{hexWorld: &hexWorld{ex: ex}, mode: "valid", props: props, kinds: map[*ssa.Function]string{wf: "parse"}, chK: map[int]string{}, wgK: map[int]string{}, tk: k, L: k.L}
		if st.ghost == nil {
			st.ghost = map[string]Val{}
		}
		st.assume(c.Eq(m.cv("parse", z), z))
		for _, x := range []string{"spawn:", "drained:", "got:", "mk:"} {
			st.ghost[x+"parse"] = z
		}
		st.ghost["joined:parse"] = c.F
		n := c.Len(k.L)
		f := k.fl(k.L, n)
		st.assume(c.Eq(k.fl(k.L, z), c.Empty(k.words())))
		st.assume(k.flDef(k.L, z))
		st.assume(c.And(c.Eq(k.TP(z, n), k.T(f)), c.Eq(k.CP(z, n), k.C(f)), c.Eq(k.MP(z, n), k.MC(f))))
		st.assume(c.And(c.Eq(k.TP(z, z), c.Empty(c.SeqOf(c.Str))), k.CP(z, z), c.Eq(k.MP(z, z), z)))
		st.assume(c.Eq(k.S(z), z))
		st.assume(k.small(k.MP(z, n)))
		_ = one
		k.fieldLaws(st)
		numProcPos(ex, st, "a2l")
		k.useList(w, func(st *State, n *Term) {
			ex.oblige(st, props, "joined", "the modules are counted again behind the end of the workers", fn.Pos(), joined(st))
			st.globs[k.count] = ex.wrap(c.Add(st.global(k.count), n), types.Typ[types.Uint32])
		})
	}
	ct.Loop = func(ex *Ex, lr *LoopRun) *LoopSpec {
		comm := false
		for b := range lr.l.blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go, *ssa.MakeChan:
					comm = true
				case *ssa.UnOp:
					comm = comm || x.Op == token.ARROW
				}
			}
		}
		if !comm {
			return k.lineLoop(lr, func() *Term { return k.L })
		}
		sp := m.loop(lr, fn.Pos())
		sp.Cands, sp.CandProps = k.drainCands(m, lr), props
		return sp
	}
	ct.WorkHook = func(ex *Ex, st *State, fr *Frame, callee *ssa.Function, args []Val, in *ssa.Go) bool {
		if callee != wf {
			return false
		}
		m.started(st, fr, "parse", callee, args, in.Pos())
		return true
	}
	ct.OnEvent = func(ex *Ex, st *State, kind string, args ...Val) { m.event(st, kind, args, fn.Pos()) }
	ct.ChanHook = func(ex *Ex, st *State, fr *Frame, in *ssa.MakeChan) Val {
		if m.chanKind(in.Type()) == "" {
			unsup("channel of type %s", in.Type())
		}
		n := g(st, "mk:parse")
		st.ghost["mk:parse"] = ex.c.Add(n, ex.c.IntLit(1))
		return m.ch("parse", n)
	}
	ct.RecvHook = func(ex *Ex, st *State, fr *Frame, in *ssa.UnOp, t *Term, kk func(*State, *Frame, Val)) bool {
		return m.received(st, fr, in, t, kk)
	}
	ct.RecvPeek = func(ex *Ex, st *State, t *Term, in *ssa.UnOp) Val {
		kd := m.chanKind(in.X.Type())
		if kd == "" || g(st, "got:"+kd).Op != "int" {
			return nil
		}
		return Tuple{m.noMsg(kd), ex.c.BoolLit(g(st, "got:"+kd).I.Sign() == 0)}
	}
	ct.OnGlob = func(ex *Ex, st *State, gl *ssa.Global, write bool, pos token.Pos) {
		if gl == k.count {
			ex.oblige(st, props, "joined", "the number of modules is looked at behind the end of the workers", pos, joined(st))
		}
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		n := c.Len(k.L)
		z := c.IntLit(0)
		pkg := w.pkgs["a2l"]
		tl, um := pkg.Var("tokenList"), pkg.Var("useMultithreading")
		if tl == nil || um == nil || len(rets) != 2 {
			unsup("results of %s", fn.Name())
		}
		ex.oblige(st, props, "tokens", "the tokens of the whole text, then the end mark", fn.Pos(), c.Eq(st.global(tl), c.Cat(k.TP(z, n), c.Unit(c.StrLit("")))))
		ex.oblige(st, props, "threads", "several modules are parsed by one parser", fn.Pos(), c.Eq(st.global(um), c.Le(k.MP(z, n), c.IntLit(1))))
		ex.oblige(st, props, "first", "the tokens are read from the first one", fn.Pos(), c.Eq(ex.fld(st.term(rets[0]), "index"), z))
		ex.oblige(st, props, "no-error", "no error", fn.Pos(), c.Not(isErr(c, st, rets[1])))
	}
	return ct
}
