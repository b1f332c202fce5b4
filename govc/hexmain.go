package main

// Contract of parseHex: the workers are started on consecutive parts of the lines / records, joined in order,
// and their results assembled in file order. A worker is represented by its contract (hex.go, hexpar.go).

import (
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopCap struct {
	n, cond, lo *Term
	leaf        map[string]*Term
}

type hexMain struct {
	*hexWorld
	mode  string // valid, collision, badline, badsum
	props []string
	L, DS *Term
	bad   *Term // the line that is no record / the record with a wrong sum / the byte at a used address
	kinds map[*ssa.Function]string
	chK   map[int]string // kind of the workers that send on a shared channel
	wgK   map[int]string
	mt    *types.Map
	tk    *tokMain // the workers are those of the tokenizer
}

var hexKinds = []string{"parse", "sums", "offsets", "calc"}

func (m *hexMain) cv(k string, j *Term) *Term { return m.ex.c.App("hx.cut:"+k, m.ex.c.Int, j) }
func (m *hexMain) ch(k string, j *Term) *Term { return m.ex.c.App("hx.chan:"+k, m.ex.c.Int, j) }
func (m *hexMain) list(k string) *Term {
	if k == "parse" {
		return m.L
	}
	return m.RS
}
func (m *hexMain) total(k string) *Term { return m.ex.c.Len(m.list(k)) }
func (m *hexMain) hs(q *Term) *Term {
	return m.ex.c.App("hx.image", m.ex.mapSort(m.mt), q)
}
func (m *hexMain) hsDef(q *Term) *Term {
	c, ex := m.ex.c, m.ex
	e := c.At(m.DS, q)
	h := m.hs(q)
	a := ex.fld(e, "address")
	return c.Eq(m.hs(c.Add(q, c.IntLit(1))), c.Mk(h.Sort, []*Term{c.Store(c.Fld(h, 0), a, c.T), c.Store(c.Fld(h, 1), a, ex.fld(e, "value"))}))
}
func (m *hexMain) col(q *Term) *Term {
	return m.ex.c.Select(m.ex.c.Fld(m.hs(q), 0), m.ex.fld(m.ex.c.At(m.DS, q), "address"))
}

// mono: nb and base do not fall (lemma.hex: count-monotone)
func (m *hexMain) mono(f func(*Term) *Term, a, b, n *Term) *Term {
	c := m.ex.c
	z := c.IntLit(0)
	return c.Implies(c.And(c.Le(z, a), c.Le(a, b), c.Le(b, n)), c.And(c.Le(z, f(a)), c.Le(f(a), f(b)), c.Le(f(b), f(n))))
}

// part: a slice as a part of the whole list
func (m *hexMain) part(st *State, v Val, k string) (lo, hi *Term) {
	c := m.ex.c
	t := st.seqOf(v)
	for _, x := range []*Term{t, st.norm(t)} {
		if x == m.list(k) {
			return c.IntLit(0), c.Len(x)
		}
		if x.Op == "seq.sub" && x.Args[0] == m.list(k) {
			return x.Args[1], x.Args[2]
		}
	}
	unsup("the list given to the %s workers is no part of the whole list (%s)", k, short(t))
	return
}

func itoa(i int) string { return strconv.Itoa(i) }

func g(st *State, n string) *Term { return st.ghost[n].(*Term) }

func (m *hexMain) setup(st *State, fr *Frame, fn *ssa.Function) {
	ex, c := m.ex, m.ex.c
	z := c.IntLit(0)
	if len(fn.Params) != 1 || fn.Signature.Results().Len() != 2 {
		unsup("signature of %s", fn.Name())
	}
	var ok bool
	if m.mt, ok = fn.Signature.Results().At(0).Type().Underlying().(*types.Map); !ok {
		unsup("signature of %s", fn.Name())
	}
	m.L = c.Var("L", c.SeqOf(c.Str))
	m.DS = c.Var("DS", m.f.dataSort(ex))
	fr.env[fn.Params[0]] = m.L
	ex.noteType(m.L, fn.Params[0].Type())
	if np := ex.pkgs[m.f.pkg].Var("numProc"); np != nil {
		t := st.global(np)
		if t.Op != "int" {
			ex.ranges[t] = [2]*big.Int{big.NewInt(1), nil}
		}
		st.assume(c.Le(c.IntLit(1), t))
	}
	st.assume(c.Eq(ex.nb(z), z))
	st.assume(c.Eq(m.base(z), z))
	st.assume(c.Eq(ex.nb(c.Len(m.L)), c.Len(m.RS)))
	st.assume(c.Eq(m.base(c.Len(m.RS)), c.Len(m.DS)))
	st.assume(c.Eq(m.hs(z), ex.emptyMap(m.mt)))
	for _, k := range hexKinds {
		st.assume(c.Eq(m.cv(k, z), z))
		for _, x := range []string{"spawn:", "drained:", "got:", "mk:"} {
			st.ghost[x+k] = z
		}
		st.ghost["joined:"+k] = c.F
	}
	st.ghost["o0"] = c.F
	if m.mode != "valid" {
		m.bad = c.Var("bad", c.Int)
		n := map[string]*Term{"badline": c.Len(m.L), "badsum": c.Len(m.RS), "collision": c.Len(m.DS)}[m.mode]
		st.assume(c.And(c.Le(z, m.bad), c.Lt(m.bad, n)))
		if m.mode == "collision" {
			st.assume(m.col(m.bad))
		}
	}
}

func (m *hexMain) joined(st *State, k string) *Term {
	c := m.ex.c
	if k == "parse" || k == "calc" {
		return c.Eq(g(st, "drained:"+k), g(st, "spawn:"+k))
	}
	return g(st, "joined:"+k)
}

// started: a worker of kind k is started
func (m *hexMain) started(st *State, fr *Frame, k string, fn *ssa.Function, args []Val, pos token.Pos) {
	ex, c := m.ex, m.ex.c
	z, one := c.IntLit(0), c.IntLit(1)
	if m.mode == "badline" && k != "parse" {
		ex.refute(st, m.props, "stopped", "a line that is no record ends the reading before its records are used", pos)
		return
	}
	if m.mode == "badsum" && k == "calc" {
		ex.refute(st, m.props, "stopped", "a wrong byte sum ends the reading before its data is used", pos)
		return
	}
	s := g(st, "spawn:"+k)
	cp, _ := st.ghost["spec:cap"].(*loopCap)
	var list, num, wg, own, shared Val
	for i, p := range workIns(fn) {
		switch t := p.t.Underlying().(type) {
		case *types.Slice:
			list = args[i]
		case *types.Pointer:
			wg = args[i]
		case *types.Basic:
			num = args[i]
		case *types.Chan:
			if m.chanKind(t) != "" {
				own = args[i]
			} else {
				shared = args[i]
			}
		}
	}
	if list == nil {
		unsup("no list for the %s worker", k)
	}
	ex.oblige(st, m.props, "one-start", "no worker of this kind is started behind its join", pos, c.And(c.Eq(g(st, "drained:"+k), z), c.Not(g(st, "joined:"+k))))
	lo, hi := m.part(st, list, k)
	if k == "parse" || k == "calc" {
		t, ok := own.(*Term)
		if !ok {
			unsup("channel of the %s worker", k)
		}
		ex.oblige(st, m.props, "own-channel", "worker number i gets channel number i", pos, c.And(c.Eq(t, m.ch(k, s)), c.Lt(s, g(st, "mk:"+k))))
	}
	if k == "offsets" {
		n, ok := num.(*Term)
		if !ok {
			unsup("start of the %s worker", k)
		}
		ex.oblige(st, m.props, "whole-list", "the offset workers see all records", pos, c.And(c.Eq(lo, z), c.Eq(hi, c.Len(m.RS))))
		ex.oblige(st, m.props, "start-range", "the worker starts at a record", pos, c.And(c.Le(z, n), c.Le(n, c.Len(m.RS))))
		st.ghost["o0"] = c.Or(g(st, "o0"), c.Eq(n, z))
	} else {
		if cp != nil && cp.lo == nil {
			cp.lo = lo
		}
		ex.oblige(st, m.props, "part-start", "a worker starts where the one before ends", pos, c.Eq(lo, m.cv(k, s)))
		ex.oblige(st, m.props, "part", "the part lies within the list", pos, c.And(c.Le(lo, hi), c.Le(hi, m.total(k))))
		st.assume(c.Eq(m.cv(k, c.Add(s, one)), hi))
	}
	if k == "calc" && m.f.ihex {
		ex.oblige(st, m.props, "offsets-joined", "the data is computed behind the end of the offset workers", pos, g(st, "joined:offsets"))
	}
	if k != "parse" {
		ex.oblige(st, m.props, "records-complete", "the records are used behind the end of the line parsers", pos, c.And(m.joined(st, "parse"), c.Lt(z, g(st, "spawn:parse"))))
	}
	if wg != nil {
		a, ok := wg.(*Addr)
		if !ok || a.Kind != 'o' {
			unsup("wait group of the %s worker", k)
		}
		if o, has := m.wgK[a.Obj]; has && o != k {
			unsup("one wait group for two kinds of workers")
		}
		m.wgK[a.Obj] = k
		n := "wg:" + itoa(a.Obj)
		if st.ghost[n+":n"] == nil {
			unsup("unknown wait group")
		}
		st.ghost[n+":n"] = c.Add(g(st, n+":n"), one)
		ex.oblige(st, m.props, "wait-count", "the wait group counts the worker before it starts", pos, c.Le(g(st, n+":n"), g(st, n+":add")))
	}
	if shared != nil {
		cv, ok := shared.(*ChanV)
		if !ok || st.chans[cv.ID].Cap == nil {
			unsup("shared channel of the %s worker", k)
		}
		if o, has := m.chK[cv.ID]; has && o != k {
			unsup("one channel for two kinds of workers")
		}
		m.chK[cv.ID] = k
		cs := st.chans[cv.ID]
		ex.oblige(st, m.props, "capacity", "no worker blocks on its message", pos, c.And(c.Le(c.Add(s, one), cs.Cap), c.BoolLit(!cs.Closed)))
		if m.mode == "badline" && k == "parse" || m.mode == "badsum" && k == "sums" {
			x := c.Fresh("sent", cs.Sent.Sort)
			st.assume(c.And(c.Le(c.Len(cs.Sent), c.Len(x)), c.Le(c.Len(x), c.Add(c.Len(cs.Sent), one))))
			st.assume(c.Implies(c.And(c.Le(lo, m.bad), c.Lt(m.bad, hi)), c.Le(one, c.Len(x))))
			st.assume(m.complaints(x, false))
			cs.Sent = x
		}
	}
	if m.tk != nil {
		m.tk.spawned(m, st, s)
	}
	st.ghost["spawn:"+k] = c.Add(s, one)
}

// complaints: every message is an error / false
func (m *hexMain) complaints(x *Term, goal bool) *Term {
	c := m.ex.c
	return m.ex.every(goal, c.IntLit(0), c.Len(x), func(j *Term) (*Term, *Term) {
		if x.Sort.Elem == c.Bool {
			return c.Not(c.At(x, j)), c.At(x, j)
		}
		return c.Ne(c.At(x, j), c.NilI), c.At(x, j)
	})
}

func (m *hexMain) event(st *State, kind string, args []Val, pos token.Pos) {
	ex, c := m.ex, m.ex.c
	wgOf := func() string {
		a, ok := args[0].(*Addr)
		if !ok || a.Kind != 'o' || st.ghost["wg:"+itoa(a.Obj)+":add"] == nil {
			unsup("unknown wait group")
		}
		return itoa(a.Obj)
	}
	switch kind {
	case "alloc:WaitGroup":
		n := "wg:" + itoa(args[0].(*Addr).Obj)
		st.ghost[n+":add"], st.ghost[n+":n"] = c.IntLit(0), c.IntLit(0)
	case "(*sync.WaitGroup).Add":
		n := "wg:" + wgOf()
		st.ghost[n+":add"] = c.Add(g(st, n+":add"), st.term(args[1]))
	case "(*sync.WaitGroup).Wait":
		n := wgOf()
		ex.oblige(st, m.props, "wait-ends", "as many workers are started as the wait group counts", pos, c.Eq(g(st, "wg:"+n+":add"), g(st, "wg:"+n+":n")))
		k := m.wgK[args[0].(*Addr).Obj]
		if k == "" {
			return
		}
		ex.oblige(st, m.props, "wait-all", "every worker of the kind is counted", pos, c.Eq(g(st, "wg:"+n+":n"), g(st, "spawn:"+k)))
		if k == "offsets" {
			ex.oblige(st, m.props, "from-first", "an offset worker starts at the first record", pos, g(st, "o0"))
		}
		st.ghost["joined:"+k] = c.T
	case "close", "len", "recv":
		ch, ok := args[0].(*ChanV)
		if !ok {
			return
		}
		if k := m.chK[ch.ID]; k != "" {
			ex.oblige(st, m.props, "joined-before", "the shared channel is looked at or closed behind the end of its senders", pos, m.joined(st, k))
		}
	case "send":
		ex.refute(st, m.props, "sync", "unexpected send", pos)
	}
}

// received: the messages of worker channel number j
func (m *hexMain) received(st *State, fr *Frame, in *ssa.UnOp, t *Term, k func(*State, *Frame, Val)) bool {
	ex, c := m.ex, m.ex.c
	one := c.IntLit(1)
	kind := m.chanKind(in.X.Type())
	if kind == "" {
		return false
	}
	j := g(st, "drained:"+kind)
	if g(st, "got:"+kind).Op != "int" {
		unsup("receive inside an unknown loop")
	}
	first := g(st, "got:"+kind).I.Sign() == 0
	ex.oblige(st, m.props, "in-order", "the channels are emptied in the order of the workers", in.Pos(), c.And(c.Eq(t, m.ch(kind, j)), c.Lt(j, g(st, "spawn:"+kind))))
	if !first {
		st.ghost["got:"+kind], st.ghost["drained:"+kind] = c.IntLit(0), c.Add(j, one)
		k(st, fr, Tuple{m.noMsg(kind), c.F})
		return true
	}
	v := m.message(st, kind, j)
	if in.CommaOk {
		st.ghost["got:"+kind] = one
		k(st, fr, Tuple{v, c.T})
	} else {
		// one message is taken without waiting for the end of the worker
		for f, fk := range m.kinds {
			if fk == kind && !m.sendsLast(f) {
				unsup("%s goes on behind its message, the message alone does not mean it has ended", f.Name())
			}
		}
		st.ghost["drained:"+kind] = c.Add(j, one)
		k(st, fr, v)
	}
	return true
}

var hexWorkers = map[string]string{"parse": "parseRecordRoutine", "sums": "validateChecksumsRoutine", "offsets": "addOffsets", "calc": "calcDataRoutine"}

// worker: the function run by the workers of a kind. A kind is told by what its workers are given.
func (f *hexFmt) worker(w *Worker, kind string) *ssa.Function {
	p := w.pkgs[f.pkg]
	if p == nil {
		return nil
	}
	rec := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		q, ok := s.Elem().Underlying().(*types.Pointer)
		return ok && tname(q.Elem()) == "record"
	}
	kindOf := func(fn *ssa.Function) string {
		var ch types.Type
		list, num, n := "", false, 0
		for _, in := range workIns(fn) {
			switch t := in.t.Underlying().(type) {
			case *types.Chan:
				if tname(t.Elem()) != "error" {
					ch = t.Elem()
					n++
				}
			case *types.Slice:
				list = "other"
				if rec(t) {
					list = "records"
				} else if t.String() == "[]string" {
					list = "lines"
				}
			case *types.Basic:
				num = true
			}
		}
		switch {
		case n > 1:
		case list == "lines" && ch != nil && rec(ch):
			return "parse"
		case list == "records" && ch != nil && tname(ch) == "bool":
			return "sums"
		case list == "records" && ch != nil:
			return "calc"
		case list == "records" && ch == nil && num:
			return "offsets"
		}
		return ""
	}
	found := map[*ssa.Function]bool{}
	var scan func(fn *ssa.Function)
	scan = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					if c := soleCall(g.Call.StaticCallee()); c != nil && c.Pkg == p && kindOf(c) == kind {
						found[c] = true
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			scan(a)
		}
	}
	for _, m := range p.Members {
		if fn, ok := m.(*ssa.Function); ok {
			scan(fn)
		}
	}
	if fn := f.fn(w, hexWorkers[kind]); fn != nil && (len(found) != 1 || found[fn]) {
		return fn
	}
	if len(found) == 1 {
		for fn := range found {
			return fn
		}
	}
	return nil
}

// sendsLast: behind the message of a worker there is nothing but the close of its channel and messages of the log
func (m *hexMain) sendsLast(f *ssa.Function) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var quiet func(b *ssa.BasicBlock, from int) bool
	quiet = func(b *ssa.BasicBlock, from int) bool {
		if from == 0 {
			if seen[b] {
				return true
			}
			seen[b] = true
		}
		for _, in := range b.Instrs[from:] {
			switch x := in.(type) {
			case *ssa.Return, *ssa.RunDefers, *ssa.Jump, *ssa.If, *ssa.DebugRef, *ssa.BinOp, *ssa.Phi, *ssa.UnOp:
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "close" || bi.Name() == "len") {
					continue
				}
				if cl := x.Call.StaticCallee(); cl != nil && cl.Pkg != nil && strings.HasSuffix(cl.Pkg.Pkg.Path(), "zerolog/log") {
					continue
				}
				return false
			default:
				return false
			}
		}
		for _, s := range b.Succs {
			if !quiet(s, 0) {
				return false
			}
		}
		return true
	}
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Send:
				if m.chanKind(x.Chan.Type()) != "" && !quiet(b, i+1) {
					return false
				}
			case *ssa.Defer:
				if bi, ok := x.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "close" {
					return false
				}
			}
		}
	}
	return true
}

func (m *hexMain) msgSort(kind string) *Sort {
	if kind == "parse" {
		return m.RS.Sort
	}
	return m.DS.Sort
}

func (m *hexMain) noMsg(kind string) *Term {
	if m.tk != nil {
		return m.ex.zero(m.tk.part)
	}
	return m.ex.c.Empty(m.msgSort(kind))
}

func (m *hexMain) message(st *State, kind string, j *Term) *Term {
	ex, c := m.ex, m.ex.c
	if m.tk != nil {
		return m.tk.message(m, st, j)
	}
	if m.mode == "badline" {
		v := c.Fresh("msg", m.msgSort(kind))
		return v
	}
	a, b := m.cv(kind, j), m.cv(kind, c.Add(j, c.IntLit(1)))
	z := c.IntLit(0)
	var v, x, y *Term
	if kind == "parse" {
		st.assume(m.mono(ex.nb, a, b, c.Len(m.L)))
		x, y = ex.nb(a), ex.nb(b)
		v = c.SeqSub(m.RS, x, y)
		st.assume(c.Implies(c.And(c.Le(z, x), c.Le(x, y), c.Le(y, c.Len(m.RS))),
			c.Eq(c.Cat(c.SeqSub(m.RS, z, x), v), c.SeqSub(m.RS, z, y))))
		st.assume(c.Implies(c.And(c.Le(z, x), c.Le(x, y), c.Le(y, c.Len(m.RS))), c.Eq(c.Len(v), c.Sub(y, x))))
	} else {
		st.assume(m.mono(m.base, a, b, c.Len(m.RS)))
		x, y = m.base(a), m.base(b)
		v = c.SeqSub(m.DS, x, y)
		st.assume(c.Implies(c.And(c.Le(z, x), c.Le(x, y), c.Le(y, c.Len(m.DS))), c.Eq(c.Len(v), c.Sub(y, x))))
	}
	whole := m.RS
	if kind != "parse" {
		whole = m.DS
	}
	st.assume(ex.every(false, z, c.Sub(y, x), func(i *Term) (*Term, *Term) { return c.Eq(c.At(v, i), c.At(whole, c.Add(x, i))), c.At(v, i) }))
	return v
}

func (m *hexMain) chanKind(t types.Type) string {
	ct, ok := t.Underlying().(*types.Chan)
	if !ok {
		return ""
	}
	if m.tk != nil {
		if types.Identical(ct.Elem(), m.tk.part) {
			return "parse"
		}
		return ""
	}
	sl, ok := ct.Elem().Underlying().(*types.Slice)
	if !ok {
		return ""
	}
	switch tname(sl.Elem()) {
	case "*record":
		return "parse"
	case "dataByte":
		return "calc"
	}
	return ""
}

// ---------------------------------------------------------------- loops

func (m *hexMain) loop(lr *LoopRun, pos token.Pos) *LoopSpec {
	ex, c := m.ex, m.ex.c
	z, one := c.IntLit(0), c.IntLit(1)
	cp := &loopCap{}
	has := func(pre string) string {
		for _, k := range hexKinds {
			if lr.mod["ghost:"+pre+k] {
				return k
			}
		}
		return ""
	}
	// f at round n in a state
	at := func(t *Term, st *State, fr *Frame, n *Term) *Term {
		s := map[*Term]*Term{cp.n: n}
		for lf, v := range cp.leaf {
			if w := lr.get(st, fr, lf); w != nil && lf[:4] != "map:" {
				s[v] = w
			}
		}
		return c.Subst(t, s)
	}
	inv := func(st *State, fr *Frame, n *Term, goal bool, q func(string, *Term)) {
		entryG := func(s string) *Term { return lr.entryS.norm(lr.entryS.ghost[s].(*Term)) }
		counter := func(s string) *Term {
			v := c.Add(entryG(s), n)
			q(s, c.Eq(g(st, s), v))
			if !goal {
				st.ghost[s] = v
			}
			return v
		}
		for _, lf := range sortLeaves(lr.mod) {
			if strings.HasPrefix(lf, "ghost:mk:") || strings.HasPrefix(lf, "ghost:wg:") {
				counter(lf[6:])
			}
		}
		if cp.cond != nil {
			q("in-range", c.Implies(c.Le(one, n), c.Subst(cp.cond, map[*Term]*Term{cp.n: c.Sub(n, one)})))
		}
		if k := has("mk:"); k != "" {
			for _, lf := range lr.accLeaves(st, fr, c.SeqOf(c.Int)) {
				t := lr.leafType(lf)
				sl, ok := t.(*types.Slice)
				if t == nil || !ok || m.chanKind(sl.Elem()) != k {
					continue
				}
				v := lr.get(st, fr, lf)
				e := c.Len(lr.get(lr.entryS, lr.entryF, lf))
				if lr.grows(lf) {
					e = c.Add(e, n)
				}
				q("channel-list-length", c.Eq(c.Len(v), e))
				q("channel-list", ex.every(goal, z, c.Add(entryG("mk:"+k), n), func(j *Term) (*Term, *Term) { return c.Eq(c.At(v, j), m.ch(k, j)), c.At(v, j) }))
			}
		}
		if k := has("spawn:"); k != "" {
			s := counter("spawn:" + k)
			if k == "offsets" {
				if lr.mod["ghost:o0"] {
					q("from-first", c.Implies(c.Le(one, n), g(st, "o0")))
				}
			} else {
				if cp.cond == nil {
					unsup("loop condition of the loop that starts the %s workers", k)
				}
				cond := at(cp.cond, st, fr, n)
				if cp.lo != nil {
					lo := at(cp.lo, st, fr, n)
					m.divFacts(st, lo, n)
					q("cover-next", c.Implies(cond, c.Eq(m.cv(k, s), lo)))
				}
				q("cover-all", c.Implies(c.Not(cond), c.Eq(m.cv(k, s), m.total(k))))
				q("cover-range", c.And(c.Le(z, m.cv(k, s)), c.Le(m.cv(k, s), m.total(k))))
				q("cover-order", ex.every(goal, z, s, func(j *Term) (*Term, *Term) {
					return c.And(c.Le(z, m.cv(k, j)), c.Le(m.cv(k, j), m.cv(k, c.Add(j, one))), c.Le(m.cv(k, c.Add(j, one)), m.total(k))), m.cv(k, j)
				}))
			}
			for _, lf := range sortLeaves(lr.mod) {
				if !strings.HasPrefix(lf, "chan:") || !strings.HasSuffix(lf, ":sent") {
					continue
				}
				v := lr.get(st, fr, lf)
				q("message-count", c.Le(c.Len(v), s))
				q("message-sent", c.Implies(c.Lt(m.bad, m.cv(k, s)), c.Le(one, c.Len(v))))
				q("messages", m.complaints(v, goal))
			}
			if m.tk != nil {
				m.tk.spawnInv(m, st, s, q)
			}
			return
		}
		if k := has("drained:"); k != "" {
			d := counter("drained:" + k)
			q("drained-range", c.Le(d, g(st, "spawn:"+k)))
			if m.mode == "badline" || m.tk != nil {
				return
			}
			at := m.cv(k, d)
			if k == "parse" {
				x := ex.nb(at)
				st.assume(m.mono(ex.nb, z, at, c.Len(m.L)))
				m.lists(lr, st, fr, x, goal, q)
			} else {
				x := m.base(at)
				st.assume(m.mono(m.base, z, at, c.Len(m.RS)))
				m.images(lr, st, fr, x, goal, q)
			}
			return
		}
		if m.mode == "badline" || m.tk != nil {
			return
		}
		// a loop over the bytes or the records of one worker
		for _, lf := range sortLeaves(lr.mod) {
			if strings.HasPrefix(lf, "map:") {
				e := lr.entryS.norm(lr.get(lr.entryS, lr.entryF, lf))
				x := n
				if e.Op == "app:hx.image" {
					x = c.Add(e.Args[0], n)
				} else if ex.dry == 0 && e != ex.emptyMap(m.mt) {
					unsup("loop that changes the image (%s)", short(e))
				}
				if goal {
					st.assume(m.hsDef(c.Sub(x, one)))
				}
				m.images(lr, st, fr, x, goal, q)
			}
		}
		for _, lf := range lr.accLeaves(st, fr, m.RS.Sort) {
			if t, ok := lr.leafType(lf).(*types.Slice); ok && tname(t.Elem()) == "*record" {
				e := lr.entryS.norm(lr.get(lr.entryS, lr.entryF, lf))
				if e.Op != "seq.sub" || e.Args[0] != m.RS {
					continue
				}
				x := c.Add(e.Args[2], n)
				if goal {
					y := c.Sub(x, one)
					st.assume(c.Implies(c.And(c.Le(z, y), c.Lt(y, c.Len(m.RS))), c.Eq(c.Cat(c.SeqSub(m.RS, z, y), c.Unit(c.At(m.RS, y))), c.SeqSub(m.RS, z, x))))
				}
				m.lists(lr, st, fr, x, goal, q)
			}
		}
	}
	return &LoopSpec{
		Havoc: func(st *State, fr *Frame) {
			st.ghost["spec:cap"] = cp
			if ph, _, _ := lr.stepper(); ph == nil {
				// a loop that only receives: nothing has been received yet
				for lf := range lr.mod {
					if strings.HasSuffix(lf, ":rcvd") {
						st.assume(c.Eq(lr.get(st, fr, lf), lr.get(lr.entryS, lr.entryF, lf)))
					}
				}
				return
			}
			lo := cp.lo
			if lo != nil { // keep the captured term, expressed in the new variables
				old := *cp
				n := lr.rounds(st, fr, true)
				s := map[*Term]*Term{old.n: n}
				for lf, v := range old.leaf {
					if w := lr.get(st, fr, lf); w != nil {
						s[v] = w
					}
				}
				cp.lo = c.Subst(lo, s)
				cp.n = n
			} else {
				cp.n = lr.rounds(st, fr, true)
			}
			cp.leaf = map[string]*Term{}
			for lf := range lr.mod {
				if v := lr.get(st, fr, lf); v != nil && v.Op == "var" {
					cp.leaf[lf] = v
				}
			}
			cp.cond = ex.headerCond(st, fr, lr.l.header)
			inv(st, fr, cp.n, false, func(_ string, t *Term) { st.assume(t) })
		},
		Arrive: func(st *State, fr *Frame, back bool) {
			if ph, _, _ := lr.stepper(); ph == nil {
				for lf := range lr.mod {
					if strings.HasSuffix(lf, ":rcvd") {
						ex.obligeOnly(st, m.props, "invariant:first-message", "the first complaint ends the reading", pos, c.Eq(lr.get(st, fr, lf), lr.get(lr.entryS, lr.entryF, lf)))
					}
				}
				return
			}
			inv(st, fr, lr.rounds(st, fr, false), true, func(name string, t *Term) {
				ex.obligeOnly(st, m.props, "invariant:"+name, "loop of parseHex", pos, t)
			})
		},
	}
}

// lists: the records collected so far are the first x of the file
func (m *hexMain) lists(lr *LoopRun, st *State, fr *Frame, x *Term, goal bool, q func(string, *Term)) {
	c := m.ex.c
	z := c.IntLit(0)
	for _, lf := range lr.accLeaves(st, fr, m.RS.Sort) {
		t, ok := lr.leafType(lf).(*types.Slice)
		if !ok || tname(t.Elem()) != "*record" || !lr.grows(lf) {
			continue
		}
		v := c.SeqSub(m.RS, z, x)
		if goal {
			st.assume(c.Eq(c.SeqSub(m.RS, z, c.Add(z)), c.Empty(m.RS.Sort)))
			st.assume(c.Implies(c.Eq(x, z), c.Eq(v, c.Empty(m.RS.Sort))))
			q("records", c.Eq(lr.get(st, fr, lf), v))
			continue
		}
		lr.set(st, fr, lf, v)
		st.assume(c.Implies(c.And(c.Le(z, x), c.Le(x, c.Len(m.RS))), c.Eq(c.Len(v), x)))
	}
}

// images: the image holds the first x bytes
func (m *hexMain) images(lr *LoopRun, st *State, fr *Frame, x *Term, goal bool, q func(string, *Term)) {
	c := m.ex.c
	for _, lf := range sortLeaves(lr.mod) {
		if !strings.HasPrefix(lf, "map:") || lr.get(st, fr, lf).Sort != m.ex.mapSort(m.mt) {
			continue
		}
		if goal {
			q("image", c.Eq(lr.get(st, fr, lf), m.hs(x)))
		} else {
			lr.set(st, fr, lf, m.hs(x))
			if m.mode == "valid" {
				st.assume(c.Implies(c.And(c.Le(c.IntLit(0), x), c.Lt(x, c.Len(m.DS))), c.Not(m.col(x))))
			}
		}
		if m.mode == "collision" {
			q("not-yet", c.Le(x, m.bad))
		}
	}
}

// divFacts: lemma.hex: chunk-arithmetic for every quotient in the term
func (m *hexMain) divFacts(st *State, t, n *Term) {
	c := m.ex.c
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "div" && t.Args[1].Op != "int" {
			st.assume(chunkFacts(c, t.Args[0], t.Args[1], t, n))
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
}

// chunkFacts: d = a/b, 0 <= a, 1 <= b, 0 <= n
func chunkFacts(c *Ctx, a, b, d, n *Term) *Term {
	z := c.IntLit(0)
	db, dn := c.Mul(d, b), c.Mul(d, n)
	return c.Implies(c.And(c.Le(z, a), c.Lt(z, b), c.Le(z, n)), c.And(c.Le(z, d), c.Le(db, a), c.Lt(a, c.Add(db, b)), c.Le(z, dn),
		c.Implies(c.Lt(n, b), c.Le(c.Add(dn, d), db)), c.Implies(c.Eq(n, z), c.Eq(dn, z))))
}

func (f *hexFmt) parseHexContract(wk *Worker, mode string, props []string) *Contract {
	fn := f.fn(wk, "parseHex")
	if fn == nil {
		return nil
	}
	var m *hexMain
	ct := &Contract{Fn: fn, Name: f.pkg + ".parseHex:" + mode, Props: props, Safe: props}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		m = &hexMain{hexWorld: f.world(ex), mode: mode, props: props, kinds: map[*ssa.Function]string{}, chK: map[int]string{}, wgK: map[int]string{}}
		for _, k := range []string{"parse", "sums", "offsets", "calc"} {
			if w := f.worker(wk, k); w != nil {
				m.kinds[w] = k
			}
		}
		m.setup(st, fr, fn)
	}
	ct.Loop = func(ex *Ex, lr *LoopRun) *LoopSpec { return m.loop(lr, fn.Pos()) }
	ct.WorkHook = func(ex *Ex, st *State, fr *Frame, callee *ssa.Function, args []Val, in *ssa.Go) bool {
		k := m.kinds[callee]
		if k == "" {
			return false
		}
		m.started(st, fr, k, callee, args, in.Pos())
		return true
	}
	ct.OnEvent = func(ex *Ex, st *State, kind string, args ...Val) { m.event(st, kind, args, fn.Pos()) }
	ct.OnAccess = func(ex *Ex, st *State, a *Addr, write bool, pos token.Pos) {
		if a.HT == f.recSort(ex) {
			ex.refute(st, props, "records-untouched", "the records belong to the workers", pos)
		}
	}
	ct.ChanHook = func(ex *Ex, st *State, fr *Frame, in *ssa.MakeChan) Val {
		c := ex.c
		if k := m.chanKind(in.Type()); k != "" {
			n := g(st, "mk:"+k)
			st.ghost["mk:"+k] = c.Add(n, c.IntLit(1))
			return m.ch(k, n)
		}
		v := ex.makeChan(st, in.Type().Underlying().(*types.Chan).Elem(), in.Name(), in)
		st.chans[v.(*ChanV).ID].Cap = st.term(ex.val(st, fr, in.Size))
		return v
	}
	ct.RecvHook = func(ex *Ex, st *State, fr *Frame, in *ssa.UnOp, t *Term, k func(*State, *Frame, Val)) bool {
		return m.received(st, fr, in, t, k)
	}
	ct.RecvPeek = func(ex *Ex, st *State, t *Term, in *ssa.UnOp) Val {
		k := m.chanKind(in.X.Type())
		if k == "" || g(st, "got:"+k).Op != "int" {
			return nil
		}
		return Tuple{m.noMsg(k), ex.c.BoolLit(g(st, "got:"+k).I.Sign() == 0)}
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		bad := isErr(c, st, rets[1])
		if mode != "valid" {
			ex.oblige(st, props, "rejected", map[string]string{"badline": "a file with a line that is no record is rejected", "badsum": "a file with a wrong byte sum is rejected", "collision": "a file with two values for one address is rejected"}[mode], fn.Pos(), bad)
			return
		}
		ex.oblige(st, props, "accepted", "a valid file is read without error", fn.Pos(), c.Not(bad))
		ex.oblige(st, props, "image", "the image holds all bytes of the file and nothing else", fn.Pos(), c.Eq(ex.mapContent(st, st.term(rets[0]), m.mt), m.hs(c.Len(m.DS))))
	}
	return ct
}

// fileContract: ParseFromFile splits the text of the file into lines and hands on what parseHex makes of them
func (f *hexFmt) fileContract(wk *Worker) *Contract {
	both := []string{f.pv, f.pe}
	fn, ph := f.fn(wk, "ParseFromFile"), f.fn(wk, "parseHex")
	if fn == nil || ph == nil {
		return nil
	}
	var s *cspec
	bad := func(ex *Ex, l *Term) *Term { return ex.c.App("hx.parse.err", ex.c.Bool, l) }
	img := func(ex *Ex, l *Term) *Term { return ex.c.App("hx.parse", ex.c.Int, l) }
	ct := &Contract{Fn: fn, Props: both, Safe: both}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		s = ex.symbolic(st, fr, fn)
		if !s.need("string") || len(ph.Params) != 1 {
			unsup("signature of %s", fn.Name())
		}
		ex.contract[ph] = &Contract{Fn: ph, Apply: func(ex *Ex, st *State, fr *Frame, args []Val, pos token.Pos, k K) {
			c := ex.c
			l := st.norm(st.seqOf(args[0]))
			ex.convFork(st, bad(ex, l), func(s2 *State, isBad bool) {
				if isBad {
					k(s2, []Val{c.Fresh("partial", c.Int), c.ErrI})
					return
				}
				k(s2, []Val{img(ex, l), c.NilI})
			})
		}}
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		p := s.get("string")
		text := c.App("bytes2s:Seq<Int>", c.Str, c.App("readfile", c.SeqOf(c.Int), p))
		sp := func(sep string) *Term { return c.App("strings.Split", c.SeqOf(c.Str), text, c.StrLit(sep)) }
		for _, sep := range []string{"\n", "\r\n"} {
			st.assume(c.Eq(c.Len(sp(sep)), c.Add(ex.strCount(st, text, c.StrLit(sep)), c.IntLit(1))))
		}
		lines := c.Ite(c.Eq(c.Len(sp("\r\n")), c.IntLit(1)), sp("\n"), sp("\r\n"))
		noFile := c.App("readfile.err", c.Bool, p)
		e := isErr(c, st, rets[1])
		ex.oblige(st, []string{f.pe}, "rejected", "an error if the file cannot be read or its lines are rejected", fn.Pos(), c.Implies(c.Or(noFile, bad(ex, lines)), e))
		ex.oblige(st, both, "accepted", "no other error", fn.Pos(), c.Implies(e, c.Or(noFile, bad(ex, lines))))
		ex.oblige(st, []string{f.pv}, "image", "the image of all lines of the file", fn.Pos(), c.Or(e, c.Eq(st.term(rets[0]), img(ex, lines))))
	}
	return ct
}
