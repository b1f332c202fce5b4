package main

// Contracts of the workers of the hex readers and of the function that starts and joins them.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// hexWorld: the file as a whole. RS: the records in the order of their lines. entry(q): byte q of the data.
type hexWorld struct {
	f   *hexFmt
	ex  *Ex
	RS  *Term
	off bool // the offsets have been propagated
}

func (f *hexFmt) world(ex *Ex) *hexWorld {
	return &hexWorld{f: f, ex: ex, RS: ex.c.Var("RS", ex.c.SeqOf(ex.c.Int))}
}

// base(p): number of data bytes in front of record p
func (w *hexWorld) base(p *Term) *Term { return w.ex.c.App("hx.base", w.ex.c.Int, p) }
func (w *hexWorld) baseDef(h, p *Term) *Term {
	c := w.ex.c
	r := c.Select(h, c.At(w.RS, p))
	n := c.Ite(w.f.isData(w.ex, w.ex.fld(r, "recordType")), c.Len(w.ex.fld(r, "data")), c.IntLit(0))
	return c.Eq(w.base(c.Add(p, c.IntLit(1))), c.Add(w.base(p), n))
}
func (w *hexWorld) entry(q *Term) *Term {
	return w.ex.c.App("hx.entry:"+w.f.pkg, w.f.dataSort(w.ex).Elem, q)
}

// entryDef: byte j of record p is entry base(p)+j
func (w *hexWorld) entryDef(h, p, q *Term) *Term {
	c, ex := w.ex.c, w.ex
	r := c.Select(h, c.At(w.RS, p))
	j := c.Sub(q, w.base(p))
	e := w.entry(q)
	in := c.And(w.f.isData(ex, ex.fld(r, "recordType")), c.Le(c.IntLit(0), j), c.Lt(j, c.Len(ex.fld(r, "data"))))
	return c.Implies(in, c.And(c.Eq(ex.fld(e, "address"), w.f.entryAddr(ex, r, j)), c.Eq(ex.fld(e, "value"), ex.hexval(c.At(ex.fld(r, "data"), j)))))
}

type workerArgs struct{ wg, ch, list, num int }

func rolesOf(fn *ssa.Function) *workerArgs {
	a := &workerArgs{-1, -1, -1, -1}
	for i, p := range workIns(fn) {
		switch t := p.t.Underlying().(type) {
		case *types.Chan:
			a.ch = i
		case *types.Slice:
			a.list = i
		case *types.Pointer:
			if tname(t.Elem()) == "WaitGroup" {
				a.wg = i
			}
		case *types.Basic:
			a.num = i
		}
	}
	return a
}

// workerSetup: a worker gets the records [lo,hi) and its own view of wait group and channel
func (w *hexWorld) workerSetup(st *State, fr *Frame, fn *ssa.Function, a *workerArgs) (lo, hi *Term, ch int) {
	ex, c := w.ex, w.ex.c
	lo, hi = c.Var("lo", c.Int), c.Var("hi", c.Int)
	st.assume(c.And(c.Le(c.IntLit(0), lo), c.Le(lo, hi), c.Le(hi, c.Len(w.RS))))
	ls := c.SeqSub(w.RS, lo, hi)
	st.assume(c.Eq(c.Len(ls), c.Sub(hi, lo)))
	ins := workIns(fn)
	ins[a.list].give(ex, st, fr, ls)
	if a.ch >= 0 {
		ch = ex.chanParam(st, fr, ins[a.ch])
	}
	if a.wg >= 0 {
		ins[a.wg].give(ex, st, fr, st.newObj(ins[a.wg].t.Underlying().(*types.Pointer).Elem(), c.IntLit(0), "wg", nil))
		st.ghost["done"] = c.IntLit(0)
	}
	p := c.Fresh("p", c.Int)
	st.assume(c.Forall([]*Term{p}, c.Implies(c.And(c.Le(c.IntLit(0), p), c.Lt(p, c.Len(w.RS))), c.Ne(c.At(w.RS, p), c.IntLit(0))), c.At(w.RS, p)))
	return
}

// onSync counts Done and refuses anything after it
func (w *hexWorld) onSync(props []string, fn *ssa.Function) func(ex *Ex, st *State, kind string, args ...Val) {
	return func(ex *Ex, st *State, kind string, args ...Val) {
		d, _ := st.ghost["done"].(*Term)
		if d == nil {
			return
		}
		switch kind {
		case "(*sync.WaitGroup).Done":
			st.ghost["done"] = ex.c.Add(d, ex.c.IntLit(1))
		case "send", "close":
			ex.obligeOnly(st, props, "done-last", "nothing is sent behind Done", fn.Pos(), ex.c.Eq(d, ex.c.IntLit(0)))
		default:
			ex.refute(st, props, "sync", "unexpected synchronisation "+kind, fn.Pos())
		}
	}
}

func (w *hexWorld) oneDone(st *State, props []string, fn *ssa.Function) {
	d, _ := st.ghost["done"].(*Term)
	w.ex.oblige(st, props, "done-once", "the worker signals its end exactly once", fn.Pos(), w.ex.c.Eq(d, w.ex.c.IntLit(1)))
}

// ---------------------------------------------------------------- checksum worker

// csok(p): record p has a right byte sum (on the fields that do not change any more)
func (w *hexWorld) csok(h, p *Term) *Term {
	return w.f.cs(w.ex, w.ex.c.Select(h, w.ex.c.At(w.RS, p)))
}

func (f *hexFmt) sumRoutineContract(wk *Worker) *Contract {
	props := []string{f.pe}
	fn := f.worker(wk, "sums")
	if fn == nil {
		return nil
	}
	var w *hexWorld
	var lo, hi, h *Term
	var ch int
	ct := &Contract{Fn: fn, Props: props, Safe: props}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		c := ex.c
		w = f.world(ex)
		a := rolesOf(fn)
		if a.wg < 0 || a.ch < 0 || a.list < 0 {
			unsup("signature of %s", fn.Name())
		}
		lo, hi, ch = w.workerSetup(st, fr, fn, a)
		h = st.heap(f.recSort(ex))
		p := c.Fresh("p", c.Int)
		st.assume(c.Forall([]*Term{p}, c.Implies(c.And(c.Le(c.IntLit(0), p), c.Lt(p, c.Len(w.RS))),
			c.Eq(c.SLen(ex.fld(c.Select(h, c.At(w.RS, p)), "addressField")), c.IntLit(f.addrLen()))), c.At(w.RS, p)))
		ct.OnEvent = w.onSync(props, fn)
		if f.ihex {
			ex.obs = append(ex.obs, factOblig(f.pkg+"."+fn.Name(), "no-offset-access", "the checksum worker does not look at the offset another worker changes", []string{f.pe, f.ps}, !ex.touchesField(fn, "record", "offset")))
		}
	}
	ct.Loop = func(ex *Ex, lr *LoopRun) *LoopSpec {
		c := ex.c
		return ex.loopInv(lr, props, "loop over the records", fn.Pos(), func(st *State, fr *Frame, n *Term, goal bool, g func(string, *Term)) {
			k := c.Add(lo, n)
			g("range", c.Le(n, c.Sub(hi, lo)))
			g("all-valid", ex.every(goal, lo, k, func(j *Term) (*Term, *Term) { return w.csok(h, j), c.At(w.RS, j) }))
			g("silent", c.Eq(c.Len(st.chans[ch].Sent), c.IntLit(0)))
			if !goal {
				ls := c.SeqSub(w.RS, lo, hi)
				st.assume(c.Implies(c.Lt(n, c.Sub(hi, lo)), c.Eq(c.At(ls, n), c.At(w.RS, k))))
			}
		})
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		cs := st.chans[ch]
		w.oneDone(st, props, fn)
		ex.oblige(st, props, "shared-open", "the shared channel is not closed by a worker", fn.Pos(), c.BoolLit(!cs.Closed))
		ex.oblige(st, props, "one-message", "at most one message", fn.Pos(), c.Le(c.Len(cs.Sent), c.IntLit(1)))
		x := c.Fresh("x", c.Int)
		ex.oblige(st, props, "all-checked", "silent only if every record is valid", fn.Pos(), c.Or(c.Ne(c.Len(cs.Sent), c.IntLit(0)), c.Not(c.And(c.Le(lo, x), c.Lt(x, hi))), w.csok(h, x)))
		ex.oblige(st, props, "message", "what is sent is false", fn.Pos(), c.Or(c.Eq(c.Len(cs.Sent), c.IntLit(0)), c.Not(c.At(cs.Sent, c.IntLit(0)))))
		all := ex.every(false, lo, hi, func(j *Term) (*Term, *Term) { return w.csok(h, j), c.At(w.RS, j) })
		ex.oblige(st, props, "justified", "a message only if a record is not valid", fn.Pos(), c.Or(c.Eq(c.Len(cs.Sent), c.IntLit(0)), c.Not(all)))
		ex.oblige(st, props, "frame", "no record is changed", fn.Pos(), c.Eq(st.heap(f.recSort(ex)), h))
	}
	return ct
}

// touchesField: the function or a function of its package it calls takes the address of the field or copies the struct
func (ex *Ex) touchesField(fn *ssa.Function, typ, field string) bool {
	seen := map[*ssa.Function]bool{}
	found := false
	isT := func(t types.Type) bool {
		n, ok := t.(*types.Named)
		return ok && n.Obj().Name() == typ && n.Obj().Pkg() == fn.Pkg.Pkg
	}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		if seen[f] || f.Pkg != fn.Pkg {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					pt := x.X.Type().Underlying().(*types.Pointer).Elem()
					if isT(pt) && pt.Underlying().(*types.Struct).Field(x.Field).Name() == field {
						found = true
					}
				case *ssa.UnOp:
					if isT(x.Type()) {
						found = true
					}
				case ssa.CallInstruction:
					if g := x.Common().StaticCallee(); g != nil {
						scan(g)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			scan(a)
		}
	}
	scan(fn)
	return found
}

// ---------------------------------------------------------------- data worker

func (f *hexFmt) calcRoutineContract(wk *Worker) *Contract {
	props := []string{f.pv, "P06"}
	fn := f.worker(wk, "calc")
	if fn == nil {
		return nil
	}
	var w *hexWorld
	var lo, hi, h *Term
	var ch int
	ct := &Contract{Fn: fn, Props: props, Safe: props}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		c := ex.c
		w = f.world(ex)
		a := rolesOf(fn)
		if a.ch < 0 || a.list < 0 || a.wg >= 0 {
			unsup("signature of %s", fn.Name())
		}
		lo, hi, ch = w.workerSetup(st, fr, fn, a)
		h = st.heap(f.recSort(ex))
		p := c.Fresh("p", c.Int)
		st.assume(c.Forall([]*Term{p}, c.Implies(c.And(c.Le(c.IntLit(0), p), c.Lt(p, c.Len(w.RS)), f.isData(ex, ex.fld(c.Select(h, c.At(w.RS, p)), "recordType"))),
			f.entok(ex, c.Select(h, c.At(w.RS, p)))), c.At(w.RS, p)))
	}
	content := func(ex *Ex, v, q *Term) *Term {
		return ex.c.Eq(ex.c.At(v, q), w.entry(ex.c.Add(w.base(lo), q)))
	}
	ct.Loop = func(ex *Ex, lr *LoopRun) *LoopSpec {
		c := ex.c
		return ex.loopInv(lr, props, "loop over the records", fn.Pos(), func(st *State, fr *Frame, n *Term, goal bool, g func(string, *Term)) {
			k := c.Add(lo, n)
			g("range", c.Le(n, c.Sub(hi, lo)))
			g("silent", c.Eq(c.Len(st.chans[ch].Sent), c.IntLit(0)))
			if goal {
				st.assume(w.baseDef(h, c.Sub(k, c.IntLit(1))))
			} else {
				ls := c.SeqSub(w.RS, lo, hi)
				st.assume(c.Implies(c.Lt(n, c.Sub(hi, lo)), c.Eq(c.At(ls, n), c.At(w.RS, k))))
			}
			for _, lf := range lr.accLeaves(st, fr, f.dataSort(ex)) {
				if !lr.grows(lf) {
					continue
				}
				v := lr.get(st, fr, lf)
				g("length", c.Eq(c.Len(v), c.Sub(w.base(k), w.base(lo))))
				g("content", ex.every(goal, c.IntLit(0), c.Len(v), func(q *Term) (*Term, *Term) {
					if goal {
						st.assume(w.entryDef(h, c.Sub(k, c.IntLit(1)), c.Add(w.base(lo), q)))
					}
					return content(ex, v, q), c.At(v, q)
				}))
			}
		})
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		cs := st.chans[ch]
		ex.oblige(st, props, "closed", "the result channel is closed", fn.Pos(), c.BoolLit(cs.Closed))
		ex.oblige(st, props, "one-message", "exactly one list of bytes is sent", fn.Pos(), c.Eq(c.Len(cs.Sent), c.IntLit(1)))
		v := c.At(cs.Sent, c.IntLit(0))
		q := c.Fresh("q", c.Int)
		ex.oblige(st, props, "length", "as many bytes as the records hold", fn.Pos(), c.Eq(c.Len(v), c.Sub(w.base(hi), w.base(lo))))
		ex.oblige(st, props, "content", "byte q is the entry of its record and position", fn.Pos(), c.Implies(c.And(c.Le(c.IntLit(0), q), c.Lt(q, c.Len(v))), content(ex, v, q)))
		ex.oblige(st, props, "frame", "no record is changed", fn.Pos(), c.Eq(st.heap(f.recSort(ex)), h))
	}
	return ct
}

// grows: the leaf is a list that is appended to (other variables of the same type are not constrained)
func (lr *LoopRun) grows(lf string) bool {
	for _, p := range lr.phis() {
		if "phi:"+p.Name() != lf {
			continue
		}
		seen := map[ssa.Value]bool{}
		var from func(v ssa.Value) bool
		from = func(v ssa.Value) bool {
			if seen[v] {
				return false
			}
			seen[v] = true
			switch x := v.(type) {
			case *ssa.Phi:
				for _, e := range x.Edges {
					if from(e) {
						return true
					}
				}
			case *ssa.Call:
				b, ok := x.Call.Value.(*ssa.Builtin)
				return ok && b.Name() == "append"
			}
			return false
		}
		for i, pr := range lr.l.header.Preds {
			if lr.l.blocks[pr] && from(p.Edges[i]) {
				return true
			}
		}
		return false
	}
	return true
}

// ---------------------------------------------------------------- propagation of the upper address

// right(p): upper address in force at record p; seen(s,p): an extended linear address record lies in [s,p)
func (w *hexWorld) right(p *Term) *Term { return w.ex.c.App("hx.right", w.ex.c.Str, p) }
func (w *hexWorld) seen(s, p *Term) *Term {
	return w.ex.c.App("hx.seen", w.ex.c.Bool, s, p)
}
func (w *hexWorld) recAt(h, p *Term) *Term { return w.ex.c.Select(h, w.ex.c.At(w.RS, p)) }
func (w *hexWorld) typeAt(h, p *Term, tok string) *Term {
	return w.ex.c.Eq(w.ex.fld(w.recAt(h, p), "recordType"), w.ex.c.StrLit(tok))
}
func (w *hexWorld) rightDef(h, p *Term) *Term {
	c := w.ex.c
	return c.Eq(w.right(c.Add(p, c.IntLit(1))), c.Ite(w.typeAt(h, p, "04"), w.ex.fld(w.recAt(h, p), "offset"), w.right(p)))
}
func (w *hexWorld) seenDef(h, s, p *Term) *Term {
	c := w.ex.c
	return c.Eq(w.seen(s, c.Add(p, c.IntLit(1))), c.Or(w.seen(s, p), w.typeAt(h, p, "04")))
}

// offsetsContract: lock invariant of a record: the offset of a data record is "0000" or right, all else is constant.
// A worker that starts at s visits s, s+1, ... in order, leaves every data record it visits behind an extended
// linear address with the right offset, every other record as it was, and ends behind the last record or at a
// data record that had the right offset, other than the initial one, when the worker locked it.
func (f *hexFmt) offsetsContract(wk *Worker) *Contract {
	props := []string{f.pv, f.ps}
	fn := f.worker(wk, "offsets")
	if fn == nil {
		return nil
	}
	var w *hexWorld
	var s, h *Term
	ct := &Contract{Fn: fn, Props: props, Safe: props}
	zero := func(ex *Ex) *Term { return ex.c.StrLit("0000") }
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		c := ex.c
		w = f.world(ex)
		a := rolesOf(fn)
		if a.wg < 0 || a.list < 0 || a.num < 0 || len(workIns(fn)) != 3 {
			unsup("signature of %s", fn.Name())
		}
		s = c.Var("start", c.Int)
		st.assume(c.And(c.Le(c.IntLit(0), s), c.Le(s, c.Len(w.RS))))
		ins := workIns(fn)
		ins[a.num].give(ex, st, fr, s)
		ins[a.list].give(ex, st, fr, w.RS)
		ins[a.wg].give(ex, st, fr, st.newObj(ins[a.wg].t.Underlying().(*types.Pointer).Elem(), c.IntLit(0), "wg", nil))
		h = st.heap(f.recSort(ex))
		p, q := c.Fresh("p", c.Int), c.Fresh("q", c.Int)
		st.assume(c.Forall([]*Term{p}, c.Implies(c.And(c.Le(c.IntLit(0), p), c.Lt(p, c.Len(w.RS))), c.Ne(c.At(w.RS, p), c.IntLit(0))), c.At(w.RS, p)))
		st.assume(c.Forall([]*Term{p, q}, c.Implies(c.And(c.Le(c.IntLit(0), p), c.Lt(p, q), c.Lt(q, c.Len(w.RS))), c.Ne(c.At(w.RS, p), c.At(w.RS, q))), c.App("multipat", c.Bool, c.At(w.RS, p), c.At(w.RS, q))))
		st.assume(c.Not(w.seen(s, s)))
		st.ghost["done"], st.ghost["visited"], st.ghost["held"] = c.IntLit(0), c.IntLit(0), c.F
		st.ghost["lockval"] = zero(ex)
	}
	sort := func(ex *Ex) *Sort { return f.recSort(ex) }
	offs := func(ex *Ex) int { return ex.c.FieldIdx(sort(ex), "offset") }
	ghost := func(st *State, n string) *Term { return st.ghost[n].(*Term) }
	ct.OnAccess = func(ex *Ex, st *State, a *Addr, write bool, pos token.Pos) {
		c := ex.c
		if a.HT != sort(ex) {
			return
		}
		if !write && len(a.Path) > 0 && a.Path[0].F != offs(ex) {
			return
		}
		k := c.Add(s, ghost(st, "visited"))
		what := "offset-under-lock"
		ex.obligeOnly(st, props, what, "the offset is read and any field written only while the record is locked", pos, c.And(ghost(st, "held"), c.Eq(a.Ref, c.At(w.RS, k))))
	}
	ct.OnEvent = func(ex *Ex, st *State, kind string, args ...Val) {
		c := ex.c
		k := c.Add(s, ghost(st, "visited"))
		switch kind {
		case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock":
			a, ok := args[0].(*Addr)
			if !ok || a.Kind != 'h' || a.HT != sort(ex) || len(a.Path) != 1 {
				unsup("unknown mutex in %s", fn.Name())
			}
			ex.oblige(st, props, "lock-order", "the records are visited one after the other", fn.Pos(), c.And(c.Lt(k, c.Len(w.RS)), c.Eq(a.Ref, c.At(w.RS, k))))
			orig := w.recAt(h, k)
			if kind == "(*sync.Mutex).Lock" {
				ex.oblige(st, props, "lock-free", "a record is not locked twice", fn.Pos(), c.Not(ghost(st, "held")))
				o := c.Fresh("shared", c.Str)
				st.assume(c.Ite(w.typeAt(h, k, "00"), c.Or(c.Eq(o, zero(ex)), c.Eq(o, w.right(k))), c.Eq(o, ex.fld(orig, "offset"))))
				st.heaps[sort(ex)] = c.Store(h, a.Ref, c.Upd(orig, offs(ex), o))
				st.ghost["held"], st.ghost["lockval"] = c.T, o
				return
			}
			ex.oblige(st, props, "locked", "only a locked record is unlocked", fn.Pos(), ghost(st, "held"))
			cur := st.norm(c.Select(st.heap(sort(ex)), a.Ref))
			v := c.Fld(cur, offs(ex))
			ex.obligeOnly(st, props, "only-offset", "no other field is changed", fn.Pos(), c.Eq(c.Upd(cur, offs(ex), zero(ex)), c.Upd(orig, offs(ex), zero(ex))))
			st.assume(w.rightDef(h, k))
			ex.obligeOnly(st, props, "offset-left", "a data record behind an extended linear address is left with its upper address, all others as they were", fn.Pos(),
				c.Ite(c.And(w.typeAt(h, k, "00"), w.seen(s, k)), c.Eq(v, w.right(k)), c.Eq(v, ghost(st, "lockval"))))
			st.heaps[sort(ex)] = h
			st.ghost["held"], st.ghost["visited"] = c.F, c.Add(ghost(st, "visited"), c.IntLit(1))
		case "(*sync.WaitGroup).Done":
			ex.oblige(st, props, "done-unlocked", "no record stays locked", fn.Pos(), c.Not(ghost(st, "held")))
			st.ghost["done"] = c.Add(ghost(st, "done"), c.IntLit(1))
		default:
			ex.refute(st, props, "sync", "unexpected synchronisation "+kind, fn.Pos())
		}
	}
	ct.Loop = func(ex *Ex, lr *LoopRun) *LoopSpec {
		c := ex.c
		return ex.loopInv(lr, props, "loop over the records", fn.Pos(), func(st *State, fr *Frame, n *Term, goal bool, g func(string, *Term)) {
			k := c.Add(s, n)
			if goal {
				st.assume(w.rightDef(h, c.Sub(k, c.IntLit(1))))
				st.assume(w.seenDef(h, s, c.Sub(k, c.IntLit(1))))
			}
			g("visited", c.Eq(ghost(st, "visited"), n))
			if !goal {
				st.ghost["visited"] = n
			}
			g("unlocked", c.Not(ghost(st, "held")))
			g("range", c.Le(k, c.Len(w.RS)))
			for _, lf := range sortLeaves(lr.mod) {
				v := lr.get(st, fr, lf)
				if len(lf) < 4 || lf[:4] != "phi:" || v == nil {
					continue
				}
				switch v.Sort {
				case c.Str:
					g("upper-address", c.Eq(v, c.Ite(w.seen(s, k), w.right(k), zero(ex))))
				case c.Bool:
					g("flag", c.Implies(v, w.seen(s, k)))
				}
			}
		})
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		ex.oblige(st, props, "done-once", "the worker signals its end exactly once", fn.Pos(), c.Eq(ghost(st, "done"), c.IntLit(1)))
		e := c.Add(s, ghost(st, "visited"))
		last := c.Sub(e, c.IntLit(1))
		ex.oblige(st, props, "end", "the worker ends behind the last record or where another worker has been", fn.Pos(), c.Or(c.Eq(e, c.Len(w.RS)),
			c.And(c.Le(s, last), w.typeAt(h, last, "00"), w.seen(s, last), c.Eq(ghost(st, "lockval"), w.right(last)), c.Ne(ghost(st, "lockval"), zero(ex)))))
	}
	return ct
}
