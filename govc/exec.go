package main

// Path-wise symbolic execution of go/ssa functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	Fn, Name, Pos, Detail string
	Props                 []string
	Script                string
	Trivial               bool // discharged by the simplifier
	Failed                bool // cannot be discharged at all (unsupported construct, structural mismatch)
	Res                   string
	Solver                string
	Ms                    int64
	Model                 string
	Cover                 bool // expected satisfiable
	dup                   *Oblig
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []*ssa.Defer
	dvals  [][]Val
	parent *Frame
	depth  int
	loops  *Loops
	cut    map[*ssa.BasicBlock]*LoopRun // active cuts
	stop   map[*ssa.BasicBlock]func(*State, *Frame, *ssa.BasicBlock)
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.dvals = f.dvals[:len(f.dvals):len(f.dvals)]
	n.cut = make(map[*ssa.BasicBlock]*LoopRun, len(f.cut))
	for k, v := range f.cut {
		n.cut[k] = v
	}
	return &n
}

type K func(st *State, rets []Val)

type Ex struct {
	c        *Ctx
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	sortMemo map[types.Type]*Sort
	ranges   map[*Term][2]*big.Int
	fnRange  map[string][2]*big.Int
	nobj     int
	obs      []*Oblig
	dry      int // >0: discovery run, obligations are not recorded
	contract map[*ssa.Function]*Contract
	ground   map[*ssa.Global]*GroundMap
	iptrs    map[*Term]*Addr // pointers to parts of objects that are kept in values
	iptrIDs  map[string]int
	ginit    map[*ssa.Global]*Term
	top      *Contract // function under verification
	topFn    *ssa.Function
	fuel     int
	nscript  int
	paths    int
	covers   int
	props    []string // default property tags
	inlined  map[string]bool
	externs  map[string]int
	dropMemo map[string]map[string]bool
	loopMemo map[*ssa.Function]*Loops
	fnOf     map[*Term]*Closure // functions kept in values
	verbose  bool
	pool     *Pool
	curLoop  *LoopRun
}

type Contract struct {
	Fn    *ssa.Function
	Name  string
	Props []string
	// Setup prepares the entry state and parameter values
	Setup func(ex *Ex, st *State, fr *Frame)
	// Post checks a return
	Post func(ex *Ex, st *State, fr *Frame, rets []Val)
	// Apply is used at call sites; nil = inline
	Apply func(ex *Ex, st *State, fr *Frame, args []Val, pos token.Pos, k K)
	// Loop invariants
	Loop      func(ex *Ex, lr *LoopRun) *LoopSpec
	Merge     bool     // join the paths of an if behind it
	Safe      []string // property tags for no-panic obligations
	WorkHook  func(ex *Ex, st *State, fr *Frame, callee *ssa.Function, args []Val, in *ssa.Go) bool // args: and the captured variables
	GoHook    func(ex *Ex, st *State, fr *Frame, callee *ssa.Function, args []Val, in *ssa.Go) bool
	CallHook  func(ex *Ex, st *State, fr *Frame, callee *ssa.Function, args []Val, in ssa.CallInstruction, k K) bool
	OnEvent   func(ex *Ex, st *State, kind string, args ...Val)
	OnAccess  func(ex *Ex, st *State, a *Addr, write bool, pos token.Pos)       // heap reads and writes
	OnObj     func(ex *Ex, st *State, a *Addr, write bool, pos token.Pos)       // reads and writes of local objects
	OnGlob    func(ex *Ex, st *State, g *ssa.Global, write bool, pos token.Pos) // reads and writes of package variables
	Cover     bool
	UnrollMax int                                                                          // loops are executed up to so many rounds; more rounds have to be infeasible
	Unroll    bool                                                                         // loops are executed to their end, no invariants
	ChanWait  func(ex *Ex, st *State, fr *Frame, ch *ChanV, pos token.Pos, k func(*State)) // a receive may have to wait
	ChanHook  func(ex *Ex, st *State, fr *Frame, in *ssa.MakeChan) Val
	RecvHook  func(ex *Ex, st *State, fr *Frame, in *ssa.UnOp, ch *Term, k func(*State, *Frame, Val)) bool
	ChanRecv  func(ex *Ex, st *State, fr *Frame, in *ssa.UnOp, ch *ChanV, k func(*State, *Frame, Val)) bool
	RecvPeek  func(ex *Ex, st *State, ch *Term, in *ssa.UnOp) Val // outcome of a receive if it is known whether there is a message
}

type LoopSpec struct {
	Havoc    func(st *State, fr *Frame)            // extra work after havoc (assume invariants)
	Arrive   func(st *State, fr *Frame, back bool) // obligations on arrival
	WholeObj map[int]bool                          // objects havocked as a whole
	NoPart   bool
	PreMod   func(st *State, fr *Frame) []string
	Rounds   bool                   // a ghost counter of the rounds (LoopRun.round)
	Part     func(leaf string) bool // which leaves are split by literal value (nil: default)

	Cands     func(st *State, fr *Frame, q func(name string, t *Term)) // candidate invariants
	CandProps []string
	dropped   map[string]bool
	Persist   bool                                                     // a candidate that failed once is not tried again when the loop is met again on the same chain of calls
	Meas      func(st *State, fr *Frame, q func(name string, t *Term)) // candidate measures: one of them grows in every round
	MeasMax   *Term                                                    // and stays below this
}

func (ex *Ex) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := ex.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (ex *Ex) oblige(st *State, props []string, name, detail string, pos token.Pos, goal *Term) {
	if ex.dry > 0 {
		st.assume(goal)
		return
	}
	if st.dead {
		return
	}
	o := &Oblig{Fn: ex.topFn.Name(), Name: name, Detail: detail, Pos: ex.posStr(pos), Props: props}
	if ex.topFn.Pkg != nil {
		o.Fn = ex.topFn.Pkg.Pkg.Name() + "." + fnName(ex.topFn)
	}
	ex.obs = append(ex.obs, o)
	d := st.decide(goal)
	if d == 0 {
		g := st.norm(goal)
		d = st.decide(g)
		if d == 0 {
			ex.nscript++
			if ex.nscript > 12000 {
				unsup("too many open obligations in %s", ex.topFn.Name())
			}
			o.Script = ex.script(st, g)
			o.Detail = detail + " | path: " + strings.Join(tail(st.trace, 14), " ; ")
			if len(o.Detail) > 3000 {
				o.Detail = o.Detail[:3000]
			}
			st.assume(goal)
			return
		}
	}
	if d == 1 {
		o.Trivial = true
		o.Res = "unsat"
		o.Solver = "simplifier"
		return
	}
	// decided false: the path must be infeasible
	ex.nscript += 10
	if ex.nscript > 12000 {
		unsup("too many open obligations in %s", ex.topFn.Name())
	}
	o.Script = ex.script(st, ex.c.F)
	o.Detail = detail + " [goal refuted] | path: " + strings.Join(tail(st.trace, 14), " ; ")
	if len(o.Detail) > 3000 {
		o.Detail = o.Detail[:3000]
	}
	st.dead = true
}

// obligeOnly does not add the goal to what is known afterwards
func (ex *Ex) obligeOnly(st *State, props []string, name, detail string, pos token.Pos, goal *Term) {
	ex.oblige(st.clone(), props, name, detail, pos, goal)
}

func fnName(f *ssa.Function) string {
	n := f.Name()
	if r := f.Signature.Recv(); r != nil {
		t := types.TypeString(r.Type(), func(*types.Package) string { return "" })
		n = "(" + strings.TrimPrefix(t, ".") + ")." + n
	}
	return n
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// refuted: the structure itself is wrong; fails unless the path is infeasible
func (ex *Ex) refute(st *State, props []string, name, detail string, pos token.Pos) {
	ex.oblige(st, props, name, detail, pos, ex.c.F)
	st.dead = true
}

func (ex *Ex) script(st *State, goal *Term) string { return ex.c.Script2(ex, st.pc, goal) }

// ---------------------------------------------------------------- entry

func (ex *Ex) verify(ct *Contract) {
	fn := ct.Fn
	ex.top, ex.topFn = ct, fn
	ex.iptrs = nil
	ex.fuel = 400000
	ex.nscript = 0
	ex.dropMemo = nil
	ex.paths = 0
	ex.covers = 0
	st := ex.newState()
	fr := ex.newFrame(fn, nil)
	n0 := len(ex.obs)
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				if os.Getenv("GOVC_PANIC") != "" {
					panic(r)
				}
				u = unsupported{fmt.Sprint("internal: ", r)}
			}
			ex.dry = 0
			ex.obs = append(ex.obs, &Oblig{Fn: fn.Pkg.Pkg.Name() + "." + fnName(fn), Name: "unsupported", Detail: u.msg, Props: ct.Props, Failed: true, Res: "unsupported"})
		}
		for _, o := range ex.obs[n0:] {
			if len(o.Props) == 0 {
				o.Props = ct.Props
			}
		}
	}()
	ct.Setup(ex, st, fr)
	ex.runFunc(st, fr, func(st *State, rets []Val) {
		if st.dead {
			return
		}
		ex.paths++
		if ex.dry == 0 && ct.Post != nil {
			if ex.covers < 8 && ex.paths <= 400 && (ct.Cover || fn.Pkg.Pkg.Name() != "a2l") {
				nm := ct.Name
				if nm == "" {
					nm = fn.Pkg.Pkg.Name() + "." + fnName(fn)
				}
				ex.cover(st, &Oblig{Fn: nm, Name: "cover", Detail: "a return is reached", Props: ct.Props, Cover: true})
			}
			ct.Post(ex, st, fr, rets)
		}
	})
}

// cover: the path is feasible (asked for some paths of every function: a contract that is met by no execution says nothing)
func (ex *Ex) cover(st *State, o *Oblig) {
	o.Script = ex.script(st, ex.c.F)
	if ex.covers > 0 || !ex.valid(st, ex.c.F) {
		ex.covers++
	} else { // infeasible: only the last such path is kept, as long as there is no feasible one
		for i, p := range ex.obs {
			if p.Cover && p.Fn == o.Fn {
				ex.obs[i] = o
				return
			}
		}
	}
	ex.obs = append(ex.obs, o)
}

func (ex *Ex) newFrame(fn *ssa.Function, parent *Frame) *Frame {
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, parent: parent, cut: map[*ssa.BasicBlock]*LoopRun{}}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	fr.loops = ex.loopsOf(fn)
	return fr
}

func (ex *Ex) runFunc(st *State, fr *Frame, k K) {
	if len(fr.fn.Blocks) == 0 {
		unsup("no body for %s", fr.fn)
	}
	ex.enter(st, fr, fr.fn.Blocks[0], nil, k)
}

// enter a block along an edge
func (ex *Ex) enter(st *State, fr *Frame, b, prev *ssa.BasicBlock, k K) {
	if st.dead {
		return
	}
	ex.fuel--
	if ex.fuel < 0 {
		unsup("path budget exhausted in %s", fr.fn.Name())
	}
	if f := fr.stop[b]; f != nil {
		f(st, fr, prev)
		return
	}
	if l := fr.loops.byHeader[b]; l != nil {
		ex.arrive(st, fr, l, prev, k)
		return
	}
	// leaving active discovery loops
	for h, lr := range fr.cut {
		if !fr.loops.byHeader[h].blocks[b] {
			if lr.dry {
				return
			}
			delete(fr.cut, h)
		}
	}
	ex.phis(st, fr, b, prev)
	ex.instrs(st, fr, b, 0, k)
}

func (ex *Ex) phis(st *State, fr *Frame, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	vals := map[*ssa.Phi]Val{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[p] = ex.val(st, fr, p.Edges[pi])
	}
	for p, v := range vals {
		fr.env[p] = v
	}
}

func (ex *Ex) val(st *State, fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Global:
		return &Addr{Kind: 'g', G: x}
	case *ssa.Function:
		return &Closure{Fn: x}
	case *ssa.Builtin:
		return &Opaque{"builtin " + x.Name()}
	}
	r, ok := fr.env[v]
	if !ok {
		unsup("value %s of %s undefined", v.Name(), fr.fn.Name())
	}
	return r
}

func (ex *Ex) constVal(x *ssa.Const) Val {
	c := ex.c
	if x.Value == nil {
		return ex.zero(x.Type())
	}
	switch u := x.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.BoolLit(constant.BoolVal(x.Value))
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(x.Value)
			b, ok := new(big.Int).SetString(v.ExactString(), 10)
			if !ok {
				unsup("int const %s", v)
			}
			return c.BigLit(b)
		case u.Info()&types.IsString != 0:
			return c.StrLit(constant.StringVal(x.Value))
		case u.Info()&types.IsFloat != 0:
			return ex.floatLit(x.Value.ExactString())
		}
	}
	unsup("const %s", x)
	return nil
}

func (ex *Ex) tv(st *State, fr *Frame, v ssa.Value) *Term { return st.term(ex.val(st, fr, v)) }

func (ex *Ex) safeProps() []string {
	if ex.top != nil && ex.top.Safe != nil {
		return ex.top.Safe
	}
	return nil
}

func (ex *Ex) instrs(st *State, fr *Frame, b *ssa.BasicBlock, i int, k K) {
	c := ex.c
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			ex.enter(st, fr, b.Succs[0], b, k)
			return
		case *ssa.If:
			cond := st.norm(ex.tv(st, fr, in.Cond))
			switch st.decide(cond) {
			case 1:
				ex.enter(st, fr, b.Succs[0], b, k)
				return
			case -1:
				ex.enter(st, fr, b.Succs[1], b, k)
				return
			}
			if ex.tryMerge(st, fr, b, cond, k) {
				return
			}
			if ex.top != nil && ex.top.Merge && ex.mergeRegion(st, fr, b, cond, k) {
				return
			}
			s2, f2 := st.clone(), fr.clone()
			if st.assume(cond) {
				st.trace = append(st.trace, ex.posStr(in.Cond.Pos())+" "+short(cond))
				ex.enter(st, fr, b.Succs[0], b, k)
			}
			if s2.assume(c.Not(cond)) {
				s2.trace = append(s2.trace, ex.posStr(in.Cond.Pos())+" ¬"+short(cond))
				ex.enter(s2, f2, b.Succs[1], b, k)
			}
			return
		case *ssa.Return:
			rets := make([]Val, len(in.Results))
			for j, r := range in.Results {
				rets[j] = ex.val(st, fr, r)
			}
			if ex.dryLoop(fr) {
				return
			}
			k(st, rets)
			return
		case *ssa.Panic:
			ex.refute(st, ex.safeProps(), "no-panic", "panic reached", in.Pos())
			return
		case *ssa.RunDefers:
			ex.runDefers(st, fr, len(fr.defers)-1, func(st *State, fr *Frame) {
				ex.instrs(st, fr, b, i+1, k)
			})
			return
		case *ssa.Defer:
			fr.defers = append(fr.defers, in)
			var vs []Val
			for _, a := range in.Call.Args {
				vs = append(vs, ex.val(st, fr, a))
			}
			fr.dvals = append(fr.dvals, vs)
		case *ssa.Go:
			ex.goStmt(st, fr, in)
		case *ssa.Store:
			a := ex.val(st, fr, in.Addr)
			v := ex.val(st, fr, in.Val)
			ex.doStore(st, a, v, in.Pos())
		case *ssa.MapUpdate:
			ex.mapUpdate(st, ex.tv(st, fr, in.Map), in.Map.Type().Underlying().(*types.Map), ex.tv(st, fr, in.Key), ex.tv(st, fr, in.Value), in.Pos())
		case *ssa.Send:
			ex.send(st, fr, ex.val(st, fr, in.Chan), ex.val(st, fr, in.X), in.Pos())
		case *ssa.Call:
			done := false
			idx := i
			ex.call(st, fr, in, func(s2 *State, f2 *Frame, rets []Val) {
				var v Val
				if len(rets) == 1 {
					v = rets[0]
				} else {
					v = Tuple(rets)
				}
				f2.env[in] = v
				ex.noteVal(v, in.Type())
				ex.instrs(s2, f2, b, idx+1, k)
			})
			_ = done
			return
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				idx := i
				ex.recv(st, fr, in, func(s2 *State, f2 *Frame, v Val) {
					f2.env[in] = v
					ex.instrs(s2, f2, b, idx+1, k)
				})
				return
			}
			fr.env[in] = ex.unop(st, fr, in)
		case *ssa.Next:
			idx := i
			ex.next(st, fr, in, func(s2 *State, f2 *Frame, v Val) {
				f2.env[in] = v
				ex.instrs(s2, f2, b, idx+1, k)
			})
			return
		case *ssa.TypeAssert:
			idx := i
			ex.typeAssert(st, fr, in, func(s2 *State, f2 *Frame, v Val) {
				f2.env[in] = v
				ex.instrs(s2, f2, b, idx+1, k)
			})
			return
		case ssa.Value:
			v := ex.eval(st, fr, in)
			if st.dead {
				return
			}
			fr.env[in] = v
		default:
			unsup("instruction %T in %s", in, fr.fn.Name())
		}
	}
}

func short(t *Term) string {
	s := t.String()
	if len(s) > 120 {
		s = s[:120] + "…"
	}
	return s
}

func (ex *Ex) dryLoop(fr *Frame) bool {
	for _, lr := range fr.cut {
		if lr.dry {
			return true
		}
	}
	return false
}

func (ex *Ex) noteVal(v Val, t types.Type) {
	if x, ok := v.(*Term); ok {
		ex.noteType(x, t)
		return
	}
	if x, ok := v.(Tuple); ok {
		if tt, ok := t.(*types.Tuple); ok {
			for i := range x {
				if i < tt.Len() {
					ex.noteVal(x[i], tt.At(i).Type())
				}
			}
		}
	}
}

func (ex *Ex) runDefers(st *State, fr *Frame, n int, k func(*State, *Frame)) {
	if n < 0 {
		k(st, fr)
		return
	}
	d := fr.defers[n]
	ex.callCommon(st, fr, d, &d.Call, fr.dvals[n], func(s2 *State, f2 *Frame, _ []Val) {
		ex.runDefers(s2, f2, n-1, k)
	})
}

func (ex *Ex) doStore(st *State, a, v Val, pos token.Pos) {
	switch x := a.(type) {
	case *Addr:
		if x.Kind == 'h' && ex.top != nil && ex.top.OnAccess != nil {
			ex.top.OnAccess(ex, st, x, true, pos)
		}
		if x.Kind == 'o' && ex.top != nil && ex.top.OnObj != nil {
			ex.top.OnObj(ex, st, x, true, pos)
		}
		if x.Kind == 'g' && strings.HasPrefix(x.G.Pkg.Pkg.Path(), "github.com/rs/zerolog") {
			return // settings of the logger
		}
		if x.Kind == 'g' && ex.top != nil && ex.top.OnGlob != nil {
			ex.top.OnGlob(ex, st, x.G, true, pos)
		}
		if x.Kind == 'g' {
			if _, isG := ex.ground[x.G]; isG {
				unsup("assignment to table %s", x.G.Name())
			}
		}
		// pointers and closures kept in a cell
		switch v.(type) {
		case *Addr, *Closure, *Opaque, *ChanV, *SliceRef:
			if x.Kind == 'o' && len(x.Path) == 0 {
				if st.ghost == nil {
					st.ghost = map[string]Val{}
				}
				if _, isSl := v.(*SliceRef); !isSl || isCell(st, x.Obj) {
					st.ghost[fmt.Sprintf("cell:%d", x.Obj)] = v
					return
				}
			}
		}
		if x.Kind == 'o' && len(x.Path) == 0 {
			delete(st.ghost, fmt.Sprintf("cell:%d", x.Obj))
		}
		st.store(x, st.term(v))
	case *Term:
		if a := ex.intoObj(st, x, st.term(v).Sort); a != nil {
			ex.doStore(st, a, v, pos)
			return
		}
		ex.oblige(st, ex.safeProps(), "no-nil-deref", "store through nil pointer", pos, ex.c.Ne(x, ex.c.IntLit(0)))
		t := st.term(v)
		st.store(&Addr{Kind: 'h', Ref: x, HT: t.Sort}, t)
	case *Opaque:
	default:
		unsup("store to %T", a)
	}
}

// a slice-typed local variable captured by a closure or address-taken
func isCell(st *State, id int) bool {
	_, ok := st.ometa[id].Type.Underlying().(*types.Slice)
	return ok
}

// intoObj: the part of an object a pointer value leads to
func (ex *Ex) intoObj(st *State, t *Term, hs *Sort) *Addr {
	if len(ex.iptrs) == 0 {
		return nil
	}
	n := st.norm(t)
	if a := ex.iptrs[n]; a != nil {
		return a
	}
	var has func(t *Term) bool
	seen := map[*Term]bool{}
	has = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == "iptr" {
			return true
		}
		for _, a := range t.Args {
			if has(a) {
				return true
			}
		}
		return false
	}
	if has(n) {
		unsup("one of several pointers into an object is followed")
	}
	for _, a := range ex.iptrs {
		if st.load(a).Sort == hs {
			unsup("a pointer is followed that may lead into an object")
		}
	}
	return nil
}

func (ex *Ex) toAddr(st *State, v Val, elem types.Type, pos token.Pos) *Addr {
	switch x := v.(type) {
	case *Addr:
		return x
	case *Term:
		if a := ex.intoObj(st, x, ex.sortOf(elem)); a != nil {
			return a
		}
		ex.oblige(st, ex.safeProps(), "no-nil-deref", "nil pointer dereference", pos, ex.c.Ne(x, ex.c.IntLit(0)))
		return &Addr{Kind: 'h', Ref: x, HT: ex.sortOf(elem)}
	}
	unsup("address of %T", v)
	return nil
}

func (ex *Ex) unop(st *State, fr *Frame, in *ssa.UnOp) Val {
	c := ex.c
	x := ex.val(st, fr, in.X)
	switch in.Op {
	case token.MUL:
		if o, ok := x.(*Opaque); ok {
			if n, ok := in.Type().(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "github.com/rs/zerolog") {
				return o
			}
			if _, isStruct := in.Type().Underlying().(*types.Struct); isStruct {
				return c.Fresh("opaque", ex.sortOf(in.Type()))
			}
			return o
		}
		if g, ok := x.(*Addr); ok && g.Kind == 'g' && ex.opaqueGlobal(g.G) {
			return &Opaque{g.G.Name()}
		}
		a := ex.toAddr(st, x, in.Type(), in.Pos())
		if st.dead {
			return c.IntLit(0)
		}
		if a.Kind == 'o' && ex.top != nil && ex.top.OnObj != nil {
			ex.top.OnObj(ex, st, a, false, in.Pos())
		}
		if a.Kind == 'o' && len(a.Path) == 0 {
			if v, ok := st.ghost[fmt.Sprintf("cell:%d", a.Obj)]; ok {
				return v
			}
		}
		if a.Kind == 'h' && ex.top != nil && ex.top.OnAccess != nil {
			ex.top.OnAccess(ex, st, a, false, in.Pos())
		}
		if a.Kind == 'g' && ex.top != nil && ex.top.OnGlob != nil {
			ex.top.OnGlob(ex, st, a.G, false, in.Pos())
		}
		t := st.load(a)
		if ch := st.chanOf(t); ch != nil {
			return ch
		}
		ex.noteType(t, in.Type())
		return t
	case token.NOT:
		return c.Not(st.term(x))
	case token.SUB:
		t := st.term(x)
		if t.Sort == c.F64 {
			return c.App("fneg", c.F64, t)
		}
		return ex.wrap(c.Sub(c.IntLit(0), t), in.Type())
	case token.XOR:
		t := st.term(x)
		bits, signed, _ := isIntType(in.Type())
		r := c.Sub(c.IntLit(-1), t)
		if !signed {
			r = c.Add(r, c.BigLit(pow2(bits)))
		}
		return r
	}
	unsup("unop %s", in.Op)
	return nil
}

func (ex *Ex) opaqueGlobal(g *ssa.Global) bool {
	return g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), "github.com/asap2Go/")
}

func (ex *Ex) eval(st *State, fr *Frame, v ssa.Value) Val {
	c := ex.c
	switch in := v.(type) {
	case *ssa.Alloc:
		et := in.Type().(*types.Pointer).Elem()
		if n, ok := et.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
			a := st.newObj(et, c.IntLit(0), "sync."+n.Obj().Name(), in)
			ex.event(st, "alloc:"+n.Obj().Name(), a)
			return a
		}
		if n, ok := et.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "github.com/rs/zerolog") {
			return &Opaque{"logger"}
		}
		return st.newObj(et, ex.zero(et), in.Comment, in)
	case *ssa.FieldAddr:
		x := ex.val(st, fr, in.X)
		if o, ok := x.(*Opaque); ok {
			return o
		}
		if g, ok := x.(*Addr); ok && g.Kind == 'g' && ex.opaqueGlobal(g.G) {
			return &Opaque{"ext"}
		}
		pt := in.X.Type().Underlying().(*types.Pointer).Elem()
		a := ex.toAddr(st, x, pt, in.Pos())
		if st.dead {
			return a
		}
		return a.ext(PE{F: in.Field})
	case *ssa.Field:
		x := ex.val(st, fr, in.X)
		if o, ok := x.(*Opaque); ok {
			return o
		}
		t := c.Fld(st.term(x), in.Field)
		if ch := st.chanOf(t); ch != nil {
			return ch
		}
		ex.noteType(t, in.Type())
		return t
	case *ssa.IndexAddr:
		x := ex.val(st, fr, in.X)
		idx := ex.tv(st, fr, in.Index)
		switch y := x.(type) {
		case *Addr: // pointer to array
			n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			ex.oblige(st, ex.safeProps(), "index-in-range", "array index", in.Pos(), c.And(c.Le(c.IntLit(0), idx), c.Lt(idx, c.IntLit(n))))
			return y.ext(PE{F: -1, Idx: idx})
		case *SliceRef:
			ex.oblige(st, ex.safeProps(), "index-in-range", "slice index", in.Pos(), c.And(c.Le(c.IntLit(0), idx), c.Lt(idx, c.Sub(y.Hi, y.Lo))))
			return y.Base.ext(PE{F: -1, Idx: c.Add(y.Lo, idx)})
		case *Term:
			ex.oblige(st, ex.safeProps(), "index-in-range", "slice index", in.Pos(), c.And(c.Le(c.IntLit(0), idx), c.Lt(idx, c.Len(y))))
			return &Addr{Kind: 'v', V: y, Path: []PE{{F: -1, Idx: idx}}}
		}
		unsup("indexaddr on %T", x)
	case *ssa.Index:
		t := ex.tv(st, fr, in.X)
		idx := ex.tv(st, fr, in.Index)
		if t.Sort == c.Str {
			ex.oblige(st, ex.safeProps(), "index-in-range", "string index", in.Pos(), c.And(c.Le(c.IntLit(0), idx), c.Lt(idx, c.SLen(t))))
			return c.SAt(t, idx)
		}
		ex.oblige(st, ex.safeProps(), "index-in-range", "array index", in.Pos(), c.And(c.Le(c.IntLit(0), idx), c.Lt(idx, c.Len(t))))
		r := c.At(t, idx)
		ex.noteType(r, in.Type())
		return r
	case *ssa.Lookup:
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			t := ex.tv(st, fr, in.X)
			idx := ex.tv(st, fr, in.Index)
			ex.oblige(st, ex.safeProps(), "index-in-range", "string index", in.Pos(), c.And(c.Le(c.IntLit(0), idx), c.Lt(idx, c.SLen(t))))
			return c.SAt(t, idx)
		}
		return ex.lookup(st, fr, in)
	case *ssa.BinOp:
		return ex.binop(st, fr, in)
	case *ssa.ChangeType:
		return ex.val(st, fr, in.X)
	case *ssa.ChangeInterface:
		return ex.val(st, fr, in.X)
	case *ssa.Convert:
		return ex.convert(st, fr, in)
	case *ssa.MakeInterface:
		x := ex.val(st, fr, in.X)
		if o, ok := x.(*Opaque); ok {
			if n, ok := in.X.Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/binary" {
				return &DynV{n, o}
			}
			return o
		}
		if it, ok := in.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 && !types.Identical(in.Type(), types.Universe.Lookup("error").Type()) {
			return &DynV{in.X.Type(), x}
		}
		t := st.term(x)
		return c.App("box:"+ex.typeName(in.X.Type()), c.Iface, t)
	case *ssa.MakeMap:
		return st.newMap(ex.emptyMap(in.Type().Underlying().(*types.Map)))
	case *ssa.MakeSlice:
		n := ex.tv(st, fr, in.Len)
		cp := ex.tv(st, fr, in.Cap)
		ex.oblige(st, ex.safeProps(), "makeslice", "make([]T, len, cap) with 0 <= len <= cap", in.Pos(), c.And(c.Le(c.IntLit(0), n), c.Le(n, cp)))
		et := in.Type().Underlying().(*types.Slice).Elem()
		s := ex.sortOf(in.Type())
		a := st.newObj(in.Type(), c.SeqZero(s, n, ex.zero(et)), "makeslice", in)
		return &SliceRef{Base: a, Lo: c.IntLit(0), Hi: n}
	case *ssa.MakeChan:
		if ex.top != nil && ex.top.ChanHook != nil {
			if v := ex.top.ChanHook(ex, st, fr, in); v != nil {
				return v
			}
		}
		return ex.makeChan(st, in.Type().Underlying().(*types.Chan).Elem(), in.Name(), in)
	case *ssa.MakeClosure:
		cl := &Closure{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			cl.Bind = append(cl.Bind, ex.val(st, fr, b))
		}
		return cl
	case *ssa.Slice:
		return ex.slice(st, fr, in)
	case *ssa.Extract:
		t := ex.val(st, fr, in.Tuple)
		tt, ok := t.(Tuple)
		if !ok {
			if o, ok := t.(*Opaque); ok {
				return o
			}
			unsup("extract from %T", t)
		}
		return tt[in.Index]
	case *ssa.Range:
		return ex.val(st, fr, in.X)
	}
	unsup("value instruction %T in %s", v, fr.fn.Name())
	return nil
}

func (ex *Ex) slice(st *State, fr *Frame, in *ssa.Slice) Val {
	c := ex.c
	x := ex.val(st, fr, in.X)
	lo := c.IntLit(0)
	if in.Low != nil {
		lo = ex.tv(st, fr, in.Low)
	}
	var hi *Term
	if in.High != nil {
		hi = ex.tv(st, fr, in.High)
	}
	bounds := func(n *Term) {
		h := hi
		if h == nil {
			h = n
		}
		ex.oblige(st, ex.safeProps(), "slice-in-range", "slice bounds", in.Pos(), c.And(c.Le(c.IntLit(0), lo), c.Le(lo, h), c.Le(h, n)))
		hi = h
	}
	switch y := x.(type) {
	case *Addr:
		n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		bounds(c.IntLit(n))
		return &SliceRef{Base: y, Lo: lo, Hi: hi}
	case *SliceRef:
		bounds(c.Sub(y.Hi, y.Lo))
		return &SliceRef{Base: y.Base, Lo: c.Add(y.Lo, lo), Hi: c.Add(y.Lo, hi)}
	case *Term:
		if y.Sort == c.Str {
			bounds(c.SLen(y))
			r := c.SSub(y, lo, hi)
			if !st.dead && r.Op == "ssub" {
				st.assume(c.Eq(c.SLen(r), c.Sub(hi, lo)))
			}
			return r
		}
		bounds(c.Len(y)) // stricter than Go (cap), a slice beyond len is not supported
		return c.SeqSub(y, lo, hi)
	}
	unsup("slice of %T", x)
	return nil
}

func (ex *Ex) mapContent(st *State, m *Term, mt *types.Map) *Term {
	c := ex.c
	m = st.resolve(m)
	if m.Op == "mapid" {
		var id int
		fmt.Sscan(m.S, &id)
		ct, ok := st.maps[id]
		if !ok {
			unsup("map %d not in state", id)
		}
		return ct
	}
	if m.Op == "int" && m.I.Sign() == 0 {
		return ex.emptyMap(mt)
	}
	return c.App("mapc:"+ex.mapSort(mt).Name, ex.mapSort(mt), m)
}

func (ex *Ex) lookup(st *State, fr *Frame, in *ssa.Lookup) Val {
	c := ex.c
	mt := in.X.Type().Underlying().(*types.Map)
	key := ex.tv(st, fr, in.Index)
	if u, ok := in.X.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			if gm := ex.ground[g]; gm != nil {
				has, val := gm.lookup(ex, st.resolve(key))
				if in.CommaOk {
					return Tuple{val, has}
				}
				return val
			}
		}
	}
	m := ex.tv(st, fr, in.X)
	if m.Op == "ite" {
		unsup("map reference chosen by condition")
	}
	ct := ex.mapContent(st, m, mt)
	has := c.Select(c.Fld(ct, 0), key)
	val := c.Select(c.Fld(ct, 1), key)
	z := ex.zero(mt.Elem())
	if val != z {
		val = c.Ite(has, val, z)
	}
	ex.noteType(val, mt.Elem())
	if in.CommaOk {
		return Tuple{val, has}
	}
	return val
}

func (ex *Ex) mapUpdate(st *State, m *Term, mt *types.Map, k, v *Term, pos token.Pos) {
	c := ex.c
	m = st.resolve(m)
	if m.Op == "int" && m.I.Sign() == 0 {
		ex.refute(st, ex.safeProps(), "no-nil-map-write", "write to a nil map", pos)
		return
	}
	if m.Op != "mapid" {
		unsup("update of a map that is not locally created (%s)", short(m))
	}
	var id int
	fmt.Sscan(m.S, &id)
	ct := st.maps[id]
	st.maps[id] = c.Mk(ct.Sort, []*Term{c.Store(c.Fld(ct, 0), k, c.T), c.Store(c.Fld(ct, 1), k, v)})
}

func (ex *Ex) binop(st *State, fr *Frame, in *ssa.BinOp) Val {
	c := ex.c
	xv, yv := ex.val(st, fr, in.X), ex.val(st, fr, in.Y)
	if in.Op == token.EQL || in.Op == token.NEQ {
		r := ex.eqVal(st, xv, yv, in)
		if in.Op == token.NEQ {
			r = c.Not(r)
		}
		return r
	}
	x, y := st.term(xv), st.term(yv)
	ty := in.X.Type()
	if x.Sort == c.F64 {
		switch in.Op {
		case token.ADD:
			return ex.fcomm("fadd", x, y)
		case token.SUB:
			return c.App("fsub", c.F64, x, y)
		case token.MUL:
			return ex.fcomm("fmul", x, y)
		case token.QUO:
			return c.App("fdiv", c.F64, x, y)
		case token.LSS:
			return ex.flt(st, x, y)
		case token.LEQ:
			ex.forder(st, x, y)
			return c.App("fle", c.Bool, x, y)
		case token.GTR:
			return ex.flt(st, y, x)
		case token.GEQ:
			ex.forder(st, x, y)
			return c.App("fle", c.Bool, y, x)
		}
	}
	if x.Sort == c.Str {
		switch in.Op {
		case token.ADD:
			return c.SCat(x, y)
		case token.LSS:
			return c.App("strlt", c.Bool, x, y)
		case token.GTR:
			return c.App("strlt", c.Bool, y, x)
		case token.LEQ:
			return c.Not(c.App("strlt", c.Bool, y, x))
		case token.GEQ:
			return c.Not(c.App("strlt", c.Bool, x, y))
		}
	}
	if x.Sort == c.Bool {
		switch in.Op {
		case token.AND:
			return c.And(x, y)
		case token.OR:
			return c.Or(x, y)
		}
	}
	rt := in.Type()
	switch in.Op {
	case token.ADD:
		return ex.wrap(c.Add(x, y), rt)
	case token.SUB:
		return ex.wrap(c.Sub(x, y), rt)
	case token.MUL:
		return ex.wrap(c.Mul(x, y), rt)
	case token.LSS:
		return c.Lt(x, y)
	case token.LEQ:
		return c.Le(x, y)
	case token.GTR:
		return c.Gt(x, y)
	case token.GEQ:
		return c.Ge(x, y)
	case token.QUO, token.REM:
		ex.oblige(st, ex.safeProps(), "no-div-zero", "division by zero", in.Pos(), c.Ne(y, c.IntLit(0)))
		_, signed, _ := isIntType(ty)
		nonneg := func(t *Term) bool {
			return !signed || st.decide(c.Le(c.IntLit(0), t)) == 1
		}
		if nonneg(x) && nonneg(y) {
			if in.Op == token.QUO {
				return c.Div(x, y)
			}
			return c.Mod(x, y)
		}
		// truncated division
		z := c.IntLit(0)
		ax := c.Ite(c.Le(z, x), x, c.Sub(z, x))
		ay := c.Ite(c.Le(z, y), y, c.Sub(z, y))
		if in.Op == token.QUO {
			q := c.Div(ax, ay)
			return c.Ite(c.Eq(c.Le(z, x), c.Le(z, y)), q, c.Sub(z, q))
		}
		r := c.Mod(ax, ay)
		return c.Ite(c.Le(z, x), r, c.Sub(z, r))
	case token.SHL:
		if y.Op == "int" && y.I.IsInt64() && y.I.Int64() < 64 {
			return ex.wrap(c.Mul(c.BigLit(pow2(int(y.I.Int64()))), x), rt)
		}
	case token.SHR:
		if y.Op == "int" && y.I.IsInt64() && y.I.Int64() < 64 {
			return c.Div(x, c.BigLit(pow2(int(y.I.Int64()))))
		}
	case token.AND:
		if m := maskBits(y); m > 0 {
			return c.Mod(x, c.BigLit(pow2(m)))
		}
		if m := maskBits(x); m > 0 {
			return c.Mod(y, c.BigLit(pow2(m)))
		}
		r := c.App("bvand", c.Int, x, y)
		return r
	case token.OR, token.XOR:
		// disjoint bit ranges add up
		if ex.disjointBits(x, y) || ex.disjointBits(y, x) {
			return ex.wrap(c.Add(x, y), rt)
		}
		if in.Op == token.OR {
			return c.App("bvor", c.Int, x, y)
		}
		return c.App("bvxor", c.Int, x, y)
	case token.AND_NOT:
		return c.App("bvandnot", c.Int, x, y)
	}
	unsup("binop %s on %s", in.Op, x.Sort.Name)
	return nil
}

func maskBits(t *Term) int {
	if t.Op != "int" || t.I.Sign() <= 0 {
		return 0
	}
	n := new(big.Int).Add(t.I, big.NewInt(1))
	b := n.BitLen() - 1
	if pow2(b).Cmp(n) == 0 {
		return b
	}
	return 0
}

// x is a multiple of 2^k and 0 <= y < 2^k
func (ex *Ex) disjointBits(x, y *Term) bool {
	_, hi, ok := ex.rangeOf(y)
	lo, _, _ := ex.rangeOf(y)
	if !ok || hi == nil || lo == nil || lo.Sign() < 0 {
		return false
	}
	l := ex.c.toLin(x)
	need := pow2(hi.BitLen())
	if new(big.Int).Mod(l.k, need).Sign() != 0 {
		return false
	}
	for _, k := range l.cs {
		if new(big.Int).Mod(k, need).Sign() != 0 {
			return false
		}
	}
	xlo, _, ok := ex.rangeOf(x)
	return ok && xlo != nil && xlo.Sign() >= 0
}

func (ex *Ex) eqVal(st *State, x, y Val, in *ssa.BinOp) *Term {
	c := ex.c
	isNil := func(v ssa.Value) bool { k, ok := v.(*ssa.Const); return ok && k.Value == nil }
	switch in.X.Type().Underlying().(type) {
	case *types.Slice:
		// comparison with nil: a nil slice is represented as the empty one
		var o Val
		if isNil(in.Y) {
			o = x
		} else {
			o = y
		}
		_ = o
		unsup("slice compared with nil")
	case *types.Map:
		if isNil(in.Y) {
			m := st.resolve(st.term(x))
			if m.Op == "mapid" {
				return c.F
			}
			return c.Eq(m, c.IntLit(0))
		}
	}
	if a, ok := x.(*Addr); ok {
		if isNil(in.Y) {
			return c.F
		}
		if b, ok := y.(*Addr); ok {
			return c.BoolLit(a == b || (a.Kind == 'o' && b.Kind == 'o' && a.Obj == b.Obj && len(a.Path) == 0 && len(b.Path) == 0))
		}
	}
	if _, ok := y.(*Addr); ok && isNil(in.X) {
		return c.F
	}
	if o, ok := x.(*Opaque); ok {
		_ = o
		return c.Fresh("opaque_eq", c.Bool)
	}
	if _, ok := y.(*Opaque); ok {
		return c.Fresh("opaque_eq", c.Bool)
	}
	a, b := st.term(x), st.term(y)
	if a.Sort == c.F64 {
		ex.forder(st, a, b)
		return ex.feq(a, b)
	}
	if a.Op == "errI" && b.Op == "errI" {
		unsup("comparison of two error values")
	}
	return c.Eq(a, b)
}

func (ex *Ex) convert(st *State, fr *Frame, in *ssa.Convert) Val {
	c := ex.c
	x := ex.val(st, fr, in.X)
	from, to := in.X.Type().Underlying(), in.Type().Underlying()
	fb, fOk := from.(*types.Basic)
	tb, tOk := to.(*types.Basic)
	if fOk && tOk {
		t := st.term(x)
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			ex.noteType(t, in.X.Type())
			fbits, fsig, _ := isIntType(in.X.Type())
			tbits, tsig, _ := isIntType(in.Type())
			if fbits == 64 && !fsig && tbits == 64 && tsig {
				if _, hi, ok := ex.rangeOf(t); ok && hi != nil && hi.Cmp(pow2(63)) < 0 {
					return t
				}
				return ex.twos(t, 64)
			}
			return ex.wrap(t, in.Type())
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			return c.App("i2f", c.F64, t)
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			if fb.Kind() == types.Float64 && tb.Kind() == types.Float32 {
				return c.App("f64to32", c.F64, t)
			}
			return t
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			r := c.App("f2i:"+tb.Name(), c.Int, t)
			ex.noteType(r, in.Type())
			return r
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return t
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			return c.App("rune2s", c.Str, t)
		}
	}
	if tOk && tb.Info()&types.IsString != 0 {
		return c.App("bytes2s:"+ex.sortOf(in.X.Type()).Name, c.Str, st.term(x))
	}
	if fOk && fb.Info()&types.IsString != 0 {
		return c.App("s2bytes:"+ex.sortOf(in.Type()).Name, ex.sortOf(in.Type()), st.term(x))
	}
	unsup("conversion %s -> %s", in.X.Type(), in.Type())
	return nil
}

func (ex *Ex) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert, k func(*State, *Frame, Val)) {
	c := ex.c
	x := ex.tv(st, fr, in.X)
	if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		unsup("type assertion to interface")
	}
	tn := ex.typeName(in.AssertedType)
	if x.Op == "app:box:"+tn {
		if in.CommaOk {
			k(st, fr, Tuple{x.Args[0], c.T})
		} else {
			k(st, fr, x.Args[0])
		}
		return
	}
	var is *Term
	if strings.HasPrefix(x.Op, "app:box:") || x.Op == "nilI" || x.Op == "errI" || x.Op == "sentI" {
		is = c.F
	} else {
		is = c.App("istype:"+tn, c.Bool, x)
	}
	v := c.App("unbox:"+tn, ex.sortOf(in.AssertedType), x)
	if in.CommaOk {
		k(st, fr, Tuple{c.Ite(is, v, ex.zero(in.AssertedType)), is})
		return
	}
	ex.oblige(st, ex.safeProps(), "type-assert", "type assertion to "+tn, in.Pos(), is)
	k(st, fr, v)
}

func (ex *Ex) next(st *State, fr *Frame, in *ssa.Next, k func(*State, *Frame, Val)) {
	unsup("range over map or string")
}

// ---------------------------------------------------------------- calls

func (ex *Ex) call(st *State, fr *Frame, in *ssa.Call, k func(*State, *Frame, []Val)) {
	var args []Val
	for _, a := range in.Call.Args {
		args = append(args, ex.val(st, fr, a))
	}
	ex.callCommon(st, fr, in, &in.Call, args, k)
}

func (ex *Ex) callCommon(st *State, fr *Frame, in ssa.CallInstruction, cc *ssa.CallCommon, args []Val, k func(*State, *Frame, []Val)) {
	c := ex.c
	if cc.IsInvoke() {
		recv := ex.val(st, fr, cc.Value)
		if cc.Method.Name() == "Error" {
			if t, ok := recv.(*Term); ok {
				ex.oblige(st, ex.safeProps(), "no-nil-deref", "Error() on nil error", in.Pos(), c.Ne(t, c.NilI))
				k(st, fr, []Val{c.App("errstr", c.Str, t)})
				return
			}
		}
		if _, ok := recv.(*Opaque); ok {
			k(st, fr, ex.opaqueResults(cc.Signature()))
			return
		}
		if d, ok := recv.(*DynV); ok {
			if m := ex.prog.LookupMethod(d.Type, cc.Method.Pkg(), cc.Method.Name()); m != nil {
				ex.callFn(st, fr, m, nil, append([]Val{d.V}, args...), in, k)
				return
			}
		}
		unsup("interface method call %s", cc.Method.Name())
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		k(st, fr, []Val{ex.builtin(st, fr, b.Name(), cc, args, in.Pos())})
		return
	}
	var callee *ssa.Function
	var bind []Val
	if f := cc.StaticCallee(); f != nil {
		callee = f
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			if cl, ok := ex.val(st, fr, mc).(*Closure); ok {
				bind = cl.Bind
			}
		}
	} else {
		fv := ex.val(st, fr, cc.Value)
		if t, ok := fv.(*Term); ok {
			ex.callChosen(st, fr, t, args, in, k)
			return
		}
		cl, ok := fv.(*Closure)
		if !ok {
			unsup("call of an unknown function value in %s", fr.fn.Name())
		}
		callee, bind = cl.Fn, cl.Bind
	}
	ex.callFn(st, fr, callee, bind, args, in, k)
}

// callChosen: call of a function taken from a table or chosen by a condition
func (ex *Ex) callChosen(st *State, fr *Frame, f *Term, args []Val, in ssa.CallInstruction, k func(*State, *Frame, []Val)) {
	c := ex.c
	f = st.norm(f)
	if cl := ex.fnOf[f]; cl != nil {
		ex.callFn(st, fr, cl.Fn, cl.Bind, args, in, k)
		return
	}
	split := func(cond, yes, no *Term) {
		ex.convFork(st, st.norm(cond), func(s2 *State, is bool) {
			f2 := no
			if is {
				f2 = yes
			}
			ex.callChosen(s2, fr, f2, args, in, k)
		})
	}
	switch {
	case f.Op == "ite":
		split(f.Args[0], f.Args[1], f.Args[2])
	case f.Op == "select" && f.Args[0].Op == "store":
		a := f.Args[0]
		split(c.Eq(a.Args[1], f.Args[1]), a.Args[2], c.Select(a.Args[0], f.Args[1]))
	case f.Op == "int" && f.I.Sign() == 0:
		ex.refute(st, ex.safeProps(), "nil-function", "call of a nil function", in.Pos())
	default:
		unsup("call of an unknown function value in %s", fr.fn.Name())
	}
}

func (ex *Ex) callFn(st *State, fr *Frame, callee *ssa.Function, bind []Val, args []Val, in ssa.CallInstruction, k func(*State, *Frame, []Val)) {
	if strings.HasSuffix(callee.Name(), "$bound") && len(bind) == 1 { // method value
		if m, ok := callee.Object().(*types.Func); ok {
			if f := ex.prog.FuncValue(m); f != nil {
				callee, args, bind = f, append([]Val{bind[0]}, args...), nil
			}
		}
	}
	cont := func(s2 *State, rets []Val) { // may be called several times: clone frame each time
		if s2.dead {
			return
		}
		k(s2, fr.clone(), rets)
	}
	if ex.top != nil && ex.top.CallHook != nil {
		if ex.top.CallHook(ex, st, fr, callee, args, in, cont) {
			return
		}
	}
	if ct := ex.contract[callee]; ct != nil && ct.Apply != nil && callee != ex.topFn {
		ct.Apply(ex, st, fr, args, in.Pos(), cont)
		return
	}
	if ct := ex.contract[callee]; ct != nil && ct.Apply != nil { // recursion: the contract is the induction hypothesis
		ct.Apply(ex, st, fr, args, in.Pos(), cont)
		return
	}
	if ex.extern(st, fr, callee, args, in, cont) {
		return
	}
	pkg := pkgOf(callee)
	if pkg == nil || !strings.HasPrefix(pkg.Pkg.Path(), "github.com/asap2Go/") || len(callee.Blocks) == 0 {
		unsup("call of external function %s without contract", callee.String())
	}
	if fr.depth > 12 {
		unsup("inlining depth exceeded at %s", callee.Name())
	}
	for p := fr; p != nil; p = p.parent {
		if p.fn == callee {
			if ex.valid(st, ex.c.F) { // the path is infeasible
				return
			}
			unsup("recursive function %s without contract", callee.Name())
		}
	}
	ex.inlined[pkg.Pkg.Name()+"."+fnName(callee)] = true
	nf := ex.newFrame(callee, fr)
	for i, p := range callee.Params {
		nf.env[p] = args[i]
	}
	for i, fv := range callee.FreeVars {
		nf.env[fv] = bind[i]
	}
	if ex.top != nil && ex.top.Merge {
		ex.mergeReturns(st, func(s *State, k K) { ex.runFunc(s, nf, k) }, cont)
		return
	}
	ex.runFunc(st, nf, cont)
}

func (ex *Ex) opaqueResults(sig *types.Signature) []Val {
	var r []Val
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, &Opaque{"ext"})
	}
	return r
}

func (ex *Ex) builtin(st *State, fr *Frame, name string, cc *ssa.CallCommon, args []Val, pos token.Pos) Val {
	c := ex.c
	switch name {
	case "len":
		switch x := args[0].(type) {
		case *SliceRef:
			return c.Sub(x.Hi, x.Lo)
		case *ChanV:
			return ex.chanLen(st, x)
		case *Term:
			if x.Sort == c.Str {
				return c.SLen(x)
			}
			if x.Sort.Kind == KSeq {
				return c.Len(x)
			}
			if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
				r := c.App("maplen", c.Int, x)
				ex.ranges[r] = [2]*big.Int{new(big.Int), nil}
				return r
			}
		}
	case "cap":
		t := c.Fresh("cap", c.Int)
		st.assume(c.Le(c.Len(st.seqOf(args[0])), t))
		return t
	case "append":
		if ex.tailShared(cc.Args[0], map[ssa.Value]bool{}) {
			unsup("append to a re-sliced slice (may overwrite shared elements)")
		}
		a := st.seqOf(args[0])
		b := st.seqOf(args[1])
		if b.Sort == c.Str {
			b = c.App("s2bytes:"+a.Sort.Name, a.Sort, b)
		}
		return c.Cat(a, b)
	case "copy":
		dst, ok := args[0].(*SliceRef)
		if !ok {
			unsup("copy into a shared slice")
		}
		src := st.seqOf(args[1])
		n := c.Sub(dst.Hi, dst.Lo)
		m := c.Len(src)
		base := st.load(dst.Base)
		if n.Op == "int" && m.Op == "int" && base.Op == "seq.lit" {
			k := int(n.I.Int64())
			if int(m.I.Int64()) < k {
				k = int(m.I.Int64())
			}
			for i := 0; i < k; i++ {
				base = c.SeqUpd(base, c.Add(dst.Lo, c.IntLit(int64(i))), c.At(src, c.IntLit(int64(i))))
			}
			st.store(dst.Base, base)
			return c.IntLit(int64(k))
		}
		// whole-slice copy
		if dst.Lo.Op == "int" && dst.Lo.I.Sign() == 0 && st.decide(c.Eq(n, m)) == 1 && st.decide(c.Eq(c.Len(base), n)) == 1 {
			st.store(dst.Base, src)
			return n
		}
		unsup("copy of symbolic length")
	case "close":
		ex.closeChan(st, args[0], pos)
		return c.IntLit(0)
	case "panic":
		ex.refute(st, ex.safeProps(), "no-panic", "panic reached", pos)
		return c.IntLit(0)
	case "delete":
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		m := st.resolve(st.term(args[0]))
		if m.Op != "mapid" {
			unsup("delete from a foreign map")
		}
		var id int
		fmt.Sscan(m.S, &id)
		ct := st.maps[id]
		_ = mt
		st.maps[id] = c.Mk(ct.Sort, []*Term{c.Store(c.Fld(ct, 0), st.term(args[1]), c.F), c.Fld(ct, 1)})
		return c.IntLit(0)
	case "min", "max":
		x, y := st.term(args[0]), st.term(args[1])
		if x.Sort == c.Int && len(args) == 2 {
			if name == "min" {
				return c.Ite(c.Le(x, y), x, y)
			}
			return c.Ite(c.Le(x, y), y, x)
		}
	case "print", "println":
		return c.IntLit(0)
	}
	unsup("builtin %s", name)
	return nil
}

// tailShared: v may be a slice whose spare capacity is visible elsewhere
func (ex *Ex) tailShared(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Slice:
		if _, isArr := x.X.Type().Underlying().(*types.Pointer); isArr {
			return false
		}
		return x.High != nil && !ex.soleOwner(x)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if ex.tailShared(e, seen) {
				return true
			}
		}
	case *ssa.ChangeType:
		return ex.tailShared(x.X, seen)
	}
	return false
}

// soleOwner: g = append(g[:n], ...) for a variable g of the package whose elements no other slice shares: g is only
// indexed, measured and appended to, every value assigned to it is made for it
func (ex *Ex) soleOwner(x *ssa.Slice) bool {
	ld, ok := x.X.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := ld.X.(*ssa.Global)
	if !ok || x.Low != nil || x.Max != nil {
		return false
	}
	uses := func(v ssa.Value) []ssa.Instruction {
		var r []ssa.Instruction
		if v.Referrers() != nil {
			for _, in := range *v.Referrers() {
				if _, dbg := in.(*ssa.DebugRef); !dbg {
					r = append(r, in)
				}
			}
		}
		return r
	}
	var toG func(v ssa.Value, in ssa.Instruction) bool // v is used by in only as what is appended to and stored in g
	toG = func(v ssa.Value, in ssa.Instruction) bool {
		if s, ok := in.(*ssa.Store); ok {
			return s.Addr == g && s.Val == v
		}
		var r ssa.Value
		switch y := in.(type) {
		case *ssa.Call:
			b, ok := y.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "append" || y.Call.Args[0] != v || y.Call.Args[1] == v {
				return false
			}
			r = y
		case *ssa.Slice:
			if y.X != v || y.Low != nil {
				return false
			}
			r = y
		default:
			return false
		}
		u := uses(r)
		return len(u) == 1 && toG(r, u[0])
	}
	var made func(v ssa.Value) bool // the elements of v belong to nobody else
	made = func(v ssa.Value) bool {
		switch y := v.(type) {
		case *ssa.MakeSlice:
			return len(uses(y)) == 1
		case *ssa.Const:
			return true
		case *ssa.Slice:
			if a, ok := y.X.(*ssa.Alloc); ok {
				return a.Heap
			}
			l, ok := y.X.(*ssa.UnOp)
			return ok && l.X == g
		case *ssa.UnOp:
			return y.X == g
		case *ssa.Call:
			b, ok := y.Call.Value.(*ssa.Builtin)
			return ok && b.Name() == "append" && len(uses(y)) == 1 && made(y.Call.Args[0])
		}
		return false
	}
	var fns []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		fns = append(fns, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	if token.IsExported(g.Name()) {
		return false
	}
	for _, m := range g.Pkg.Members {
		if f, ok := m.(*ssa.Function); ok {
			add(f)
		}
		if t, ok := m.(*ssa.Type); ok {
			for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				ms := g.Pkg.Prog.MethodSets.MethodSet(ty)
				for i := 0; i < ms.Len(); i++ {
					if f := g.Pkg.Prog.MethodValue(ms.At(i)); f != nil && f.Pkg == g.Pkg {
						add(f)
					}
				}
			}
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				refers := false
				for _, o := range in.Operands(nil) {
					refers = refers || *o == ssa.Value(g)
				}
				if !refers {
					continue
				}
				if s, ok := in.(*ssa.Store); ok {
					if s.Addr != g || !made(s.Val) {
						return false
					}
					continue
				}
				l, ok := in.(*ssa.UnOp)
				if !ok {
					return false
				}
				for _, u := range uses(l) {
					switch y := u.(type) {
					case *ssa.IndexAddr:
						for _, z := range uses(y) {
							if d, ok := z.(*ssa.UnOp); !ok || d.Op != token.MUL {
								return false
							}
						}
						continue
					case *ssa.Call:
						if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
							continue
						}
					}
					if !toG(l, u) {
						return false
					}
				}
			}
		}
	}
	return true
}

// ---------------------------------------------------------------- merging of small ifs

// tryMerge handles `if c { x = e }` (triangle) and `if c {..} else {..}` (diamond) whose arms are
// straight-line and free of effects other than local stores that can be merged with ite.
func (ex *Ex) tryMerge(st *State, fr *Frame, b *ssa.BasicBlock, cond *Term, k K) bool {
	if ex.top == nil || !mergeOK[ex.topFn.Name()] {
		return false
	}
	t, f := b.Succs[0], b.Succs[1]
	var join *ssa.BasicBlock
	arm := func(x *ssa.BasicBlock) bool {
		if len(x.Preds) != 1 || len(x.Succs) != 1 {
			return false
		}
		for _, in := range x.Instrs {
			switch y := in.(type) {
			case *ssa.BinOp, *ssa.Jump, *ssa.MakeInterface, *ssa.Slice, *ssa.Alloc, *ssa.IndexAddr, *ssa.Store, *ssa.FieldAddr, *ssa.UnOp, *ssa.Field, *ssa.Extract, *ssa.DebugRef, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Convert:
			case *ssa.Call:
				if bi, ok := y.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "append" && bi.Name() != "len" {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	var arms [2]*ssa.BasicBlock
	switch {
	case arm(t) && t.Succs[0] == f:
		join, arms[0] = f, t
	case arm(f) && f.Succs[0] == t:
		join, arms[1] = t, f
	case arm(t) && arm(f) && t.Succs[0] == f.Succs[0]:
		join, arms[0], arms[1] = t.Succs[0], t, f
	default:
		return false
	}
	if fr.loops.byHeader[join] != nil || len(join.Preds) != 2 {
		return false
	}
	run := func(s *State, f *Frame, cnd *Term, a *ssa.BasicBlock) (*State, *Frame, bool) {
		if !s.assume(cnd) {
			return s, f, false
		}
		if a == nil {
			ex.phis(s, f, join, b)
			return s, f, true
		}
		ex.phis(s, f, a, b)
		for _, in := range a.Instrs {
			switch y := in.(type) {
			case *ssa.Jump, *ssa.DebugRef:
			case *ssa.Store:
				ex.doStore(s, ex.val(s, f, y.Addr), ex.val(s, f, y.Val), y.Pos())
			case *ssa.UnOp:
				f.env[y] = ex.unop(s, f, y)
			case *ssa.Call:
				var args []Val
				for _, q := range y.Call.Args {
					args = append(args, ex.val(s, f, q))
				}
				f.env[y] = ex.builtin(s, f, y.Call.Value.(*ssa.Builtin).Name(), &y.Call, args, y.Pos())
			case ssa.Value:
				f.env[y] = ex.eval(s, f, y)
			}
		}
		ex.phis(s, f, join, a)
		return s, f, !s.dead
	}
	s1, f1, ok1 := run(st.clone(), fr.clone(), cond, arms[0])
	s2, f2, ok2 := run(st.clone(), fr.clone(), ex.c.Not(cond), arms[1])
	if !ok1 || !ok2 {
		return false
	}
	// merge into st
	m, mf := st.clone(), fr.clone()
	for _, in := range join.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		a, okA := f1.env[p].(*Term)
		bb, okB := f2.env[p].(*Term)
		if !okA || !okB {
			if f1.env[p] == f2.env[p] {
				mf.env[p] = f1.env[p]
				continue
			}
			return false
		}
		mf.env[p] = ex.c.Ite(cond, a, bb)
	}
	for id, v := range st.objs {
		a, bb := s1.objs[id], s2.objs[id]
		if a != v || bb != v {
			m.objs[id] = ex.c.Ite(cond, a, bb)
		}
		if s1.frozen[id] || s2.frozen[id] {
			m.frozen[id] = true
		}
	}
	for g := range s1.globs {
		if s1.globs[g] != s2.global(g) {
			return false
		}
	}
	for id := range st.maps {
		if s1.maps[id] != st.maps[id] || s2.maps[id] != st.maps[id] {
			return false
		}
	}
	for key, v := range s1.ghost {
		if st.ghost[key] != v {
			return false
		}
	}
	m.trace = append(m.trace, "merged "+ex.posStr(b.Instrs[len(b.Instrs)-1].(*ssa.If).Cond.Pos()))
	*st = *m
	ex.instrs(st, mf, join, 0, k)
	return true
}

var mergeOK = map[string]bool{}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// feq: == on floats is symmetric
func (ex *Ex) feq(a, b *Term) *Term {
	if a.ID > b.ID {
		a, b = b, a
	}
	return ex.c.App("feq", ex.c.Bool, a, b)
}

// fcomm: + and * on floats are commutative
func (ex *Ex) fcomm(op string, a, b *Term) *Term {
	if a.ID > b.ID {
		a, b = b, a
	}
	return ex.c.App(op, ex.c.F64, a, b)
}

// flt: x < y is x <= y and not x == y
func (ex *Ex) flt(st *State, x, y *Term) *Term {
	ex.forder(st, x, y)
	return ex.c.And(ex.c.App("fle", ex.c.Bool, x, y), ex.c.Not(ex.feq(x, y)))
}

// forder: the laws of the float comparisons for two values (a value is not equal to itself exactly if it is no number)
func (ex *Ex) forder(st *State, x, y *Term) {
	c := ex.c
	le := func(a, b *Term) *Term { return c.App("fle", c.Bool, a, b) }
	xx, yy := ex.feq(x, x), ex.feq(y, y)
	st.assume(c.Eq(ex.feq(x, y), c.And(le(x, y), le(y, x))))
	st.assume(c.Eq(c.Or(le(x, y), le(y, x)), c.And(xx, yy)))
}

// twos complement reading of an unsigned value
func (ex *Ex) twos(t *Term, bits int) *Term {
	c := ex.c
	h := c.BigLit(pow2(bits - 1))
	return c.Sub(c.Mod(c.Add(t, h), c.BigLit(pow2(bits))), h)
}

type arrival struct {
	st *State
	fr *Frame
}

// mergeRegion runs both branches of an if up to the block where they meet again and continues there once.
func (ex *Ex) mergeRegion(st *State, fr *Frame, b *ssa.BasicBlock, cond *Term, k K) bool {
	var join *ssa.BasicBlock
	for _, d := range b.Dominees() {
		if len(d.Preds) >= 2 {
			if join != nil {
				return false
			}
			join = d
		}
	}
	if join == nil {
		// both branches go on at the head of an unrolled loop
		for _, x := range b.Succs {
			for _, l := range fr.loops.list {
				if l.blocks[b] && fr.cut[l.header] == nil && (x == l.header || len(x.Succs) == 1 && x.Succs[0] == l.header) {
					join = l.header
				}
			}
		}
	}
	if join == nil || fr.stop[join] != nil {
		return false
	}
	if l := fr.loops.byHeader[join]; l != nil && (fr.cut[join] != nil || !l.blocks[b]) {
		return false
	}
	// the region between may not contain a loop or leave one
	seen := map[*ssa.BasicBlock]bool{join: true}
	var stack []*ssa.BasicBlock
	stack = append(stack, b.Succs...)
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if fr.loops.byHeader[x] != nil {
			return false
		}
		stack = append(stack, x.Succs...)
	}
	for _, l := range fr.loops.list {
		if l.blocks[b] != l.blocks[join] {
			return false
		}
	}
	var arr []arrival
	run := func(s *State, f *Frame, cnd *Term, succ *ssa.BasicBlock) {
		if !s.assume(cnd) {
			return
		}
		f.stop = map[*ssa.BasicBlock]func(*State, *Frame, *ssa.BasicBlock){}
		for k, v := range fr.stop {
			f.stop[k] = v
		}
		f.stop[join] = func(s2 *State, f2 *Frame, prev *ssa.BasicBlock) {
			ex.phis(s2, f2, join, prev)
			arr = append(arr, arrival{s2, f2})
		}
		ex.enter(s, f, succ, b, k)
	}
	run(st.clone(), fr.clone(), cond, b.Succs[0])
	run(st.clone(), fr.clone(), ex.c.Not(cond), b.Succs[1])
	var live []arrival
	for _, a := range arr {
		if !a.st.dead {
			live = append(live, a)
		}
	}
	if len(live) == 0 {
		return true
	}
	goOn := func(s *State, f *Frame) {
		if fr.loops.byHeader[join] != nil && !ex.probeConcrete(s, f, join) {
			unsup("joined paths disagree about the end of an unrolled loop")
		}
		ex.instrs(s, f, join, 0, k)
	}
	m, mf, ok := ex.mergeStates(st, fr, live, join)
	if !ok {
		for _, a := range live {
			a.fr.stop = fr.stop
			goOn(a.st, a.fr)
		}
		return true
	}
	goOn(m, mf)
	return true
}

// joinedArray keeps the joined map contents small: one guarded store if that is what it is, else a name
func (ex *Ex) joinedArray(m *State, joined *Term, get func(i int) *Term, conds []*Term) *Term {
	c := ex.c
	name := func(t *Term) *Term {
		v := c.Fresh("joined", t.Sort)
		m.pc = append(m.pc, c.intern("=", []*Term{v, t}, c.Bool, nil, ""))
		return v
	}
	var st, base *Term
	for i := range conds {
		v := get(i)
		if v.Op == "store" && (st == nil || st == v) {
			st = v
		}
	}
	if st != nil {
		base = st.Args[0]
		var g []*Term
		for i := range conds {
			switch get(i) {
			case st:
				g = append(g, conds[i])
			case base:
			default:
				return name(joined)
			}
		}
		return c.intern("gstore", []*Term{base, st.Args[1], st.Args[2], name(c.Or(g...))}, st.Sort, nil, "")
	}
	return name(joined)
}

// mergeReturns joins the paths of an inlined callee
func (ex *Ex) mergeReturns(st *State, run func(st *State, k K), k K) {
	var arr []arrival
	var rets [][]Val
	dry := ex.dry
	base := st.clone()
	run(st, func(s *State, r []Val) {
		if !s.dead {
			arr = append(arr, arrival{s, &Frame{}})
			rets = append(rets, r)
		}
	})
	if len(arr) == 0 {
		return
	}
	_ = dry
	fr := &Frame{env: map[ssa.Value]Val{}}
	var vals [][]Val
	for i := range rets[0] {
		var col []Val
		for j := range rets {
			col = append(col, rets[j][i])
		}
		vals = append(vals, col)
	}
	out := make([]Val, len(vals))
	m, _, ok := ex.mergeStates2(base, fr, arr, vals, out)
	if !ok {
		for i, a := range arr {
			k(a.st, rets[i])
		}
		return
	}
	k(m, out)
}

func (ex *Ex) mergeStates(st *State, fr *Frame, arr []arrival, join *ssa.BasicBlock) (*State, *Frame, bool) {
	var phis []*ssa.Phi
	var vals [][]Val
	for _, in := range join.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var col []Val
		for _, a := range arr {
			col = append(col, a.fr.env[p])
		}
		phis = append(phis, p)
		vals = append(vals, col)
	}
	out := make([]Val, len(phis))
	m, mf, ok := ex.mergeStates2(st, fr, arr, vals, out)
	if ok {
		for i, p := range phis {
			mf.env[p] = out[i]
		}
	}
	return m, mf, ok
}

// mergeStates2 joins states that continue from st; vals[i] are the values of slot i on each path
func (ex *Ex) mergeStates2(st *State, fr *Frame, arr []arrival, vals [][]Val, out []Val) (*State, *Frame, bool) {
	c := ex.c
	if len(arr) == 1 {
		arr[0].fr.stop = fr.stop
		for i := range vals {
			out[i] = vals[i][0]
		}
		return arr[0].st, arr[0].fr, true
	}
	n := len(arr)
	conds := make([]*Term, n)
	for i, a := range arr {
		conds[i] = c.And(a.st.pc[len(st.pc):]...)
	}
	pick := func(get func(i int) *Term) *Term {
		r := get(n - 1)
		for i := n - 2; i >= 0; i-- {
			v := get(i)
			if v != r {
				r = c.Ite(conds[i], v, r)
			}
		}
		return r
	}
	m, mf := st.clone(), fr.clone()
	for j, col := range vals {
		same, terms := true, true
		for _, v := range col {
			if !sameVal(v, col[0]) {
				same = false
			}
			if _, ok := v.(*Term); !ok {
				terms = false
			}
		}
		if same {
			out[j] = col[0]
		} else if terms {
			out[j] = pick(func(i int) *Term { return col[i].(*Term) })
		} else {
			return nil, nil, false
		}
	}
	for _, a := range arr {
		if a.st.top != st.top || len(a.st.oref) != len(st.oref) || len(a.fr.defers) != len(fr.defers) {
			return nil, nil, false
		}
		for id, v := range a.st.objs {
			if _, base := st.objs[id]; !base {
				m.objs[id] = v
				m.ometa[id] = a.st.ometa[id]
			}
			if a.st.frozen[id] {
				m.frozen[id] = true
			}
		}
		for id, v := range a.st.maps {
			if _, base := st.maps[id]; !base {
				m.maps[id] = v
			}
		}
		for g, v := range a.st.ghost {
			if !sameVal(st.ghost[g], v) {
				return nil, nil, false
			}
		}
		for id, v := range a.st.chans {
			if o := st.chans[id]; o == nil || *o != *v {
				return nil, nil, false
			}
		}
		for g := range a.st.globs {
			st.global(g)
		}
		for s := range a.st.heaps {
			st.heap(s)
		}
	}
	for id := range st.objs {
		m.objs[id] = pick(func(i int) *Term { return arr[i].st.objs[id] })
	}
	for id, ct := range st.maps {
		fs := make([]*Term, len(ct.Sort.Fields))
		for f := range fs {
			fs[f] = pick(func(i int) *Term { return c.Fld(arr[i].st.maps[id], f) })
			if fs[f].Op == "ite" && fs[f].Sort.Kind == KArr {
				fs[f] = ex.joinedArray(m, fs[f], func(i int) *Term { return c.Fld(arr[i].st.maps[id], f) }, conds)
			}
		}
		m.maps[id] = c.Mk(ct.Sort, fs)
	}
	for g := range st.globs {
		m.globs[g] = pick(func(i int) *Term { return arr[i].st.global(g) })
	}
	for s := range st.heaps {
		m.heaps[s] = pick(func(i int) *Term { return arr[i].st.heap(s) })
	}
	m.assume(c.Or(conds...))
	return m, mf, true
}

// pkgOf: the package of a function (an instance of a generic function belongs to the package of the generic one)
func pkgOf(f *ssa.Function) *ssa.Package {
	for f != nil {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o != f {
			f = o
		} else {
			f = f.Parent()
		}
	}
	return nil
}

// chanOf: the channel a value kept in a structure denotes
func (st *State) chanOf(t *Term) *ChanV {
	if t.Op == "chanid" {
		if id, err := strconv.Atoi(t.S); err == nil && st.chans[id] != nil {
			return &ChanV{ID: id}
		}
	}
	return nil
}
