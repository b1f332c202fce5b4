package main

// Parallel parsing of a module (parseModuleMultithreaded and everything it starts).
//
// head(i): the single-threaded parser of the module stands on token i between two blocks. dep(i): blocks opened
// behind the long identifier and not closed up to token i. Assumption on the input: where no block is open the
// parser stands between two blocks (properly nested), and the module has one end.
// Parsers: each gets the tokens behind lo up to hi; lo and hi are heads, the parts follow each other without a
// gap from the long identifier to the end of the module. Between two heads it sends exactly the block that the
// grammar reads there. Collectors: each message ends up in the collection of its kind, under its name.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type mkind struct {
	ty   types.Type
	kw   GKw
	errs bool
}

type modPar struct {
	ex     *Ex
	a      *a2lv
	p      *GParser
	props  []string
	noEnd  bool
	i0     *Term
	S, E   *Term
	kinds  []*mkind
	kindOf map[int]*mkind // channel -> kind
	mod    *Addr          // the module under construction
	modT   types.Type
	fail   *Term
}

// what one goroutine does while its body is executed
type prun struct {
	who    string
	lo, hi *Term
	objs   map[int]bool // objects that exist outside
	chans  map[int]bool // channels that were read
	reads  map[int]bool // objects of the creator that were read
}
type psend struct {
	kind *mkind
	v    *Term
}
type plist struct{ l []psend }
type pset struct{ m map[string]bool }
type psnap struct {
	mod  *Term
	maps map[string]*Term
}

const (
	gRun    = "spec:run"
	gSends  = "spec:sends"
	gAnchor = "spec:head"
	gRecv   = "spec:received"
	gEnd    = "spec:drained"
	gSnap   = "spec:snapshot"
	gLeft   = "spec:left"
	gFlags  = "spec:flags"
)

func (m *modPar) dep(i *Term) *Term  { return m.ex.c.App("mp.depth", m.ex.c.Int, i) }
func (m *modPar) head(i *Term) *Term { return m.ex.c.App("mp.head", m.ex.c.Bool, i) }

func flags(st *State) map[string]bool {
	if s, ok := st.ghost[gFlags].(*pset); ok {
		return s.m
	}
	return nil
}
func setFlag(st *State, n string) {
	m := map[string]bool{n: true}
	for k := range flags(st) {
		m[k] = true
	}
	st.ghost[gFlags] = &pset{m}
}

func run(st *State) *prun {
	r, _ := st.ghost[gRun].(*prun)
	return r
}

func (m *modPar) setup(st *State, fr *Frame, fn *ssa.Function) {
	ex, a, c := m.ex, m.a, m.ex.c
	z, one := c.IntLit(0), c.IntLit(1)
	if len(fn.Params) != 1 || fn.Signature.Results().Len() != 2 {
		unsup("signature of %s", fn.Name())
	}
	m.modT = fn.Signature.Results().At(0).Type()
	m.i0 = a.setup(ex, st, fr)
	if np := a.pkg.Var("numProc"); np != nil {
		st.assume(c.Le(one, st.global(np)))
	}
	m.S, m.E = c.Add(m.i0, c.IntLit(2)), c.Var("E", c.Int)
	m.fail = c.Var("fail", c.Bool)
	end := c.StrLit(m.p.End)
	j := c.Fresh("j", c.Int)
	at := c.At(a.T, j)
	in := c.And(c.Le(z, j), c.Lt(j, a.N))
	if m.noEnd {
		st.assume(c.Forall([]*Term{j}, c.Implies(in, c.Ne(at, end)), at))
	} else {
		st.assume(c.Lt(m.S, m.E))
		st.assume(c.Lt(m.E, c.Sub(a.N, one)))
		st.assume(c.Eq(c.At(a.T, m.E), end))
		st.assume(c.Forall([]*Term{j}, c.Implies(c.And(in, c.Eq(at, end)), c.Eq(j, m.E)), at))
		for k := int64(1); k < 3; k++ {
			st.assume(c.Ne(c.At(a.T, c.Add(m.i0, c.IntLit(k))), end))
		}
	}
	for k := int64(1); k < 3; k++ {
		x := c.Add(m.i0, c.IntLit(k))
		st.assume(c.Implies(c.Lt(x, c.Sub(a.N, one)), c.Ne(c.At(a.T, x), c.StrLit(""))))
	}
	st.assume(c.Forall([]*Term{j}, c.Implies(c.And(in, c.Lt(j, c.Sub(a.N, one))), c.Ne(at, c.StrLit(""))), at))
	pre := func(t *Term, s string) *Term { return c.App("strings.HasPrefix", c.Bool, t, c.StrLit(s)) }
	d := func(t *Term) *Term {
		return c.Ite(pre(t, "/begin "), one, c.Ite(pre(t, "/end "), c.IntLit(-1), z))
	}
	st.assume(c.Forall([]*Term{j}, c.Implies(in, c.Eq(m.dep(j), c.Add(m.dep(c.Sub(j, one)), d(at)))), at))
	st.assume(c.Eq(m.dep(m.S), z))
	st.assume(m.head(m.S))
	if !m.noEnd {
		st.assume(m.head(m.E))
	}
	st.ghost["cover"], st.ghost["spawn"], st.ghost["wadd"], st.ghost["cadd"], st.ghost["cnum"] = m.S, z, z, z, z
	st.ghost["addw"], st.ghost["addc"] = z, z
	// the kinds of blocks
	st.ghost[gFlags] = &pset{map[string]bool{}}
	m.kindOf = map[int]*mkind{}
	seen := map[string]bool{}
	for _, kw := range m.p.Kw {
		np := a.g.parser[kw.Parser]
		t := a.pkg.Type(np.Type)
		if t == nil || seen[np.Type] {
			unsup("type of %s", kw.Tok)
		}
		seen[np.Type] = true
		m.kinds = append(m.kinds, &mkind{ty: t.Type(), kw: kw})
	}
	m.kinds = append(m.kinds, &mkind{ty: types.Universe.Lookup("error").Type(), errs: true, kw: GKw{F: "errors", Tok: "errors"}})
}

func (m *modPar) kindByType(t types.Type) *mkind {
	for _, k := range m.kinds {
		if types.Identical(k.ty, t) {
			return k
		}
	}
	return nil
}

// ---------------------------------------------------------------- goroutines

// classify: what the function does with channels
func (ex *Ex) classify(fn *ssa.Function) (sends, recvs, closes bool) {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || seen[f] || pkgOf(f) == nil {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Send:
					sends = true
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						recvs = true
					}
				case *ssa.MakeClosure:
					rec(x.Fn.(*ssa.Function))
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc := ci.Common()
					if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "close" {
						closes = true
					}
					if g := cc.StaticCallee(); g != nil && pkgOf(g) != nil && strings.HasPrefix(pkgOf(g).Pkg.Path(), "github.com/asap2Go/") && ex.contract[g] == nil || g != nil && g.Parent() != nil {
						rec(g)
					}
				}
			}
		}
	}
	rec(fn)
	return
}

func (m *modPar) started(st *State, fr *Frame, callee *ssa.Function, bind, args []Val, in *ssa.Go) {
	ex, c := m.ex, m.ex.c
	if run(st) != nil {
		unsup("goroutine started by a goroutine")
	}
	if m.noEnd {
		ex.refute(st, m.props, "stopped", "no parser is started without an end of the module", in.Pos())
		return
	}
	if flags(st)["joined"] {
		unsup("goroutine started behind the join")
	}
	sends, recvs, closes := ex.classify(callee)
	body := func(r *prun, fin func(*State)) {
		if ex.dry > 0 {
			return
		}
		s2 := st.clone()
		r.objs = map[int]bool{}
		for id := range s2.objs {
			r.objs[id] = true
		}
		r.chans = map[int]bool{}
		s2.ghost[gRun] = r
		s2.ghost[gSends] = &plist{}
		s2.ghost[gRecv] = &plist{}
		s2.ghost["spec:dones"] = 0
		s2.ghost["spec:waited"] = false
		s2.ghost[gEnd] = false
		r.reads = map[int]bool{}
		ex.callFn(s2, fr, callee, bind, args, in, func(s3 *State, _ *Frame, _ []Val) {
			if s3.dead {
				return
			}
			fin(s3)
		})
		for id := range r.reads {
			setFlag(st, fmt.Sprintf("shared:%d", id))
		}
	}
	done := func(s3 *State, want int, wg string) {
		if s3.ghost["spec:dones"] != want {
			ex.refute(s3, m.props, "done-once", fmt.Sprintf("a %s reports its end once (%v)", wg, s3.ghost["spec:dones"]), in.Pos())
		}
	}
	switch {
	case sends && !recvs && !closes:
		var n []*Term
		for i, p := range callee.Params {
			if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
				n = append(n, st.norm(st.term(args[i])))
			}
		}
		for _, b := range bind { // captured variables
			a, ok := b.(*Addr)
			if !ok || a.Kind != 'o' || len(a.Path) != 0 {
				continue
			}
			if _, isRef := st.ghost[fmt.Sprintf("cell:%d", a.Obj)]; isRef {
				continue
			}
			if v := st.load(a); v.Sort == c.Int {
				n = append(n, st.norm(v))
			}
		}
		if len(n) < 2 {
			unsup("the part of the tokens of a parser")
		}
		lo, hi := n[len(n)-2], n[len(n)-1]
		ex.oblige(st, m.props, "part-start", "a parser starts where the one before ends", in.Pos(), c.Eq(lo, g(st, "cover")))
		ex.oblige(st, m.props, "part", "the part lies within the module", in.Pos(), c.And(c.Le(lo, hi), c.Le(hi, m.E)))
		st.assume(c.Implies(c.And(c.Le(m.S, hi), c.Le(hi, m.E), c.Le(m.dep(hi), c.IntLit(0))), m.head(hi)))
		ex.oblige(st, m.props, "part-border", "no part starts or ends inside a block", in.Pos(), m.head(hi))
		st.ghost["cover"] = hi
		st.ghost["spawn"] = c.Add(g(st, "spawn"), c.IntLit(1))
		ex.oblige(st, m.props, "wait-count", "the wait group counts the parser before it starts", in.Pos(), c.Le(g(st, "spawn"), g(st, "wadd")))
		body(&prun{who: "parser", lo: lo, hi: hi}, func(s3 *State) {
			m.matched(s3, true, in.Pos())
			done(s3, 1, "parser")
		})
	case recvs && !sends && !closes:
		st.ghost["cnum"] = c.Add(g(st, "cnum"), c.IntLit(1))
		m.findModule(st)
		r := &prun{who: "collector"}
		if ex.dry > 0 {
			unsup("collectors started in a loop")
		}
		m.snap(st)
		body(r, func(s3 *State) {
			if s3.ghost[gEnd] != true {
				ex.refute(s3, m.props, "drains", "a collector reads its channel until it is closed", in.Pos())
				return
			}
			m.stored(s3, in.Pos())
			done(s3, 1, "collector")
		})
		for id := range r.chans {
			n := "collected:" + m.kindOf[id].kw.F
			if flags(st)[n] {
				ex.refute(st, m.props, "no-race", "one collector per kind", in.Pos())
				return
			}
			m.empty(st, m.kindOf[id], in.Pos())
			setFlag(st, n)
		}
	case closes && !sends && !recvs:
		r := &prun{who: "closer"}
		first := true
		var left []string
		body(r, func(s3 *State) {
			done(s3, 0, "closer")
			var l []string
			for id, k := range m.kindOf {
				if s3.chans[id] != nil && s3.chans[id].Closed {
					l = append(l, k.kw.F)
				}
			}
			sort.Strings(l)
			if !first && strings.Join(l, ",") != strings.Join(left, ",") {
				unsup("channels closed on some paths only")
			}
			first, left = false, l
		})
		for _, f := range left {
			if flags(st)["closed:"+f] {
				ex.refute(st, m.props, "no-double-close", "close of a closed channel", in.Pos())
				return
			}
			setFlag(st, "closed:"+f)
		}
	default:
		unsup("goroutine that both sends and receives")
	}
}

func (m *modPar) event(st *State, kind string, args []Val, pos token.Pos) {
	ex, c := m.ex, m.ex.c
	r := run(st)
	wg := func() string {
		a, ok := args[0].(*Addr)
		if !ok || a.Kind != 'o' || len(a.Path) > 0 {
			unsup("WaitGroup that is no local variable")
		}
		return itoa(a.Obj)
	}
	switch kind {
	case "alloc:WaitGroup":
		if r != nil {
			unsup("wait group of a goroutine")
		}
		id := itoa(args[0].(*Addr).Obj)
		switch {
		case st.ghost["spec:wgw"] == nil:
			st.ghost["spec:wgw"] = id
		case st.ghost["spec:wgc"] == nil:
			st.ghost["spec:wgc"] = id
		default:
			unsup("more than two wait groups")
		}
	case "(*sync.WaitGroup).Add":
		if r != nil {
			unsup("Add inside a goroutine")
		}
		n := m.groupGhost(st, wg())
		st.ghost[n] = c.Add(g(st, n), st.term(args[1]))
	case "(*sync.WaitGroup).Done":
		if r == nil {
			unsup("Done of the caller")
		}
		want := map[string]string{"parser": "wadd", "collector": "cadd"}[r.who]
		if n := m.groupGhost(st, wg()); n != want {
			ex.refute(st, m.props, "done-once", "a "+r.who+" reports its end to its own wait group", pos)
			return
		}
		st.ghost["spec:dones"] = st.ghost["spec:dones"].(int) + 1
	case "(*sync.WaitGroup).Wait":
		n := m.groupGhost(st, wg())
		if r != nil {
			if r.who != "closer" || n != "wadd" {
				unsup("a %s waits", r.who)
			}
			st.ghost["spec:waited"] = true
			return
		}
		if n == "wadd" {
			ex.oblige(st, m.props, "wait-ends", "as many parsers are started as the wait group counts", pos, c.Eq(g(st, "wadd"), g(st, "spawn")))
			m.all(st, "collected:", "no-block", "a kind of block nobody collects", pos)
			setFlag(st, "waited")
			return
		}
		m.join(st, pos)
	case "send":
		if r == nil || r.who != "parser" {
			unsup("unexpected send")
		}
		if st.ghost["spec:dones"] != 0 {
			ex.refute(st, m.props, "done-is-last", "nothing is sent behind Done", pos)
			return
		}
		k := m.kindOf[args[0].(*ChanV).ID]
		if k == nil {
			ex.refute(st, m.props, "message", "message on a channel of no kind of block", pos)
			return
		}
		l := st.ghost[gSends].(*plist).l
		st.ghost[gSends] = &plist{append(append([]psend(nil), l...), psend{k, st.norm(st.term(args[1]))})}
	case "close":
		ch, ok := args[0].(*ChanV)
		if !ok || m.kindOf[ch.ID] == nil {
			return
		}
		if r == nil {
			if !flags(st)["waited"] {
				ex.refute(st, m.props, "close-after-parsers", "a channel is closed behind the end of the parsers", pos)
				return
			}
			if flags(st)["closed:"+m.kindOf[ch.ID].kw.F] {
				ex.refute(st, m.props, "no-double-close", "close of a closed channel", pos)
				return
			}
			setFlag(st, "closed:"+m.kindOf[ch.ID].kw.F)
			return
		}
		if st.ghost["spec:waited"] != true {
			ex.refute(st, m.props, "close-after-parsers", "a channel is closed behind the end of the parsers", pos)
		}
	case "len":
		if ch, ok := args[0].(*ChanV); ok && m.kindOf[ch.ID] != nil {
			unsup("length of a channel")
		}
	}
}

// the group of the parsers is the one whose Done they call: the first two groups are told apart at their first use
func (m *modPar) groupGhost(st *State, id string) string {
	if st.ghost["spec:wgc"] == id {
		return "cadd"
	}
	if st.ghost["spec:wgw"] == id {
		return "wadd"
	}
	unsup("unknown wait group")
	return ""
}

func (m *modPar) all(st *State, pre, name, detail string, pos token.Pos) {
	for _, k := range m.kinds {
		if st.dead {
			return
		}
		m.ex.oblige(st, m.props, name, detail+": "+k.kw.F, pos, m.ex.c.BoolLit(flags(st)[pre+k.kw.F]))
	}
}

// join: the caller waits for the collectors
func (m *modPar) join(st *State, pos token.Pos) {
	ex, c := m.ex, m.ex.c
	ex.oblige(st, m.props, "wait-ends", "as many collectors are started as the wait group counts", pos, c.Eq(g(st, "cadd"), g(st, "cnum")))
	ex.oblige(st, m.props, "wait-ends", "as many parsers are started as the wait group counts", pos, c.Eq(g(st, "wadd"), g(st, "spawn")))
	ex.oblige(st, m.props, "covered", "the parts reach the end of the module", pos, c.Eq(g(st, "cover"), m.E))
	m.all(st, "collected:", "collected", "every kind of block is collected", pos)
	m.all(st, "closed:", "closed", "every channel is closed behind the end of the parsers", pos)
	if st.dead {
		return
	}
	setFlag(st, "joined")
	m.findModule(st)
	for _, k := range m.kinds {
		f := m.fieldAddr(k)
		v := st.norm(st.load(f))
		if k.kw.Mode == "map" {
			id, mt := m.mapID(st, k)
			st.maps[id] = c.Var("col:"+k.kw.F, ex.mapSort(mt))
			continue
		}
		x := c.Var("col:"+k.kw.F, v.Sort)
		st.store(f, x)
		if k.errs {
			st.assume(c.Eq(m.fail, c.Lt(c.IntLit(0), c.Len(x))))
			st.assume(ex.every(false, c.IntLit(0), c.Len(x), func(j *Term) (*Term, *Term) { return c.Ne(c.At(x, j), c.NilI), c.At(x, j) }))
		}
	}
}

// ---------------------------------------------------------------- the module under construction

func (m *modPar) findModule(st *State) {
	if m.mod != nil && st.objs[m.mod.Obj] != nil {
		return
	}
	best := 0
	for id := range st.objs {
		if types.Identical(st.ometa[id].Type, m.modT) && (best == 0 || id < best) {
			best = id
		}
	}
	if best == 0 {
		unsup("no module under construction")
	}
	m.mod = &Addr{Kind: 'o', Obj: best}
}

func (m *modPar) fieldIdx(f string) int {
	s := m.modT.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return i
		}
	}
	unsup("type Module has no field %s any more", f)
	return 0
}

func (m *modPar) fieldAddr(k *mkind) *Addr { return m.mod.ext(PE{F: m.fieldIdx(k.kw.F)}) }

func (m *modPar) mapID(st *State, k *mkind) (int, *types.Map) {
	mt, ok := m.modT.Underlying().(*types.Struct).Field(m.fieldIdx(k.kw.F)).Type().Underlying().(*types.Map)
	if !ok {
		unsup("field %s is no map any more", k.kw.F)
	}
	v := st.norm(st.load(m.fieldAddr(k)))
	if v.Op != "mapid" {
		m.ex.refute(st, m.props, "collection-exists", "the collection "+k.kw.F+" is created before it is filled", token.NoPos)
		return 0, mt
	}
	id := 0
	fmt.Sscan(v.S, &id)
	return id, mt
}

func (m *modPar) content(st *State, k *mkind) *Term {
	if k.kw.Mode == "map" {
		id, _ := m.mapID(st, k)
		if st.dead {
			return nil
		}
		return st.maps[id]
	}
	return st.norm(st.load(m.fieldAddr(k)))
}

func (m *modPar) snap(st *State) {
	s := &psnap{maps: map[string]*Term{}}
	for _, k := range m.kinds {
		s.maps[k.kw.F] = m.content(st, k)
		if st.dead {
			return
		}
	}
	s.mod = st.load(m.mod)
	st.ghost[gSnap] = s
}

func (m *modPar) empty(st *State, k *mkind, pos token.Pos) {
	ex, c := m.ex, m.ex.c
	v := m.content(st, k)
	if st.dead {
		return
	}
	want := ex.zero(m.modT.Underlying().(*types.Struct).Field(m.fieldIdx(k.kw.F)).Type())
	if k.kw.Mode == "map" {
		_, mt := m.mapID(st, k)
		want = ex.emptyMap(mt)
	}
	ex.oblige(st, m.props, "starts-empty", k.kw.F+" is empty before its first block", pos, c.Eq(v, want))
}

// stored: what was received since the snapshot is in the module, nothing else changed
func (m *modPar) stored(st *State, pos token.Pos) {
	ex, c := m.ex, m.ex.c
	s, ok := st.ghost[gSnap].(*psnap)
	if !ok {
		unsup("no snapshot")
	}
	l := st.ghost[gRecv].(*plist).l
	for _, k := range m.kinds {
		want := s.maps[k.kw.F]
		for _, x := range l {
			if x.kind != k {
				continue
			}
			switch {
			case k.errs:
				want = c.Cat(want, c.Unit(x.v))
			case k.kw.Mode == "map":
				want = m.a.mapAdd(want, ex.fld(x.v, k.kw.Key), x.v)
			default:
				want = x.v
			}
		}
		got := m.content(st, k)
		if st.dead {
			return
		}
		if got != want {
			ex.oblige(st, m.props, "collects:"+k.kw.F, "every block of the kind is stored under its name, nothing else", pos, c.Eq(got, want))
		}
	}
	ex.oblige(st, m.props, "collects", "what is received is stored", pos, c.T)
}

func (m *modPar) access(st *State, a *Addr, write bool, pos token.Pos) {
	r := run(st)
	if m.mod != nil && a.Obj == m.mod.Obj {
		if r == nil {
			if flags(st)["joined"] || !m.anyCollector(st) {
				return
			}
			m.ex.refute(st, m.props, "no-race", "the caller uses the module while it is filled", pos)
			return
		}
		if len(a.Path) == 0 {
			m.ex.refute(st, m.props, "no-race", "a goroutine uses the whole module", pos)
			return
		}
		if r.who != "collector" {
			m.ex.refute(st, m.props, "no-race", "a "+r.who+" uses the module", pos)
			return
		}
		for id := range r.chans {
			if m.fieldIdx(m.kindOf[id].kw.F) == a.Path[0].F {
				return
			}
		}
		m.ex.refute(st, m.props, "no-race", "a collector uses the collection of another kind", pos)
		return
	}
	if r == nil && write && flags(st)[fmt.Sprintf("shared:%d", a.Obj)] && !flags(st)["joined"] {
		m.ex.refute(st, m.props, "no-race", "a variable is changed while a goroutine uses it", pos)
	}
	if r != nil && r.objs[a.Obj] {
		r.reads[a.Obj] = true
	}
	if r != nil && write && r.objs[a.Obj] {
		m.ex.refute(st, m.props, "no-race", "a goroutine writes to a variable of its creator", pos)
	}
}

func (m *modPar) anyCollector(st *State) bool {
	for f := range flags(st) {
		if strings.HasPrefix(f, "collected:") {
			return true
		}
	}
	return false
}

func (m *modPar) received(st *State, fr *Frame, in *ssa.UnOp, ch *ChanV, k func(*State, *Frame, Val)) bool {
	ex, c := m.ex, m.ex.c
	r := run(st)
	kd := m.kindOf[ch.ID]
	if r == nil || kd == nil {
		return false
	}
	r.chans[ch.ID] = true
	if len(r.chans) > 1 {
		unsup("a collector of several kinds")
	}
	if st.ghost[gEnd] == true {
		unsup("receive behind the end of the channel")
	}
	s2, f2 := st.clone(), fr.clone()
	v := c.Fresh("msg", ex.sortOf(kd.ty))
	ex.noteType(v, kd.ty)
	if kd.errs {
		st.assume(c.Ne(v, c.NilI))
	}
	l := st.ghost[gRecv].(*plist).l
	st.ghost[gRecv] = &plist{append(append([]psend(nil), l...), psend{kd, v})}
	s2.ghost[gEnd] = true
	zero := ex.zero(kd.ty)
	if in.CommaOk {
		k(st, fr, Tuple{v, c.T})
		k(s2, f2, Tuple{zero, c.F})
		return true
	}
	k(st, fr, v)
	k(s2, f2, zero)
	return true
}

// ---------------------------------------------------------------- the parsers

func (m *modPar) cursor(st *State) *Term {
	best := 0
	tt := m.a.pkg.Type("tokenGenerator").Type()
	for id := range st.objs {
		if types.Identical(st.ometa[id].Type, tt) && !run(st).objs[id] && (best == 0 || id < best) {
			best = id
		}
	}
	if best == 0 {
		unsup("a parser without a cursor of its own")
	}
	return st.norm(st.load(m.a.tokAddr(st, &Addr{Kind: 'o', Obj: best})))
}

// matched: the messages since the last head are those of the blocks the parser has passed
func (m *modPar) matched(st *State, final bool, pos token.Pos) {
	a, ex, c := m.a, m.ex, m.ex.c
	r := run(st)
	from, ok := st.ghost[gAnchor].(*Term)
	if !ok {
		from = r.lo
	}
	idx := m.cursor(st)
	got := st.ghost[gSends].(*plist).l
	compare := func(st *State, want []psend) bool {
		if len(got) != len(want) {
			ex.refute(st, m.props, "messages", fmt.Sprintf("one message per block: %d instead of %d", len(got), len(want)), pos)
			return false
		}
		for i, w := range want {
			if got[i].kind != w.kind {
				ex.refute(st, m.props, "message-kind", "block "+w.kind.kw.Tok+" is sent as "+got[i].kind.kw.Tok, pos)
				return false
			}
			ex.oblige(st, m.props, "message", "the block that was read is sent: "+w.kind.kw.Tok, pos, c.Eq(got[i].v, w.v))
		}
		return true
	}
	var sim func(st *State, i *Term, n int, want []psend)
	sim = func(st *State, i *Term, n int, want []psend) {
		if st.dead {
			return
		}
		atHi := st.decide(st.norm(c.Le(r.hi, i)))
		if (n > 0 || final) && st.decide(st.norm(c.Eq(i, idx))) == 1 && (!final || atHi != -1) {
			if final {
				ex.oblige(st, m.props, "whole-part", "a parser goes on to the end of its part", pos, c.Le(r.hi, i))
			}
			compare(st, want)
			if !st.dead {
				ex.oblige(st, m.props, "messages", "every block of the part is sent once", pos, c.T)
				if !final {
					ex.oblige(st, m.props, "invariant:head", "a parser stands between two blocks", pos, c.And(m.head(idx), c.Le(idx, r.hi)))
				}
			}
			return
		}
		if n > 3 || atHi == 1 {
			ex.refute(st, m.props, "cursor", "the parser is not where the blocks end", pos)
			return
		}
		ex.oblige(st, m.props, "within-part", "a parser reads blocks of its part only", pos, c.Lt(i, r.hi))
		if st.dead {
			return
		}
		j := c.Add(i, c.IntLit(1))
		st.assume(c.Lt(j, a.N))
		t := a.tokAt(st, j)
		next := func(st *State, e *Term, want []psend) {
			st.assume(c.Implies(m.head(i), c.And(m.head(e), c.Le(e, r.hi))))
			sim(st, e, n+1, want)
		}
		var kws func(st *State, q int)
		kws = func(st *State, q int) {
			if q == len(m.p.Kw) {
				next(st, j, want)
				return
			}
			kd := m.kinds[q]
			a.fork(st, c.Eq(t, c.StrLit(kd.kw.Tok)), func(st *State) {
				a.nested(st, kd.kw.Parser, j, func(st *State, v, e *Term) {
					next(st, e, append(append([]psend(nil), want...), psend{kd, v}))
				}, func(st *State) {
					if !final {
						ex.refute(st, m.props, "stops", "a parser stops at a block that cannot be read", pos)
						return
					}
					if len(got) <= len(want) {
						ex.refute(st, m.props, "error-sent", "a block that cannot be read is an error of the module: "+kd.kw.Tok, pos)
						return
					}
					for _, x := range got[len(want):] {
						if !x.kind.errs {
							ex.refute(st, m.props, "message", "a block that cannot be read is not sent", pos)
							return
						}
						ex.oblige(st, m.props, "error-sent", "the error is not nil", pos, c.Ne(x.v, c.NilI))
					}
					rest := got
					got = got[:len(want)]
					compare(st, want)
					got = rest
				})
			}, func(st *State) { kws(st, q+1) })
		}
		kws(st, 0)
	}
	sim(st, from, 0, nil)
}

// ---------------------------------------------------------------- loops

func (m *modPar) loop(lr *LoopRun, fn *ssa.Function) *LoopSpec {
	ex, c := m.ex, m.ex.c
	r := run(lr.entryS)
	pos := lr.l.header.Instrs[0].Pos()
	if r != nil && r.who == "parser" {
		return &LoopSpec{
			Havoc: func(st *State, fr *Frame) {
				i := m.cursor(st)
				st.assume(c.And(c.Le(m.S, i), c.Le(i, r.hi), m.head(i)))
				st.ghost[gAnchor] = i
				st.ghost[gSends] = &plist{}
			},
			Arrive: func(st *State, fr *Frame, back bool) {
				if !back {
					ex.obligeOnly(st, m.props, "invariant:first", "a parser starts at the start of its part", pos, c.Eq(m.cursor(st), r.lo))
					if len(st.ghost[gSends].(*plist).l) > 0 {
						ex.refute(st, m.props, "messages", "a message before the first block", pos)
					}
					return
				}
				m.matched(st.clone(), false, pos)
			},
			Part: func(leaf string) bool { return false },
		}
	}
	if r != nil && r.who == "collector" {
		return &LoopSpec{
			Havoc: func(st *State, fr *Frame) {
				st.ghost[gRecv] = &plist{}
				m.snap(st)
			},
			Arrive: func(st *State, fr *Frame, back bool) {
				if st.ghost[gEnd] == true {
					unsup("a collector goes on behind the end of its channel")
				}
				m.stored(st.clone(), pos)
			},
		}
	}
	if r != nil {
		return nil
	}
	z := c.IntLit(0)
	sp := &LoopSpec{CandProps: m.props}
	sp.Arrive = func(st *State, fr *Frame, back bool) {
		if !back {
			return
		}
		for l := range lr.mod { // started in one round, changed in the next
			if p := strings.Split(l, ":"); p[0] == "obj" && flags(st)["shared:"+p[1]] {
				ex.refute(st, m.props, "no-race", "a variable is changed while a goroutine uses it", pos)
				return
			}
		}
	}
	sp.Part = func(leaf string) bool {
		v := lr.get(lr.entryS, lr.entryF, leaf)
		return v != nil && v.Sort == c.Bool
	}
	sp.Cands = func(st *State, fr *Frame, q func(string, *Term)) {
		type lf struct {
			n    string
			v, e *Term
		}
		var ints []lf
		set, nb := z, 0
		strs := map[string]*Term{}
		for _, l := range sortLeaves(lr.mod) {
			v := lr.get(st, fr, l)
			e := lr.get(lr.entryS, lr.entryF, l)
			if v != nil && v.Sort == c.Bool && strings.HasPrefix(l, "obj:") {
				nb++
				set = c.Add(set, c.Ite(v, c.IntLit(1), z))
			}
			if v != nil && v.Sort == c.Str {
				strs[l] = v
			}
			if v == nil || e == nil || v.Sort != c.Int || l == "top" {
				continue
			}
			ints = append(ints, lf{l, v, e})
		}
		cov, sp := g(st, "cover"), g(st, "spawn")
		spawns := lr.mod["ghost:spawn"]
		if spawns {
			q("the started parsers reach a token of the module", c.And(c.Le(m.S, cov), c.Le(cov, m.E)))
			q("the started parsers end between two blocks", m.head(cov))
			q("no block is open behind the started parsers", c.Or(c.Eq(cov, m.E), c.Le(m.dep(cov), z)))
			q("the last parser ends at the end of the module", c.Implies(c.Eq(sp, g(st, "wadd")), c.Eq(cov, m.E)))
			q("no parser too many", c.Le(sp, g(st, "wadd")))
			q("every counted parser is started", c.Eq(sp, g(st, "wadd")))
			if np := m.a.pkg.Var("numProc"); np != nil {
				n := st.global(np)
				q("the last of numProc parsers ends at the end of the module", c.Implies(c.Eq(sp, n), c.Eq(cov, m.E)))
				q("at most numProc parsers", c.Le(sp, n))
			}
		}
		for _, x := range ints {
			if strings.HasPrefix(x.n, "ghost:") {
				continue
			}
			if nb > 0 {
				q(x.n+" = start + parameters read", c.Eq(x.v, c.Add(x.e, set)))
				for _, l := range sortedKeys(strs) {
					for k := int64(1); k < 3; k++ {
						q(fmt.Sprintf("%s = token %d behind %s", l, k, x.n), c.Implies(c.Le(c.IntLit(k), set), c.Eq(strs[l], c.At(m.a.T, c.Add(x.e, c.IntLit(k))))))
					}
				}
			}
			q(x.n+" does not fall", c.Le(x.e, x.v))
			q(x.n+" does not grow", c.Le(x.v, x.e))
			q(x.n+" < tokens", c.Lt(x.v, m.a.N))
			if !m.noEnd {
				q(x.n+" <= end of the module", c.Le(x.v, m.E))
				q(x.n+" < end of the module", c.Lt(x.v, m.E))
			}
			if spawns {
				q(x.n+" = covered", c.Eq(x.v, cov))
				q(x.n+" = started", c.Eq(x.v, sp))
				q(x.n+" = start + started", c.Eq(x.v, c.Add(x.e, sp)))
				q(x.n+" = start - started", c.Eq(x.v, c.Sub(x.e, sp)))
			}
			for _, y := range ints {
				if y.n == x.n || strings.HasPrefix(y.n, "ghost:") {
					continue
				}
				q(y.n+" = depth at "+x.n, c.Eq(y.v, c.Sub(m.dep(x.v), m.dep(x.e))))
				if !m.noEnd {
					q(y.n+" = end if above "+x.n, c.Ite(c.Lt(x.v, m.E), c.Eq(y.v, m.E), c.Eq(y.v, y.e)))
					q(y.n+" = end if below "+x.n, c.Ite(c.Lt(m.E, x.v), c.Eq(y.v, m.E), c.Eq(y.v, y.e)))
					q(y.n+" = end if not above "+x.n, c.Ite(c.Le(m.E, x.v), c.Eq(y.v, m.E), c.Eq(y.v, y.e)))
				}
			}
		}
	}
	return sp
}

// ---------------------------------------------------------------- the contract

func modParContract(w *Worker, noEnd bool, props []string) *Contract {
	if w.pkgs["a2l"] == nil {
		return nil
	}
	fn := pkgFunc(w.pkgs["a2l"], "parseModuleMultithreaded")
	if fn == nil {
		return nil
	}
	p := w.g.parser["parseModule"]
	m := &modPar{ex: w.ex, a: w.a2, p: p, props: props, noEnd: noEnd}
	ct := &Contract{Fn: fn, Props: props, Safe: props, Cover: true}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) { m.setup(st, fr, fn) }
	ct.GoHook = func(ex *Ex, st *State, fr *Frame, callee *ssa.Function, args []Val, in *ssa.Go) bool {
		var bind []Val
		if cl, ok := ex.val(st, fr, in.Call.Value).(*Closure); ok {
			bind = cl.Bind
		}
		m.started(st, fr, callee, bind, args, in)
		return true
	}
	ct.OnEvent = func(ex *Ex, st *State, kind string, args ...Val) { m.event(st, kind, args, fn.Pos()) }
	ct.OnObj = func(ex *Ex, st *State, a *Addr, write bool, pos token.Pos) { m.access(st, a, write, pos) }
	ct.ChanHook = func(ex *Ex, st *State, fr *Frame, in *ssa.MakeChan) Val {
		el := in.Type().Underlying().(*types.Chan).Elem()
		k := m.kindByType(el)
		v := ex.makeChan(st, el, in.Name(), in)
		if k == nil {
			return v
		}
		for id, o := range m.kindOf {
			if o == k && st.chans[id] != nil {
				unsup("two channels for %s", k.kw.Tok)
			}
		}
		m.kindOf[v.(*ChanV).ID] = k
		return v
	}
	ct.ChanRecv = func(ex *Ex, st *State, fr *Frame, in *ssa.UnOp, ch *ChanV, k func(*State, *Frame, Val)) bool {
		return m.received(st, fr, in, ch, k)
	}
	ct.Loop = func(ex *Ex, lr *LoopRun) *LoopSpec { return m.loop(lr, fn) }
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		e := isErr(c, st, rets[1])
		if noEnd {
			ex.oblige(st, props, "rejected", "a module without an end is rejected", fn.Pos(), e)
			return
		}
		if !flags(st)["joined"] {
			ex.refute(st, props, "joined", "the result is returned behind the end of all parsers and collectors", fn.Pos())
			return
		}
		ex.oblige(st, props, "rejected", "an error in a block is an error of the module", fn.Pos(), c.Implies(m.fail, e))
		ex.oblige(st, props, "accepted", "no other error", fn.Pos(), c.Implies(e, m.fail))
		ex.oblige(st, props, "cursor", "the parser goes on behind the end of the module", fn.Pos(), c.Or(e, c.Eq(m.a.curIdx(st), m.E)))
		v := st.term(rets[0])
		fld := func(n string) *Term { return st.norm(ex.fld(v, n)) }
		ex.oblige(st, props, "name", "name and long identifier of the module", fn.Pos(), c.Or(e, c.And(
			c.Eq(fld("Name"), c.At(m.a.T, c.Add(m.i0, c.IntLit(1)))), fld("nameSet"),
			c.Eq(fld("longIdentifier"), c.At(m.a.T, c.Add(m.i0, c.IntLit(2)))), fld("longIdentifierSet"))))
		for _, k := range m.kinds {
			if k.errs || st.dead {
				continue
			}
			got := fld(k.kw.F)
			want := c.Var("col:"+k.kw.F, got.Sort)
			if k.kw.Mode == "map" {
				mt := m.modT.Underlying().(*types.Struct).Field(m.fieldIdx(k.kw.F)).Type().Underlying().(*types.Map)
				got = ex.mapContent(st, got, mt)
				want = c.Var("col:"+k.kw.F, ex.mapSort(mt))
			}
			ex.oblige(st, props, "content:"+k.kw.F, "what was collected is returned", fn.Pos(), c.Or(e, c.Eq(got, want)))
		}
	}
	return ct
}

func modParUnits() []*Unit {
	props := []string{"P13"}
	var us []*Unit
	for _, noEnd := range []bool{false, true} {
		noEnd := noEnd
		n := "a2l.parseModuleMultithreaded"
		if noEnd {
			n += ":unterminated"
		}
		u := contractUnit(n, props, func(w *Worker) *Contract { return modParContract(w, noEnd, props) })
		us = append(us, u)
	}
	return append(us, modLemmaUnit(props))
}

// modLemmaUnit: what the parser contract assumes of the places between two blocks. at(k): where the single-threaded
// parser stands behind k blocks (or other tokens) of the module, head(i) iff i = at(k) for some k.
func modLemmaUnit(props []string) *Unit {
	name := "lemma.module"
	return &Unit{Name: name, Props: props, Run: func(wk *Worker) []*Oblig {
		ex := wk.ex
		c := ex.c
		n0 := len(ex.obs)
		l := &lemmas{ex, props, name}
		z, one := c.IntLit(0), c.IntLit(1)
		at := func(k *Term) *Term { return c.App("mp.at", c.Int, k) }
		V := func(n string) *Term { return c.Fresh(n, c.Int) }
		a, b, i, j, x, y := V("a"), V("b"), V("i"), V("j"), V("x"), V("y")
		grows := func(k *Term) *Term { return c.Lt(at(k), at(c.Add(k, one))) }
		l.prove("heads:monotone:start", "at does not fall (base)", c.Le(at(a), at(a)))
		l.prove("heads:monotone:step", "at does not fall (step)", c.Le(at(a), at(c.Add(b, one))), c.Le(z, a), c.Le(a, b), c.Le(at(a), at(b)), grows(b))
		mono := c.Forall([]*Term{x, y}, c.Implies(c.And(c.Le(z, x), c.Le(x, y)), c.Le(at(x), at(y))), at(x), at(y))
		l.prove("heads:next", "the next place between two blocks is not behind any later one", c.Le(at(c.Add(i, one)), at(j)),
			c.Le(z, i), c.Le(z, j), c.Lt(at(i), at(j)), mono)
		// inserting blocks of different names: the order does not matter
		m0, k1, k2, v1, v2 := c.Var("m", c.ArrOf(c.Str, c.Int)), c.Var("k1", c.Str), c.Var("k2", c.Str), V("v1"), V("v2")
		k := c.Var("k", c.Str)
		ins := func(m, k, v *Term) *Term { return c.Store(m, k, v) }
		l.prove("collect:order", "blocks of different names can be filed in any order", c.Eq(c.Select(ins(ins(m0, k1, v1), k2, v2), k), c.Select(ins(ins(m0, k2, v2), k1, v1), k)), c.Ne(k1, k2))
		return ex.obs[n0:]
	}}
}
