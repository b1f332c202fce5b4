package main

// Loop cutting: modified locations are discovered, havocked and constrained by the loop contract.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
	ifOps  map[ssa.Value]bool
}
type Loops struct {
	byHeader map[*ssa.BasicBlock]*Loop
	list     []*Loop
}

func (ex *Ex) loopsOf(fn *ssa.Function) *Loops {
	if l, ok := ex.loopMemo[fn]; ok {
		return l
	}
	ls := &Loops{byHeader: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := ls.byHeader[h]
				if l == nil {
					l = &Loop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}, ifOps: map[ssa.Value]bool{}}
					ls.byHeader[h] = l
					ls.list = append(ls.list, l)
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	sort.Slice(ls.list, func(i, j int) bool { return ls.list[i].header.Index < ls.list[j].header.Index })
	for i, l := range ls.list {
		l.ord = i
		if iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); ok {
			var mark func(v ssa.Value, d int)
			mark = func(v ssa.Value, d int) {
				l.ifOps[v] = true
				if d > 3 {
					return
				}
				if bo, ok := v.(*ssa.BinOp); ok {
					mark(bo.X, d+1)
					mark(bo.Y, d+1)
				}
			}
			mark(iff.Cond, 0)
		}
	}
	ex.loopMemo[fn] = ls
	return ls
}

type LoopRun struct {
	ex      *Ex
	l       *Loop
	k       K
	dry     bool
	mod     map[string]bool
	grew    *bool
	noInt   bool
	keys    map[string]bool
	nkeys   *int
	entryS  *State
	entryF  *Frame
	base    *State // header state of this partition
	baseF   *Frame
	spec    *LoopSpec
	objects map[int]bool
}

func (lr *LoopRun) phis() []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range lr.l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return r
}

func (ex *Ex) arrive(st *State, fr *Frame, l *Loop, prev *ssa.BasicBlock, k K) {
	h := l.header
	if lr := fr.cut[h]; lr != nil && l.blocks[prev] {
		// leaving inner loops
		for g, o := range fr.cut {
			if g != h && !fr.loops.byHeader[g].blocks[h] {
				if o.dry {
					return
				}
				delete(fr.cut, g)
			}
		}
		ex.phis(st, fr, h, prev)
		if ex.leaves(st, fr, l) {
			if !lr.dry {
				delete(fr.cut, h)
				ex.instrs(st, fr, h, 0, lr.k)
			}
			return
		}
		lr.back(st, fr)
		return
	}
	for g, o := range fr.cut {
		if g == h || !fr.loops.byHeader[g].blocks[h] {
			if o.dry {
				return
			}
			delete(fr.cut, g)
		}
	}
	ex.phis(st, fr, h, prev)
	if ex.top != nil && ex.top.Unroll || ex.probeConcrete(st, fr, h) {
		ex.instrs(st, fr, h, 0, k)
		return
	}
	if ex.top != nil && ex.top.UnrollMax > 0 {
		key := fmt.Sprintf("unroll:%p", h)
		n, _ := st.ghost[key].(*Term)
		if n == nil || !l.blocks[prev] {
			n = ex.c.IntLit(0)
		}
		if n.I.Int64() >= int64(ex.top.UnrollMax) {
			if ex.valid(st, ex.c.F) {
				return
			}
			unsup("loop in %s with more than %d rounds", fr.fn.Name(), ex.top.UnrollMax)
		}
		st.ghost[key] = ex.c.Add(n, ex.c.IntLit(1))
		ex.instrs(st, fr, h, 0, k)
		return
	}
	mod := map[string]bool{}
	noInt := false
	var spec *LoopSpec
	proto := &LoopRun{ex: ex, l: l, entryS: st, entryF: fr, mod: mod}
	if ex.top != nil && ex.top.Loop != nil {
		spec = ex.top.Loop(ex, proto)
	}
	if spec == nil {
		spec = &LoopSpec{}
	}
	if spec.Persist {
		if ex.dropMemo == nil {
			ex.dropMemo = map[string]map[string]bool{}
		}
		key := fmt.Sprintf("%p", l.header)
		for f := fr; f != nil; f = f.parent {
			key += fmt.Sprintf("/%p", f.fn)
		}
		if ex.dropMemo[key] == nil {
			ex.dropMemo[key] = map[string]bool{}
		}
		spec.dropped = ex.dropMemo[key]
	}
	if spec.Rounds {
		st.ghost[proto.roundName()] = ex.c.IntLit(0)
	}
	for id := range spec.WholeObj {
		mod[fmt.Sprintf("obj:%d:", id)] = true
	}
	if spec.PreMod != nil {
		for _, m := range spec.PreMod(st, fr) {
			mod[m] = true
		}
	}
	if spec.NoPart {
		noInt = true
	}
	mk := func(dry bool, grew *bool) *LoopRun {
		n := 0
		return &LoopRun{ex: ex, l: l, k: k, dry: dry, mod: mod, grew: grew, noInt: noInt, keys: map[string]bool{}, nkeys: &n, entryS: st, entryF: fr, spec: spec}
	}
	for round := 0; ; round++ {
		if round > 25 && (spec.Cands == nil || round > 200) {
			unsup("loop in %s does not stabilise", fr.fn.Name())
		}
		// a list kept in a variable that changes is a value
		for g, v := range st.ghost {
			if strings.HasPrefix(g, "cell:") && mod["obj:"+g[5:]+":"] {
				if sl, ok := v.(*SliceRef); ok {
					id, _ := strconv.Atoi(g[5:])
					t := st.term(sl)
					delete(st.ghost, g)
					st.store(&Addr{Kind: 'o', Obj: id}, t)
				}
			}
		}
		grew := false
		lr := mk(true, &grew)
		lr.weaken(st, fr)
		grew = false
		ex.dry++
		func() {
			defer func() { ex.dry-- }()
			lr.handle(st.clone(), fr.clone())
		}()
		if *lr.nkeys > 40 && !noInt {
			noInt = true
			continue
		}
		if !grew {
			break
		}
	}
	grew := false
	lr := mk(false, &grew)
	s2, f2 := st.clone(), fr.clone()
	if spec.Arrive != nil {
		lr.base, lr.baseF = nil, nil
		spec.Arrive(s2, f2, false)
	}
	lr.keep(s2, f2)
	if os.Getenv("GOVC_CANDS") != "" && ex.dry == 0 {
		fmt.Fprintln(os.Stderr, "loop", ex.posStr(l.header.Instrs[0].Pos()), sortedKeys(mod))
		for _, cd := range lr.live(s2, f2) {
			fmt.Fprintln(os.Stderr, "   ", cd.name)
		}
	}
	if s2.dead {
		return
	}
	lr.handle(s2, f2)
	if grew {
		unsup("loop modification set unstable in %s", fr.fn.Name())
	}
}

// leaves: with the current values the loop condition, which has no effects, ends the loop
func (ex *Ex) leaves(st *State, fr *Frame, l *Loop) bool {
	if st.dead {
		return false
	}
	s, f := st.clone(), fr.clone()
	ex.dry++
	defer func() { ex.dry-- }()
	b := l.header
	for n := 0; n < 8; n++ {
		var next *ssa.BasicBlock
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.BinOp, *ssa.FieldAddr, *ssa.Field, *ssa.Extract:
				if e, ok := x.(*ssa.Extract); ok {
					if _, ok := f.env[e.Tuple].(Tuple); !ok {
						return false
					}
				}
				f.env[x.(ssa.Value)] = ex.eval(s, f, x.(ssa.Value))
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return false
				}
				f.env[x] = ex.unop(s, f, x)
			case *ssa.Call:
				b, ok := x.Call.Value.(*ssa.Builtin)
				if !ok || b.Name() != "len" {
					return false
				}
				f.env[x] = ex.builtin(s, f, "len", &x.Call, []Val{ex.val(s, f, x.Call.Args[0])}, x.Pos())
			case *ssa.If:
				switch s.decide(s.norm(ex.tv(s, f, x.Cond))) {
				case 1:
					next = b.Succs[0]
				case -1:
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			default:
				return false
			}
		}
		if next == nil || s.dead || next == l.header {
			return false
		}
		if !l.blocks[next] {
			return true
		}
		ex.phis(s, f, next, b)
		b = next
	}
	return false
}

// probeConcrete: the loop condition is a literal given the current values
func (ex *Ex) probeConcrete(st *State, fr *Frame, h *ssa.BasicBlock) bool {
	c := ex.headerCond(st, fr, h)
	return c != nil && c.Op == "bool"
}

// headerCond: the loop condition in terms of the current values, nil if it is not computed in the header alone
func (ex *Ex) headerCond(st *State, fr *Frame, h *ssa.BasicBlock) *Term {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	f := fr.clone()
	for _, in := range h.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.DebugRef:
		case *ssa.Extract:
			t, ok := f.env[x.Tuple].(Tuple)
			if !ok {
				return nil
			}
			f.env[x] = t[x.Index]
		case *ssa.BinOp:
			f.env[x] = ex.binop(st.clone(), f, x)
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				t, ok := ex.val(st, f, x.X).(*Term)
				if !ok || ex.top == nil || ex.top.RecvPeek == nil {
					return nil
				}
				v := ex.top.RecvPeek(ex, st, t, x)
				if v == nil {
					return nil
				}
				f.env[x] = v
				continue
			}
			ex.dry++
			v := ex.unop(st.clone(), f, x)
			ex.dry--
			f.env[x] = v
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return nil
			}
			var args []Val
			for _, a := range x.Call.Args {
				args = append(args, ex.val(st, f, a))
			}
			f.env[x] = ex.builtin(st.clone(), f, "len", &x.Call, args, x.Pos())
		default:
			return nil
		}
	}
	c, ok := ex.val(st, f, iff.Cond).(*Term)
	if !ok {
		return nil
	}
	// only unroll counted loops: the condition must compare something
	switch x := iff.Cond.(type) {
	case *ssa.Const, *ssa.Phi:
		return nil
	case *ssa.UnOp:
		if x.Op != token.ARROW {
			return nil
		}
	case *ssa.BinOp:
		if b, ok := x.X.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			return nil
		}
	}
	return c
}

func sortLeaves(m map[string]bool) []string { return sortedKeys(m) }

func parsePath(p string) []PE {
	if p == "" {
		return nil
	}
	var r []PE
	for _, x := range strings.Split(p, ".") {
		n, _ := strconv.Atoi(x)
		r = append(r, PE{F: n})
	}
	return r
}

// leaf value in a state
func (lr *LoopRun) get(st *State, fr *Frame, leaf string) *Term {
	p := strings.SplitN(leaf, ":", 3)
	switch p[0] {
	case "phi":
		for _, ph := range lr.phis() {
			if ph.Name() == p[1] {
				return st.term(fr.env[ph])
			}
		}
	case "obj":
		id, _ := strconv.Atoi(p[1])
		return st.getPath(st.root(&Addr{Kind: 'o', Obj: id}), parsePath(p[2]))
	case "glob":
		for g := range st.globs {
			if g.String() == leaf[5:] {
				return st.globs[g]
			}
		}
	case "map":
		id, _ := strconv.Atoi(p[1])
		return st.maps[id]
	case "heap":
		for s := range st.heaps {
			if s.Name == leaf[5:] {
				return st.heaps[s]
			}
		}
	case "chan":
		id, _ := strconv.Atoi(p[1])
		switch p[2] {
		case "sent":
			return st.chans[id].Sent
		case "rcvd":
			return st.chans[id].Rcvd
		case "closed":
			return lr.ex.c.BoolLit(st.chans[id].Closed)
		}
	case "ghost":
		if t, ok := st.ghost[leaf[6:]].(*Term); ok {
			return t
		}
	case "top":
		return st.top
	}
	return nil
}

func (lr *LoopRun) set(st *State, fr *Frame, leaf string, v *Term) {
	p := strings.SplitN(leaf, ":", 3)
	switch p[0] {
	case "phi":
		for _, ph := range lr.phis() {
			if ph.Name() == p[1] {
				fr.env[ph] = v
			}
		}
	case "obj":
		id, _ := strconv.Atoi(p[1])
		a := &Addr{Kind: 'o', Obj: id, Path: parsePath(p[2])}
		fz := st.frozen[id]
		delete(st.frozen, id)
		st.store(a, v)
		if fz {
			st.frozen[id] = true
		}
	case "glob":
		for g := range st.globs {
			if g.String() == leaf[5:] {
				st.globs[g] = v
			}
		}
	case "map":
		id, _ := strconv.Atoi(p[1])
		st.maps[id] = v
	case "heap":
		for s := range st.heaps {
			if s.Name == leaf[5:] {
				st.heaps[s] = v
			}
		}
	case "chan":
		id, _ := strconv.Atoi(p[1])
		switch p[2] {
		case "sent":
			st.chans[id].Sent = v
		case "rcvd":
			st.chans[id].Rcvd = v
		case "closed":
			st.chans[id].Closed = v.isTrue()
		}
	case "ghost":
		st.ghost[leaf[6:]] = v
	case "top":
		st.top = v
	}
}

func (lr *LoopRun) leafType(leaf string) types.Type {
	p := strings.SplitN(leaf, ":", 3)
	switch p[0] {
	case "phi":
		for _, ph := range lr.phis() {
			if ph.Name() == p[1] {
				return ph.Type()
			}
		}
	case "obj":
		id, _ := strconv.Atoi(p[1])
		m := lr.entryS.ometa[id]
		if m == nil {
			return nil
		}
		t := m.Type
		for _, e := range parsePath(p[2]) {
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return nil
			}
			t = st.Field(e.F).Type()
		}
		return t
	}
	return nil
}

func (lr *LoopRun) partitionable(leaf string, v *Term) bool {
	if v == nil || !v.isLit() || lr.spec.NoPart {
		return false
	}
	c := lr.ex.c
	if lr.spec.Part != nil && !lr.spec.Part(leaf) {
		return false
	}
	for id := range lr.spec.WholeObj {
		if strings.HasPrefix(leaf, fmt.Sprintf("obj:%d:", id)) {
			return false
		}
	}
	switch v.Sort {
	case c.Bool, c.Iface:
		return true
	case c.Int:
		if lr.noInt {
			return false
		}
		if strings.HasPrefix(leaf, "phi:") {
			for _, ph := range lr.phis() {
				if ph.Name() == leaf[4:] {
					if lr.l.ifOps[ph] {
						return false
					}
					// rangeindex pattern: phi+1 is compared
					for _, r := range *ph.Referrers() {
						if bo, ok := r.(*ssa.BinOp); ok && lr.l.ifOps[bo] {
							return false
						}
					}
				}
			}
			return true
		}
		return strings.HasPrefix(leaf, "obj:")
	}
	return false
}

func (lr *LoopRun) handle(st *State, fr *Frame) {
	if st.dead {
		return
	}
	ex := lr.ex
	var key strings.Builder
	lits := map[string]*Term{}
	leaves := sortLeaves(lr.mod)
	for _, lf := range leaves {
		v := lr.get(st, fr, lf)
		if v != nil {
			v = st.norm(v)
		}
		if lr.partitionable(lf, v) {
			lits[lf] = v
			fmt.Fprintf(&key, "%s=%s;", lf, v)
		} else {
			fmt.Fprintf(&key, "%s=*;", lf)
		}
	}
	if lr.keys[key.String()] {
		return
	}
	lr.keys[key.String()] = true
	*lr.nkeys++
	if *lr.nkeys > 40 {
		if lr.dry && !lr.noInt {
			return
		}
		if *lr.nkeys > 200 {
			unsup("too many loop partitions in %s", fr.fn.Name())
		}
	}
	hs, hf := lr.entryS.clone(), lr.entryF.clone()
	for _, lf := range leaves {
		if v, ok := lits[lf]; ok {
			lr.set(hs, hf, lf, v)
			continue
		}
		old := lr.get(hs, hf, lf)
		if old == nil {
			unsup("loop leaf %s has no value", lf)
		}
		v := ex.c.Fresh("h:"+lf, old.Sort)
		if t := lr.leafType(lf); t != nil {
			ex.noteType(v, t)
		}
		lr.set(hs, hf, lf, v)
		if lf == "top" {
			hs.assume(ex.c.Le(old, v))
		}
	}
	for _, cd := range lr.live(hs, hf) {
		hs.assume(cd.t)
	}
	nl := *lr
	nl.base, nl.baseF = hs, hf
	if lr.spec.Havoc != nil {
		lr.spec.Havoc(hs, hf)
		if hs.dead {
			return
		}
	}
	nl.base, nl.baseF = hs.clone(), hf.clone()
	hf.cut[lr.l.header] = &nl
	if !lr.dry {
		hs.trace = append(hs.trace, "loop@"+ex.posStr(lr.l.header.Instrs[0].Pos()))
	}
	ex.instrs(hs, hf, lr.l.header, 0, lr.k)
}

func (lr *LoopRun) addMod(leaf string) {
	if !lr.mod[leaf] {
		// a containing leaf may already be present
		p := strings.SplitN(leaf, ":", 3)
		if p[0] == "obj" {
			pref := "obj:" + p[1] + ":"
			if lr.mod[pref] {
				return
			}
			parts := strings.Split(p[2], ".")
			for i := range parts {
				if lr.mod[pref+strings.Join(parts[:i+1], ".")] {
					return
				}
			}
			for m := range lr.mod {
				if strings.HasPrefix(m, leaf+".") || (p[2] == "" && strings.HasPrefix(m, pref)) {
					delete(lr.mod, m)
				}
			}
		}
		lr.mod[leaf] = true
		*lr.grew = true
	}
}

func (lr *LoopRun) diff(a, b *Term, leaf, path string, depth int) {
	if a == b {
		return
	}
	c := lr.ex.c
	if a.Sort.Kind == KStruct && len(a.Sort.Fields) > 0 && !strings.HasPrefix(a.Sort.Name, "Map<") && depth < 3 && !lr.mod[leaf+path] {
		for i := range a.Sort.Fields {
			p := path
			if p != "" {
				p += "."
			}
			lr.diff(c.Fld(a, i), c.Fld(b, i), leaf, p+strconv.Itoa(i), depth+1)
		}
		return
	}
	lr.addMod(leaf + path)
}

func (lr *LoopRun) back(st *State, fr *Frame) {
	if st.dead {
		return
	}
	bs, bf := lr.base, lr.baseF
	if lr.spec.Rounds {
		st.ghost[lr.roundName()] = lr.ex.c.Add(lr.round(st), lr.ex.c.IntLit(1))
	}
	for _, ph := range lr.phis() {
		nv, ov := fr.env[ph], bf.env[ph]
		if nv == ov {
			continue
		}
		if sameVal(nv, ov) {
			continue
		}
		lr.addMod("phi:" + ph.Name())
	}
	for id, ov := range bs.objs {
		if _, was := bs.oref[id]; was {
			continue
		}
		if _, now := st.oref[id]; now {
			unsup("object escapes inside a loop")
		}
		if nv := st.objs[id]; nv != ov {
			lr.diff(ov, nv, fmt.Sprintf("obj:%d:", id), "", 0)
		}
	}
	for g, nv := range st.globs {
		if ov := bs.global(g); ov != nv {
			if lr.entryS.globs[g] == nil {
				lr.entryS.global(g)
			}
			lr.addMod("glob:" + g.String())
		}
	}
	for id, ov := range bs.maps {
		if st.maps[id] != ov {
			lr.addMod(fmt.Sprintf("map:%d", id))
		}
	}
	for s, nv := range st.heaps {
		if ov := bs.heap(s); ov != nv {
			lr.entryS.heap(s)
			lr.addMod("heap:" + s.Name)
		}
	}
	for id, ov := range bs.chans {
		nv := st.chans[id]
		if nv.Sent != ov.Sent {
			lr.addMod(fmt.Sprintf("chan:%d:sent", id))
		}
		if nv.Rcvd != ov.Rcvd {
			lr.addMod(fmt.Sprintf("chan:%d:rcvd", id))
		}
		if nv.Closed != ov.Closed {
			lr.addMod(fmt.Sprintf("chan:%d:closed", id))
		}
	}
	for g, ov := range bs.ghost {
		if _, still := st.ghost[g]; !still && strings.HasPrefix(g, "cell:") {
			if _, isSl := ov.(*SliceRef); !isSl {
				unsup("%s changes inside a loop", g)
			}
			lr.addMod("obj:" + g[5:] + ":")
		}
	}
	for g, nv := range st.ghost {
		if strings.HasPrefix(g, "spec") {
			continue
		}
		ov, had := bs.ghost[g]
		if !had {
			if strings.HasPrefix(g, "cell:") || strings.HasPrefix(g, "round:") {
				continue
			}
			unsup("ghost %s created inside a loop", g)
		}
		if !sameVal(nv, ov) {
			if _, ok := nv.(*Term); !ok {
				unsup("cell %s changes inside a loop", g)
			}
			lr.addMod("ghost:" + g)
		}
	}
	if st.top != bs.top {
		lr.addMod("top")
	}
	if *lr.grew {
		if !lr.dry {
			unsup("loop modification set grew in the checking run")
		}
		return
	}
	if lr.dry {
		if lr.weaken(st, fr) || lr.measure(st, fr) {
			return
		}
	} else {
		lr.keep(st, fr)
		lr.measure(st, fr)
	}
	if !lr.dry && lr.spec.Arrive != nil {
		sp := lr.spec
		cur := lr.ex.curLoop
		lr.ex.curLoop = lr
		sp.Arrive(st, fr, true)
		lr.ex.curLoop = cur
	}
	lr.handle(st, fr)
}

// round: how often the body has been executed (a ghost counter of loops with Rounds)
func (lr *LoopRun) roundName() string { return fmt.Sprintf("round:%p", lr.l.header) }
func (lr *LoopRun) round(st *State) *Term {
	if t, ok := st.ghost[lr.roundName()].(*Term); ok {
		return t
	}
	return lr.ex.c.IntLit(0)
}

// roundCands: candidates that relate the variables of the loop to the number of rounds
func (lr *LoopRun) roundCands(st *State, fr *Frame, q func(string, *Term)) {
	ex := lr.ex
	c := ex.c
	k := lr.round(st)
	q("rounds", c.Le(c.IntLit(0), k))
	for _, lf := range sortLeaves(lr.mod) {
		if strings.HasPrefix(lf, "ghost:") {
			continue
		}
		v, e := lr.get(st, fr, lf), lr.get(lr.entryS, lr.entryF, lf)
		if v == nil || e == nil {
			continue
		}
		t := lr.leafType(lf)
		switch {
		case v.Sort == c.Int && t != nil:
			if _, _, ok := isIntType(t); ok {
				q("up:"+lf, c.Eq(v, ex.wrap(c.Add(e, k), t)))
				q("down:"+lf, c.Eq(v, ex.wrap(c.Sub(e, k), t)))
			}
		case v.Sort.Kind == KSeq:
			q("grows:"+lf, c.Eq(c.Len(v), c.Add(c.Len(e), k)))
			q("length:"+lf, c.Eq(c.Len(v), c.Len(e)))
		}
	}
}

// Invariants found by elimination: of the candidates of the loop contract those are kept that hold on entry and
// are preserved by the body under the assumption of the others. What is kept is then obliged like any invariant.
type cand struct {
	name string
	t    *Term
}

func (lr *LoopRun) live(st *State, fr *Frame) []cand {
	if lr.spec == nil || lr.spec.Cands == nil {
		return nil
	}
	var r []cand
	lr.spec.Cands(st, fr, func(n string, t *Term) {
		if t != nil && !lr.spec.dropped[n] {
			r = append(r, cand{n, t})
		}
	})
	return r
}

func (lr *LoopRun) weaken(st *State, fr *Frame) bool {
	l := lr.live(st, fr)
	ts := make([]*Term, len(l))
	for i, cd := range l {
		ts[i] = cd.t
	}
	any := false
	for i, ok := range lr.ex.validAll(st, ts) {
		if ok {
			continue
		}
		cd := l[i]
		if os.Getenv("GOVC_CANDS") != "" {
			fmt.Fprintln(os.Stderr, "drop", cd.name, short(st.norm(cd.t)), tail(st.trace, 5))
		}
		if lr.spec.dropped == nil {
			lr.spec.dropped = map[string]bool{}
		}
		lr.spec.dropped[cd.name] = true
		*lr.grew = true
		any = true
	}
	return any
}

func (lr *LoopRun) keep(st *State, fr *Frame) {
	for _, cd := range lr.live(st, fr) {
		lr.ex.obligeOnly(st, lr.spec.CandProps, "invariant", cd.name, lr.l.header.Instrs[0].Pos(), cd.t)
	}
}

// measure: a measure that grows in every round and is bounded, so the loop ends. Dry: measures that fail are dropped.
func (lr *LoopRun) measure(st *State, fr *Frame) bool {
	sp := lr.spec
	if sp == nil || sp.Meas == nil {
		return false
	}
	c := lr.ex.c
	before := map[string]*Term{}
	sp.Meas(lr.base, lr.baseF, func(n string, t *Term) { before["measure:"+n] = t })
	any, alive := false, false
	sp.Meas(st, fr, func(n string, t *Term) {
		n = "measure:" + n
		if sp.dropped[n] || before[n] == nil || alive {
			return
		}
		goal := c.And(c.Lt(before[n], t), c.Le(t, sp.MeasMax))
		if !lr.dry {
			alive = true
			lr.ex.obligeOnly(st, sp.CandProps, "progress", "the loop comes to an end: "+n, lr.l.header.Instrs[0].Pos(), goal)
			return
		}
		if lr.ex.valid(st, goal) {
			alive = true
			return
		}
		if sp.dropped == nil {
			sp.dropped = map[string]bool{}
		}
		if os.Getenv("GOVC_CANDS") != "" {
			fmt.Fprintln(os.Stderr, "drop", n, short(st.norm(goal)), tail(st.trace, 5))
		}
		sp.dropped[n] = true
		any = true
	})
	if !lr.dry && !alive {
		lr.ex.refute(st, sp.CandProps, "progress", "no measure shows that the loop comes to an end", lr.l.header.Instrs[0].Pos())
	}
	if any {
		*lr.grew = true
	}
	return any
}

// valid: the goal follows from the path (asked at once, only to choose invariants)
func (ex *Ex) valid(st *State, goal *Term) bool {
	if st.dead {
		return true
	}
	s2 := st.clone()
	g := s2.norm(goal)
	switch s2.decide(g) {
	case 1:
		return true
	case -1: // unless the path is infeasible
		g = ex.c.F
	}
	r, _ := thePool.run("z3-new", candTimeout(), ex.script(s2, g), false)
	return r == "unsat"
}

// validAll: the same for many goals, asked beside each other
func (ex *Ex) validAll(st *State, goals []*Term) []bool {
	r := make([]bool, len(goals))
	if st.dead {
		for i := range r {
			r[i] = true
		}
		return r
	}
	type ask struct {
		i      int
		script string
	}
	var open []int
	var ts []*Term
	for i, t := range goals {
		g := st.norm(t)
		switch st.decide(g) {
		case 1:
			r[i] = true
			continue
		case -1: // unless the path is infeasible
			g = ex.c.F
		}
		open = append(open, i)
		ts = append(ts, g)
	}
	if len(open) == 0 {
		return r
	}
	if len(open) > 1 {
		if v, _ := thePool.run("z3-new", candTimeout(), ex.script(st.clone(), ex.c.And(ts...)), false); v == "unsat" {
			for _, i := range open {
				r[i] = true
			}
			return r
		}
	}
	asks := make([]ask, len(open))
	for n, i := range open {
		asks[n] = ask{i, ex.script(st.clone(), ts[n])}
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, a := range asks {
		wg.Add(1)
		sem <- true
		go func(a ask) {
			v, _ := thePool.run("z3-new", candTimeout(), a.script, false)
			r[a.i] = v == "unsat"
			if d := os.Getenv("GOVC_DUMPC"); d != "" && !r[a.i] {
				os.WriteFile(fmt.Sprintf("%s/c%d.smt2", d, time.Now().UnixNano()), []byte("; "+short(goals[a.i])+"\n"+a.script), 0644)
			}
			<-sem
			wg.Done()
		}(a)
	}
	wg.Wait()
	return r
}

func sameVal(a, b Val) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*Addr)
	y, ok2 := b.(*Addr)
	if ok1 && ok2 {
		if x.Kind == y.Kind && x.Obj == y.Obj && x.Ref == y.Ref && x.G == y.G && x.V == y.V && len(x.Path) == len(y.Path) {
			for i := range x.Path {
				if x.Path[i] != y.Path[i] {
					return false
				}
			}
			return true
		}
		return false
	}
	s, ok1 := a.(*SliceRef)
	t, ok2 := b.(*SliceRef)
	if ok1 && ok2 {
		return sameVal(s.Base, t.Base) && s.Lo == t.Lo && s.Hi == t.Hi
	}
	if c1, ok := a.(*ChanV); ok {
		if c2, ok := b.(*ChanV); ok {
			return c1.ID == c2.ID
		}
	}
	if _, ok := a.(*Opaque); ok {
		if _, ok := b.(*Opaque); ok {
			return true
		}
	}
	return false
}

var candMs int

// candTimeout: time for one question about a candidate invariant
func candTimeout() int {
	if t := candMs; t > 1500 {
		return t
	}
	return 1500
}
