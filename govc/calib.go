package main

// Contracts of the calibration package: alignment, raw bytes, conversion to numbers, record layout
// components, conversion methods, lookups.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const rootPkg = "calibrationReader"

// cspec: symbolic inputs of one function, found by their type
type cspec struct {
	ex  *Ex
	st  *State
	fn  *ssa.Function
	in  map[string][]*Term // initial content by type name
	obj map[string][]*Addr
}

func tname(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return "" })
}

func (ex *Ex) symbolic(st *State, fr *Frame, fn *ssa.Function) *cspec {
	s := &cspec{ex: ex, st: st, fn: fn, in: map[string][]*Term{}, obj: map[string][]*Addr{}}
	for i, p := range fn.Params {
		t := p.Type()
		name := tname(t)
		hint := fmt.Sprintf("in%d:%s", i, name)
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			v := ex.c.Var(hint, ex.sortOf(pt.Elem()))
			ex.noteType(v, pt.Elem())
			a := st.newObj(pt.Elem(), v, hint, nil)
			fr.env[p] = a
			s.in[name] = append(s.in[name], v)
			s.obj[name] = append(s.obj[name], a)
			continue
		}
		v := ex.c.Var(hint, ex.sortOf(t))
		ex.noteType(v, t)
		fr.env[p] = v
		s.in[name] = append(s.in[name], v)
	}
	if cd := s.get("*CalibrationData"); cd != nil {
		m := ex.modules(cd)
		st.assume(ex.c.Lt(ex.moduleIndex(cd), ex.c.Len(m)))
	}
	return s
}

func (s *cspec) get(n string) *Term {
	if l := s.in[n]; len(l) > 0 {
		return l[0]
	}
	return nil
}

func (s *cspec) need(names ...string) bool {
	for _, n := range names {
		if s.get(n) == nil {
			return false
		}
	}
	return true
}

// frame condition: the objects passed by pointer are unchanged
func (s *cspec) unchanged(st *State, props []string, names ...string) {
	for _, n := range names {
		for i, a := range s.obj[n] {
			s.ex.oblige(st, props, "frame", n+" is not changed", s.fn.Pos(), s.ex.c.Eq(st.load(a), s.in[n][i]))
		}
	}
}

func (ex *Ex) fld(t *Term, path ...string) *Term {
	for _, p := range path {
		i := ex.c.FieldIdx(t.Sort, p)
		if i < 0 { // some structs have unexported parameters
			i = ex.c.FieldIdx(t.Sort, strings.ToLower(p[:1])+p[1:])
		}
		if i < 0 {
			unsup("no field %s in %s", p, t.Sort.Name)
		}
		t = ex.c.Fld(t, i)
	}
	return t
}

func (ex *Ex) moduleIndex(cd *Term) *Term {
	t := ex.fld(cd, "ModuleIndex")
	ex.noteType(t, types.Typ[types.Uint8])
	return t
}
func (ex *Ex) modules(cd *Term) *Term { return ex.fld(cd, "A2l", "Project", "Modules") }
func (ex *Ex) module(cd *Term) *Term  { return ex.c.At(ex.modules(cd), ex.moduleIndex(cd)) }

// goField finds the go type of a field path
func goField(t types.Type, path ...string) types.Type {
	for _, p := range path {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		if sl, ok := t.Underlying().(*types.Slice); ok {
			t = sl.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		var r types.Type
		for i := 0; i < st.NumFields(); i++ {
			if strings.EqualFold(st.Field(i).Name(), p) {
				r = st.Field(i).Type()
			}
		}
		if r == nil {
			return nil
		}
		t = r
	}
	return t
}

func (w *Worker) goType(pkg, name string) types.Type {
	p := w.pkgs[pkg]
	if p == nil {
		return nil
	}
	if t, ok := p.Members[name].(*ssa.Type); ok {
		return t.Type()
	}
	return nil
}

// modMap: membership and content of a map field of the selected module
func (w *Worker) modMap(st *State, cd *Term, key *Term, path ...string) (has, val *Term) {
	ex := w.ex
	mt, ok := goField(w.goType("a2l", "Module"), path...).(*types.Map)
	if !ok {
		unsup("no map %v in Module", path)
	}
	ct := ex.mapContent(st, ex.fld(ex.module(cd), path...), mt)
	return ex.c.Select(ex.c.Fld(ct, 0), key), ex.c.Select(ex.c.Fld(ct, 1), key)
}

func isErr(c *Ctx, st *State, v Val) *Term { return c.Ne(st.term(v), c.NilI) }

// outcome: the error result is set exactly if bad holds; returns 1 on success, -1 on error paths, after
// obliging; 0 if this path covers both
func (ex *Ex) errIff(st *State, props []string, pos token.Pos, err Val, bad *Term, what string) (good *Term) {
	c := ex.c
	e := st.norm(isErr(c, st, err))
	ex.oblige(st, props, "error-iff", what, pos, c.Eq(e, bad))
	return c.Not(e)
}

var u32 = types.Typ[types.Uint32]

// ---------------------------------------------------------------- alignment (P16)

var alignClass = []struct {
	word, field string
	def         int64
}{{"UBYTE", "AlignmentByte", 1}, {"SBYTE", "AlignmentByte", 1}, {"UWORD", "AlignmentWord", 2}, {"SWORD", "AlignmentWord", 2},
	{"ULONG", "AlignmentLong", 4}, {"SLONG", "AlignmentLong", 4}, {"A_UINT64", "AlignmentInt64", 8}, {"A_INT64", "AlignmentInt64", 8},
	{"FLOAT16_IEEE", "AlignmentFloat16Ieee", 2}, {"FLOAT32_IEEE", "AlignmentFloat32Ieee", 4}, {"FLOAT64_IEEE", "AlignmentFloat64Ieee", 8}}

func (ex *Ex) alignBorder(cd, rl *Term, field string, def int64) *Term {
	c := ex.c
	pick := func(holder, els *Term) *Term {
		f := ex.fld(holder, field)
		b := ex.fld(f, "AlignmentBorder")
		ex.noteType(b, types.Typ[types.Uint16])
		return c.Ite(c.And(ex.fld(f, "AlignmentBorderSet"), c.Ne(b, c.IntLit(0))), b, els)
	}
	return pick(rl, pick(ex.fld(ex.module(cd), "ModCommon"), c.IntLit(def)))
}

func (ex *Ex) alignUp(a, b *Term) *Term {
	c := ex.c
	m := c.Mod(a, b)
	return ex.wrap(c.Ite(c.Eq(m, c.IntLit(0)), a, c.Sub(c.Add(a, b), m)), u32)
}

func (ex *Ex) applyAligned(cd, rl, a, dte *Term) *Term {
	r := ex.c.App("aligned", ex.c.Int, a, dte, rl, ex.fld(ex.module(cd), "ModCommon"))
	ex.noteType(r, u32)
	return r
}

func (w *Worker) alignContract() *Contract {
	props := []string{"P16"}
	fn := method(w.pkgs[rootPkg], "CalibrationData", "getNextAlignedAddress")
	if fn == nil {
		return nil
	}
	var s *cspec
	ct := &Contract{Fn: fn, Props: props, Safe: props}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		s = ex.symbolic(st, fr, fn)
		if !s.need("*CalibrationData", "*RecordLayout", "uint32", "DataTypeEnum") {
			unsup("signature of getNextAlignedAddress")
		}
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		r, a, dte := st.term(rets[0]), s.get("uint32"), s.get("DataTypeEnum")
		cd, rl := s.get("*CalibrationData"), s.get("*RecordLayout")
		known := c.F
		for _, x := range alignClass {
			is := c.Eq(dte, c.StrLit(x.word))
			known = c.Or(known, is)
			if st.decide(is) == -1 {
				continue
			}
			b := ex.alignBorder(cd, rl, x.field, x.def)
			ex.oblige(st, props, "aligned:"+x.word, "next multiple of the border for "+x.word, fn.Pos(), c.Implies(is, c.Eq(r, ex.alignUp(a, b))))
		}
		ex.oblige(st, props, "unknown-type", "an unknown type needs no alignment", fn.Pos(), c.Or(known, c.Eq(r, a)))
		s.unchanged(st, props, "*CalibrationData", "*RecordLayout")
	}
	ct.Apply = func(ex *Ex, st *State, fr *Frame, args []Val, pos token.Pos, k K) {
		var cd, rl, a, dte *Term
		for i, p := range fn.Params {
			switch tname(p.Type()) {
			case "*CalibrationData":
				cd = ex.ptrContent(st, args[i], p.Type(), pos)
			case "*RecordLayout":
				rl = ex.ptrContent(st, args[i], p.Type(), pos)
			case "uint32":
				a = st.term(args[i])
			case "DataTypeEnum":
				dte = st.term(args[i])
			}
		}
		if cd == nil || rl == nil || a == nil || dte == nil {
			unsup("signature of getNextAlignedAddress")
		}
		k(st, []Val{ex.applyAligned(cd, rl, a, dte)})
	}
	return ct
}

func (ex *Ex) ptrContent(st *State, v Val, pt types.Type, pos token.Pos) *Term {
	return st.load(ex.toAddr(st, v, pt.Underlying().(*types.Pointer).Elem(), pos))
}

// alignLemma: the function alignUp used in the contract is the smallest multiple not below
func alignLemma() *Unit {
	props := []string{"P16"}
	return &Unit{Name: "lemma.alignUp", Props: props, Run: func(w *Worker) []*Oblig {
		ex := w.ex
		c := ex.c
		n := len(ex.obs)
		lemma := func(name, detail string, mk func(a, b, x *Term) (*Term, *Term)) {
			st := ex.newState()
			a, b, x := c.Fresh("a", c.Int), c.Fresh("b", c.Int), c.Fresh("x", c.Int)
			st.assume(c.Le(c.IntLit(0), a))
			st.assume(c.Lt(c.IntLit(0), b))
			hyp, goal := mk(a, b, x)
			st.assume(hyp)
			ex.lemma(st, props, name, detail, goal)
		}
		// q, m: quotient and remainder of a by b
		up := func(a, b *Term) *Term {
			m := c.Mod(a, b)
			return c.Ite(c.Eq(m, c.IntLit(0)), a, c.Sub(c.Add(a, b), m))
		}
		lemma("not-below", "a <= alignUp(a,b) < a+b", func(a, b, x *Term) (*Term, *Term) {
			return c.T, c.And(c.Le(a, up(a, b)), c.Lt(up(a, b), c.Add(a, b)))
		})
		lemma("multiple", "alignUp(a,b) is a multiple of b", func(a, b, x *Term) (*Term, *Term) {
			q := c.Div(a, b)
			m := c.Mod(a, b)
			return c.T, c.Eq(up(a, b), c.Ite(c.Eq(m, c.IntLit(0)), c.Mul(q, b), c.Mul(c.Add(q, c.IntLit(1)), b)))
		})
		lemma("smallest", "no multiple of b lies in [a, alignUp(a,b))", func(a, b, x *Term) (*Term, *Term) {
			// x*b >= a implies x*b >= alignUp(a,b): with a = q*b+m, x > q or (x = q and m = 0)
			q := c.Div(a, b)
			return c.And(c.Le(a, c.Mul(x, b)), c.Or(c.Le(x, q), c.Le(c.Mul(c.Add(q, c.IntLit(1)), b), c.Mul(x, b)))), c.Le(up(a, b), c.Mul(x, b))
		})
		lemma("monotone", "q+1 <= x implies (q+1)*b <= x*b", func(a, b, x *Term) (*Term, *Term) {
			d := c.Fresh("d", c.Int) // x = q+1+d
			q := c.Fresh("q", c.Int)
			return c.Le(c.IntLit(0), d), c.Le(c.Mul(c.Add(q, c.IntLit(1)), b), c.Mul(c.Add(q, c.IntLit(1), d), b))
		})
		return ex.obs[n:]
	}}
}

// lemma: an obligation that belongs to no function body
func (ex *Ex) lemma(st *State, props []string, name, detail string, goal *Term) {
	o := &Oblig{Fn: "lemma", Name: name, Detail: detail, Props: props}
	ex.obs = append(ex.obs, o)
	o.Script = ex.script(st, goal)
}

// ---------------------------------------------------------------- raw bytes (P17)

func (w *Worker) hexMap() *types.Map {
	mt, ok := goField(w.goType(rootPkg, "CalibrationData"), "Hex").(*types.Map)
	if !ok {
		unsup("CalibrationData.Hex is no map")
	}
	return mt
}

// processed: number of completed rounds of a counting loop
func (lr *LoopRun) counter(st *State, fr *Frame) (n *Term, ph *ssa.Phi) {
	c := lr.ex.c
	for _, p := range lr.phis() {
		if _, _, ok := isIntType(p.Type()); !ok {
			continue
		}
		e, ok := lr.entryF.env[p].(*Term)
		if !ok || e.Op != "int" {
			continue
		}
		// the phi must grow by one per round
		grows := false
		for i, pr := range lr.l.header.Preds {
			if !lr.l.blocks[pr] {
				continue
			}
			b, ok := p.Edges[i].(*ssa.BinOp)
			if ok && b.Op == token.ADD && (b.X == p || b.Y == p) {
				grows = true
			}
		}
		if !grows {
			continue
		}
		return c.Sub(st.term(fr.env[p]), e), p
	}
	return nil, nil
}

// accumulator invariant: element j of every sequence built in the loop satisfies elem(j)
func (lr *LoopRun) accLeaves(st *State, fr *Frame, sort *Sort) []string {
	var r []string
	for _, lf := range sortLeaves(lr.mod) {
		if v := lr.get(st, fr, lf); v != nil && v.Sort == sort {
			r = append(r, lf)
		}
	}
	return r
}

func (lr *LoopRun) accInv(st *State, fr *Frame, lf string, n *Term, goal bool, elem func(j *Term) *Term) (length, content *Term) {
	c := lr.ex.c
	v := lr.get(st, fr, lf)
	e := lr.get(lr.entryS, lr.entryF, lf)
	el := c.Len(e)
	if st.decide(c.Eq(el, c.IntLit(0))) == 1 {
		length = c.Eq(c.Len(v), n)
	} else {
		length = c.Eq(c.Len(v), el)
	}
	j := c.Fresh("j", c.Int)
	at := c.At(v, j)
	content = c.Implies(c.And(c.Le(c.IntLit(0), j), c.Lt(j, n)), c.Eq(at, elem(j)))
	if !goal {
		content = c.Forall([]*Term{j}, content, at)
	}
	return
}

func (w *Worker) applyGetBytes(st *State, cd, addr, bits *Term) (bad, val *Term) {
	c := w.ex.c
	h := w.ex.fld(cd, "Hex")
	return c.App("getbytes.err", c.Bool, h, addr, bits), c.App("getbytes", c.SeqOf(c.Int), h, addr, bits)
}

func (w *Worker) getBytesContract() *Contract {
	props := []string{"P17"}
	fn := method(w.pkgs[rootPkg], "CalibrationData", "getBytes")
	if fn == nil {
		return nil
	}
	var s *cspec
	var hasA, getA, addr, bits, n *Term
	ct := &Contract{Fn: fn, Props: props, Safe: props}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		c := ex.c
		s = ex.symbolic(st, fr, fn)
		if !s.need("*CalibrationData") || len(s.in["uint32"]) != 2 {
			unsup("signature of getBytes")
		}
		addr, bits = s.in["uint32"][0], s.in["uint32"][1]
		m := ex.mapContent(st, ex.fld(s.get("*CalibrationData"), "Hex"), w.hexMap())
		hasA, getA = c.Fld(m, 0), c.Fld(m, 1)
		n = c.Div(bits, c.IntLit(8))
	}
	// present(j), byteAt(j): byte at address+j; defined by instances
	present := func(ex *Ex, j *Term) *Term { return ex.c.App("img.has", ex.c.Bool, j) }
	byteAt := func(ex *Ex, j *Term) *Term { return ex.c.App("img.at", ex.c.Int, j) }
	def := func(ex *Ex, j *Term) *Term {
		c := ex.c
		a := c.Mod(c.Add(addr, j), c.BigLit(pow2(32)))
		return c.And(c.Eq(present(ex, j), c.Select(hasA, a)), c.Eq(byteAt(ex, j), c.Select(getA, a)))
	}
	ct.Loop = func(ex *Ex, lr *LoopRun) *LoopSpec {
		c := ex.c
		return &LoopSpec{Rounds: true, NoPart: true, CandProps: props, MeasMax: n,
			Meas:  func(st *State, fr *Frame, q func(string, *Term)) { q("rounds", lr.round(st)) },
			Havoc: func(st *State, fr *Frame) { st.assume(def(ex, lr.round(st))) },
			Cands: func(st *State, fr *Frame, q func(string, *Term)) {
				k := lr.round(st)
				lr.roundCands(st, fr, q)
				q("within", c.Le(k, n))
				j := c.Fresh("j", c.Int)
				below := c.And(c.Le(c.IntLit(0), j), c.Lt(j, k))
				q("present", c.Forall([]*Term{j}, c.Implies(below, present(ex, j)), present(ex, j)))
				for _, lf := range lr.accLeaves(st, fr, c.SeqOf(c.Int)) {
					at := c.At(lr.get(st, fr, lf), j)
					q("content:"+lf, c.Forall([]*Term{j}, c.Implies(below, c.Eq(at, byteAt(ex, j))), at))
				}
			},
		}
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		e := st.norm(isErr(c, st, rets[1]))
		j, x := c.Fresh("j", c.Int), c.Fresh("x", c.Int)
		in := func(j *Term) *Term { return c.And(c.Le(c.IntLit(0), j), c.Lt(j, n)) }
		odd := c.Ne(c.Mod(bits, c.IntLit(8)), c.IntLit(0))
		all := c.Forall([]*Term{j}, c.Implies(in(j), present(ex, j)), present(ex, j))
		ex.oblige(st, props, "error-justified", "an error only if a byte is missing or the bit count is odd", fn.Pos(), c.Implies(e, c.Or(odd, c.Not(all))))
		ex.oblige(st, props, "whole-bytes", "success only if the bit count is a multiple of 8", fn.Pos(), c.Or(e, c.Not(odd)))
		ex.oblige(st, props, "all-present", "success only if all bytes are present", fn.Pos(), c.Or(e, c.Implies(in(x), present(ex, x))))
		r := st.seqOf(rets[0])
		ex.oblige(st, props, "length", "as many bytes as asked for", fn.Pos(), c.Or(e, c.Eq(c.Len(r), n)))
		ex.oblige(st, props, "content", "byte x is the byte at address+x", fn.Pos(), c.Or(e, c.Not(in(x)), c.Eq(c.At(r, x), byteAt(ex, x))))
		s.unchanged(st, props, "*CalibrationData")
	}
	ct.Apply = func(ex *Ex, st *State, fr *Frame, args []Val, pos token.Pos, k K) {
		c := ex.c
		var cd *Term
		var u []*Term
		for i, p := range fn.Params {
			switch tname(p.Type()) {
			case "*CalibrationData":
				cd = ex.ptrContent(st, args[i], p.Type(), pos)
			case "uint32":
				u = append(u, st.term(args[i]))
			}
		}
		if cd == nil || len(u) != 2 {
			unsup("signature of getBytes")
		}
		bad, val := w.applyGetBytes(st, cd, u[0], u[1])
		ex.convFork(st, bad, func(s2 *State, isBad bool) {
			if isBad {
				k(s2, []Val{c.Fresh("badbytes", c.SeqOf(c.Int)), c.ErrI})
				return
			}
			s2.assume(c.Eq(c.MulK(8, c.Len(val)), u[1]))
			k(s2, []Val{val, c.NilI})
		})
	}
	return ct
}

// ---------------------------------------------------------------- bytes to numbers (P18)

func (w *Worker) applyConv(cd, bytes, dte *Term) (bad, val *Term) {
	c := w.ex.c
	bo := w.ex.fld(w.ex.module(cd), "ModCommon", "ByteOrder")
	return c.App("conv.err", c.Bool, bytes, dte, bo), c.App("conv", c.F64, bytes, dte, bo)
}

func (w *Worker) convContract() *Contract {
	props := []string{"P18"}
	fn := method(w.pkgs[rootPkg], "CalibrationData", "convertByteSliceToDatatype")
	if fn == nil {
		return nil
	}
	var s *cspec
	var bo *Term
	ct := &Contract{Fn: fn, Props: props, Safe: props, UnrollMax: 10}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		c := ex.c
		s = ex.symbolic(st, fr, fn)
		if !s.need("*CalibrationData", "[]byte", "DataTypeEnum") {
			unsup("signature of convertByteSliceToDatatype")
		}
		bo = ex.fld(ex.module(s.get("*CalibrationData")), "ModCommon", "ByteOrder")
		st.assume(c.Or(ex.fld(bo, "ByteOrderSet"), c.Eq(ex.fld(bo, "ByteOrder"), c.StrLit(""))))
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		b, dte := s.get("[]byte"), s.get("DataTypeEnum")
		is := func(w string) *Term {
			return c.And(ex.fld(bo, "ByteOrderSet"), c.Eq(ex.fld(bo, "ByteOrder"), c.StrLit(w)))
		}
		bigE := c.Or(c.Not(ex.fld(bo, "ByteOrderSet")), is("BIG_ENDIAN"), is("MSB_FIRST"))
		litE := c.Or(is("LITTLE_ENDIAN"), is("MSB_LAST"))
		known := c.F
		wd := ex.widthOf(dte)
		for _, x := range dataTypes {
			known = c.Or(known, c.Eq(dte, c.StrLit(x.word)))
		}
		bad := c.Or(c.Not(known), c.Lt(c.MulK(8, c.Len(b)), wd), c.Not(c.Or(bigE, litE)))
		ok := ex.errIff(st, props, fn.Pos(), rets[1], bad, "error exactly for too few bytes, an unknown type or a mixed byte order")
		if st.dead || st.decide(ok) == -1 {
			return
		}
		v := st.term(rets[0])
		for _, x := range dataTypes {
			isX := c.Eq(dte, c.StrLit(x.word))
			if st.decide(isX) == -1 {
				continue
			}
			for _, e := range []bool{true, false} {
				order, on := bigE, "big endian"
				if !e {
					order, on = litE, "little endian"
				}
				if st.decide(order) == -1 {
					continue
				}
				raw := ex.endian(b, int(x.bits/8), e)
				var want *Term
				switch {
				case x.box == "float16.Float16":
					want = c.App("f16bits", c.F64, raw)
				case x.box == "float32":
					want = c.App("f32bits", c.F64, raw)
				case x.box == "float64":
					want = c.App("f64bits", c.F64, raw)
				case strings.HasPrefix(x.box, "u"):
					want = c.App("i2f", c.F64, raw)
				default:
					want = c.App("i2f", c.F64, ex.twos(raw, int(x.bits)))
				}
				ex.oblige(st, props, "value:"+x.word, on+" value of the bytes", fn.Pos(), c.Implies(c.And(ok, isX, order), c.Eq(v, want)))
			}
		}
		s.unchanged(st, props, "*CalibrationData")
	}
	ct.Apply = func(ex *Ex, st *State, fr *Frame, args []Val, pos token.Pos, k K) {
		c := ex.c
		var cd, b, dte *Term
		for i, p := range fn.Params {
			switch tname(p.Type()) {
			case "*CalibrationData":
				cd = ex.ptrContent(st, args[i], p.Type(), pos)
			case "[]byte":
				b = st.seqOf(args[i])
			case "DataTypeEnum":
				dte = st.term(args[i])
			}
		}
		if cd == nil || b == nil || dte == nil {
			unsup("signature of convertByteSliceToDatatype")
		}
		bad, val := w.applyConv(cd, b, dte)
		ex.convFork(st, bad, func(s2 *State, isBad bool) {
			if isBad {
				k(s2, []Val{c.Fresh("badconv", c.F64), c.ErrI})
				return
			}
			k(s2, []Val{val, c.NilI})
		})
	}
	return ct
}

// widthContract: call sites of the data type width use its postcondition (P11)
func (w *Worker) widthContracts() {
	fn := method(w.pkgs["a2l"], "DataTypeEnum", "GetDatatypeLength")
	if fn != nil {
		w.ex.contract[fn] = &Contract{Fn: fn, Apply: func(ex *Ex, st *State, fr *Frame, args []Val, pos token.Pos, k K) {
			v := args[0]
			var d *Term
			if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
				d = ex.ptrContent(st, v, fn.Params[0].Type(), pos)
			} else {
				d = st.term(v)
			}
			k(st, []Val{ex.widthOf(d)})
		}}
	}
}

func (w *Worker) calibContracts() {
	for _, ct := range []*Contract{w.alignContract(), w.getBytesContract(), w.convContract()} {
		if ct != nil {
			w.ex.contract[ct.Fn] = ct
		}
	}
	w.widthContracts()
}

// ---------------------------------------------------------------- record layout components (P20)

type compo struct{ fn, field, ret string }

func scalarComponents() []compo {
	var r []compo
	for _, d := range []string{"X", "Y", "Z", "4", "5"} {
		for _, f := range []string{"DistOp", "Offset", "ShiftOp", "NoAxisPts"} {
			r = append(r, compo{"get" + f + d, f + d, "int64"})
		}
	}
	return append(r, compo{"getNoRescaleX", "NoRescaleX", "int64"}, compo{"getIdentification", "Identification", "bytes"}, compo{"getFncValues1D", "FncValues", "float"})
}

// recv: the type of the receiver
func (x compo) recv() string {
	if x.ret == "float" {
		return "CharacteristicValues"
	}
	return "CalibrationData"
}

func (w *Worker) scalarContract(x compo) *Contract {
	props := []string{"P20"}
	fn := method(w.pkgs[rootPkg], x.recv(), x.fn)
	if fn == nil {
		return nil
	}
	w.calibContracts()
	var s *cspec
	ct := &Contract{Fn: fn, Props: props, Safe: props}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		s = ex.symbolic(st, fr, fn)
		if !s.need("*CalibrationData", "*RecordLayout", "*uint32") {
			unsup("signature of %s", x.fn)
		}
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		cd, rl, pos := s.get("*CalibrationData"), s.get("*RecordLayout"), s.get("*uint32")
		f := ex.fld(rl, x.field)
		d := ex.fld(f, "Datatype")
		a := ex.applyAligned(cd, rl, pos, d)
		width := ex.widthOf(d)
		gbad, bytes := w.applyGetBytes(st, cd, a, width)
		bad := c.Or(c.Not(ex.fld(f, "DatatypeSet")), gbad)
		var want *Term
		switch x.ret {
		case "bytes":
			want = c.App("box:"+ex.typeName(types.NewSlice(types.Universe.Lookup("byte").Type())), c.Iface, bytes)
		case "float":
			var cbad *Term
			cbad, want = w.applyConv(cd, bytes, d)
			bad = c.Or(gbad, cbad)
		default:
			cbad, v := w.applyConv(cd, bytes, d)
			bad = c.Or(bad, cbad)
			want = c.App("f2i:int64", c.Int, v)
		}
		ok := ex.errIff(st, props, fn.Pos(), rets[len(rets)-1], bad, "error exactly if no data type is declared or the value cannot be read")
		np := st.load(s.obj["*uint32"][0])
		ex.oblige(st, props, "value", "value of component "+x.field, fn.Pos(), c.Implies(ok, c.Eq(st.term(rets[0]), want)))
		if x.ret == "float" {
			ex.oblige(st, props, "bytes", "raw bytes of component "+x.field, fn.Pos(), c.Implies(ok, c.Eq(st.term(rets[1]), bytes)))
		}
		next := ex.wrap(c.Add(a, c.Div(width, c.IntLit(8))), u32)
		ex.oblige(st, props, "position", "read position moves behind "+x.field, fn.Pos(), c.Implies(ok, c.Eq(np, next)))
		ex.oblige(st, props, "position-on-error", "read position unchanged on error", fn.Pos(), c.Or(ok, c.Eq(np, pos)))
		s.unchanged(st, props, "*CalibrationData", "*RecordLayout")
	}
	return ct
}

func (w *Worker) reservedContract() *Contract {
	props := []string{"P20"}
	fn := method(w.pkgs[rootPkg], "CalibrationData", "getReserved")
	if fn == nil {
		return nil
	}
	var s *cspec
	ct := &Contract{Fn: fn, Props: props, Safe: props}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		s = ex.symbolic(st, fr, fn)
		if !s.need("*CalibrationData", "*RecordLayout", "*uint32") {
			unsup("signature of getReserved")
		}
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		rl, pos := s.get("*RecordLayout"), s.get("*uint32")
		f := ex.fld(rl, "Reserved")
		ok := ex.errIff(st, props, fn.Pos(), rets[0], c.Not(ex.fld(f, "DataSizeSet")), "error exactly if no data size is declared")
		wd := c.IntLit(0)
		for _, x := range dataSizes {
			wd = c.Ite(c.Eq(ex.fld(f, "DataSize"), c.StrLit(x.word)), c.IntLit(x.bits/8), wd)
		}
		np := st.load(s.obj["*uint32"][0])
		ex.oblige(st, props, "position", "read position moves by the reserved size", fn.Pos(), c.Implies(ok, c.Eq(np, ex.wrap(c.Add(pos, wd), u32))))
		ex.oblige(st, props, "position-on-error", "read position unchanged on error", fn.Pos(), c.Or(ok, c.Eq(np, pos)))
		s.unchanged(st, props, "*CalibrationData", "*RecordLayout")
	}
	return ct
}

// axisContract: axis points are read one behind the other
func (w *Worker) axisContract(dim string) *Contract {
	props := []string{"P20"}
	fn := method(w.pkgs[rootPkg], "CharacteristicValues", "getAxisPoints"+dim)
	if fn == nil {
		return nil
	}
	w.calibContracts()
	var s *cspec
	var step, posf func(j *Term) *Term
	var count, d, okCount *Term
	ct := &Contract{Fn: fn, Props: props, Safe: props}
	cd := func() *Term { return s.get("*CalibrationData") }
	ex := w.ex
	c := ex.c
	bytesAt := func(st *State, j *Term) (bad, v *Term) {
		a := ex.applyAligned(cd(), s.get("*RecordLayout"), posf(j), d)
		gb, b := w.applyGetBytes(st, cd(), a, ex.widthOf(d))
		cb, v := w.applyConv(cd(), b, d)
		return c.Or(gb, cb), v
	}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		s = ex.symbolic(st, fr, fn)
		if !s.need("*CalibrationData", "*RecordLayout", "*uint32", "*CharacteristicValues") {
			unsup("signature of getAxisPoints%s", dim)
		}
		rl, cv := s.get("*RecordLayout"), s.get("*CharacteristicValues")
		d = ex.fld(rl, "AxisPts"+dim, "Datatype")
		posf = func(j *Term) *Term {
			r := c.App("axispos", c.Int, j)
			ex.fnRange["axispos"] = [2]*big.Int{new(big.Int), new(big.Int).Sub(pow2(32), big.NewInt(1))}
			return r
		}
		// definition of the position of point j
		st.assume(c.Eq(posf(c.IntLit(0)), s.get("*uint32")))
		next := func(j *Term) *Term {
			return ex.wrap(c.Add(ex.applyAligned(cd(), rl, posf(j), d), c.Div(ex.widthOf(d), c.IntLit(8))), u32)
		}
		step = func(j *Term) *Term { return c.Eq(posf(c.Add(j, c.IntLit(1))), next(j)) } // definition, used by instance
		fix := ex.fld(rl, "FixNoAxisPts"+dim)
		num := ex.fld(fix, "NumberOfAxisPoints")
		ex.noteType(num, types.Typ[types.Uint16])
		dyn := ex.fld(cv, "noAxisPts"+dim+"Value")
		count = c.Ite(ex.fld(fix, "NumberOfAxisPointsSet"), num, dyn)
		okCount = c.Or(ex.fld(fix, "NumberOfAxisPointsSet"), c.Lt(c.IntLit(0), dyn))
	}
	ct.Loop = func(ex *Ex, lr *LoopRun) *LoopSpec {
		most := c.Ite(c.Le(c.IntLit(0), count), count, c.IntLit(0))
		return &LoopSpec{Rounds: true, NoPart: true, CandProps: props, MeasMax: most,
			Meas:  func(st *State, fr *Frame, q func(string, *Term)) { q("rounds", lr.round(st)) },
			Havoc: func(st *State, fr *Frame) { st.assume(step(lr.round(st))) },
			Cands: func(st *State, fr *Frame, q func(string, *Term)) {
				k := lr.round(st)
				lr.roundCands(st, fr, q)
				q("within", c.Le(k, most))
				for _, lf := range sortLeaves(lr.mod) {
					if v, t := lr.get(st, fr, lf), lr.leafType(lf); v != nil && t != nil && types.Identical(t.Underlying(), u32) {
						q("position:"+lf, c.Eq(v, posf(k)))
					}
				}
				j := c.Fresh("j", c.Int)
				below := c.And(c.Le(c.IntLit(0), j), c.Lt(j, k))
				bad, _ := bytesAt(st, j)
				q("readable", c.Forall([]*Term{j}, c.Implies(below, c.Not(bad)), posf(j)))
				for _, lf := range lr.accLeaves(st, fr, c.SeqOf(c.F64)) {
					at := c.At(lr.get(st, fr, lf), j)
					_, v := bytesAt(st, j)
					q("content:"+lf, c.Forall([]*Term{j}, c.Implies(below, c.Eq(at, v)), at))
				}
			},
		}
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		e := st.norm(isErr(c, st, rets[1]))
		j := c.Fresh("j", c.Int)
		x := c.Fresh("x", c.Int)
		bad, _ := bytesAt(st, j)
		all := c.Forall([]*Term{j}, c.Implies(c.And(c.Le(c.IntLit(0), j), c.Lt(j, count)), c.Not(bad)), posf(j))
		ex.oblige(st, props, "error-justified", "an error only if there is no point count or a point cannot be read", fn.Pos(), c.Implies(e, c.Not(c.And(okCount, all))))
		bx, _ := bytesAt(st, x)
		ex.oblige(st, props, "count-known", "success only if the number of points is known", fn.Pos(), c.Or(e, okCount))
		ex.oblige(st, props, "all-read", "success only if every point can be read", fn.Pos(), c.Or(e, c.Implies(c.And(c.Le(c.IntLit(0), x), c.Lt(x, count)), c.Not(bx))))
		r := st.seqOf(rets[0])
		ex.oblige(st, props, "count", "as many points as declared", fn.Pos(), c.Or(e, c.Eq(c.Len(r), count)))
		_, v := bytesAt(st, x)
		ex.oblige(st, props, "value", "point x is the value at its position", fn.Pos(), c.Or(e, c.Not(c.And(c.Le(c.IntLit(0), x), c.Lt(x, count))), c.Eq(c.At(r, x), v)))
		ex.oblige(st, props, "position", "read position behind the last point", fn.Pos(), c.Or(e, c.Eq(st.load(s.obj["*uint32"][0]), posf(count))))
		s.unchanged(st, props, "*CalibrationData", "*RecordLayout", "*CharacteristicValues")
	}
	return ct
}

func (w *Worker) addressContract() *Contract {
	props := []string{"P20"}
	fn := method(w.pkgs[rootPkg], "CalibrationData", "convertStringToUint32Address")
	if fn == nil {
		return nil
	}
	var s *cspec
	ct := &Contract{Fn: fn, Props: props, Safe: props}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		s = ex.symbolic(st, fr, fn)
		if !s.need("string") {
			unsup("signature of convertStringToUint32Address")
		}
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		digits := c.App("strings.ReplaceAll", c.Str, s.get("string"), c.StrLit("0x"), c.StrLit(""))
		bad := c.App("parseuint.err", c.Bool, digits, c.IntLit(16), c.IntLit(32))
		v := c.App("parseuint", c.Int, digits, c.IntLit(16), c.IntLit(32))
		ex.rangeConv(v, true, 32)
		ok := ex.errIff(st, props, fn.Pos(), rets[1], bad, "error exactly if the text is no 32 bit hexadecimal number")
		ex.oblige(st, props, "address", "hexadecimal value of the text", fn.Pos(), c.Implies(ok, c.Eq(st.term(rets[0]), v)))
	}
	return ct
}

// ---------------------------------------------------------------- positions and types by name (P19)

// components of a record layout: its struct fields that have a position
func (w *Worker) positioned() (r []string) {
	st, ok := w.goType("a2l", "RecordLayout").Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if goField(st.Field(i).Type(), "PositionSet") != nil {
			r = append(r, st.Field(i).Name())
		}
	}
	return
}

func (w *Worker) relPosContract() *Contract {
	props := []string{"P19"}
	fn := method(w.pkgs["a2l"], "RecordLayout", "GetRecordLayoutRelativePositions")
	if fn == nil {
		return nil
	}
	var s *cspec
	ct := &Contract{Fn: fn, Props: props, Safe: props, Merge: true}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		s = ex.symbolic(st, fr, fn)
		if !s.need("*RecordLayout") {
			unsup("signature of GetRecordLayoutRelativePositions")
		}
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		rl := s.get("*RecordLayout")
		names := w.positioned()
		if len(names) < 30 {
			unsup("only %d components with a position", len(names))
		}
		set := func(i int) *Term { return ex.fld(rl, names[i], "PositionSet") }
		pos := func(i int) *Term {
			p := ex.fld(rl, names[i], "Position")
			ex.noteType(p, types.Typ[types.Uint16])
			return p
		}
		e := st.norm(isErr(c, st, rets[1]))
		var twice []*Term
		for i := range names {
			for j := i + 1; j < len(names); j++ {
				twice = append(twice, c.And(set(i), set(j), c.Eq(pos(i), pos(j))))
			}
		}
		ex.oblige(st, props, "error-justified", "an error only if two components share a position", fn.Pos(), c.Implies(e, c.Or(twice...)))
		ok := c.Not(e)
		if st.dead || st.decide(ok) == -1 {
			return
		}
		for j := range names {
			var tw []*Term
			for i := range names {
				if i != j {
					tw = append(tw, c.And(set(i), set(j), c.Eq(pos(i), pos(j))))
				}
			}
			ex.obligeOnly(st, props, "shared-position-is-error", "another component on the position of "+names[j], fn.Pos(), c.Or(e, c.Not(c.Or(tw...))))
		}
		mt := fn.Signature.Results().At(0).Type().Underlying().(*types.Map)
		m := ex.mapContent(st, st.term(rets[0]), mt)
		p := c.Fresh("p", c.Int)
		ex.noteType(p, types.Typ[types.Uint16])
		var any []*Term
		for i, n := range names {
			here := c.And(set(i), c.Eq(pos(i), p))
			any = append(any, here)
			ex.obligeOnly(st, props, "names:"+n, "position of "+n+" names "+n, fn.Pos(), c.Implies(c.And(ok, set(i)), c.And(c.Select(c.Fld(m, 0), pos(i)), c.Eq(c.Select(c.Fld(m, 1), pos(i)), c.StrLit(n)))))
		}
		ex.oblige(st, props, "nothing-else", "only declared positions are present", fn.Pos(), c.Implies(c.And(ok, c.Select(c.Fld(m, 0), p)), c.Or(any...)))
		s.unchanged(st, props, "*RecordLayout")
	}
	return ct
}

func (w *Worker) dtByNameContract() *Contract {
	props := []string{"P19"}
	fn := method(w.pkgs["a2l"], "RecordLayout", "GetDatatypeByFieldName")
	if fn == nil {
		return nil
	}
	var s *cspec
	ct := &Contract{Fn: fn, Props: props, Safe: props}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		s = ex.symbolic(st, fr, fn)
		if !s.need("*RecordLayout", "string") {
			unsup("signature of GetDatatypeByFieldName")
		}
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		rl, name := s.get("*RecordLayout"), s.get("string")
		rs := w.goType("a2l", "RecordLayout").Underlying().(*types.Struct)
		good := c.F
		want := c.StrLit("")
		cnt := 0
		for i := 0; i < rs.NumFields(); i++ {
			f := rs.Field(i)
			if goField(f.Type(), "DatatypeSet") == nil {
				continue
			}
			cnt++
			is := c.Eq(name, c.StrLit(f.Name()))
			good = c.Or(good, c.And(is, ex.fld(rl, f.Name(), "DatatypeSet")))
			want = c.Ite(is, ex.fld(rl, f.Name(), "Datatype"), want)
		}
		if cnt < 25 {
			unsup("only %d components with a data type", cnt)
		}
		ok := ex.errIff(st, props, fn.Pos(), rets[1], c.Not(good), "error exactly if there is no such component or it has no data type")
		ex.oblige(st, props, "datatype", "data type of the named component", fn.Pos(), c.Implies(ok, c.Eq(st.term(rets[0]), want)))
		s.unchanged(st, props, "*RecordLayout")
	}
	return ct
}

func (w *Worker) recordLayoutContract() *Contract {
	props := []string{"P19"}
	fn := method(w.pkgs[rootPkg], "CalibrationData", "getRecordLayout")
	if fn == nil {
		return nil
	}
	var s *cspec
	ct := &Contract{Fn: fn, Props: props, Safe: props}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		s = ex.symbolic(st, fr, fn)
		if !s.need("*CalibrationData", "*Characteristic") {
			unsup("signature of getRecordLayout")
		}
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		ch := s.get("*Characteristic")
		has, val := w.modMap(st, s.get("*CalibrationData"), ex.fld(ch, "Deposit"), "RecordLayouts")
		bad := c.Not(c.And(ex.fld(ch, "DepositSet"), has))
		ok := ex.errIff(st, props, fn.Pos(), rets[1], bad, "error exactly if there is no deposit or no layout of that name")
		if st.dead || st.decide(ok) == -1 {
			return
		}
		a := ex.toAddr(st, rets[0], fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem(), fn.Pos())
		ex.oblige(st, props, "layout", "the layout of the deposit name", fn.Pos(), c.Implies(ok, c.Eq(st.load(a), val)))
		s.unchanged(st, props, "*CalibrationData", "*Characteristic")
	}
	return ct
}

// ---------------------------------------------------------------- conversion methods (P21)

// tabSpec: ghost index of the first matching row
type tabSpec struct {
	n     *Term
	first *Term
	match func(j *Term) *Term
	trig  func(j *Term) *Term
}

func (ex *Ex) firstRow(st *State, n *Term, match, trig func(j *Term) *Term) *tabSpec {
	c := ex.c
	f := c.Fresh("first", c.Int)
	j := c.Fresh("j", c.Int)
	st.assume(c.And(c.Le(c.IntLit(0), f), c.Le(f, n)))
	st.assume(c.Forall([]*Term{j}, c.Implies(c.And(c.Le(c.IntLit(0), j), c.Lt(j, f)), c.Not(match(j))), trig(j)))
	st.assume(c.Or(c.Eq(f, n), match(f)))
	return &tabSpec{n, f, match, trig}
}

func (t *tabSpec) loop(ex *Ex, props []string, fn *ssa.Function, lr *LoopRun) *LoopSpec {
	c := ex.c
	return &LoopSpec{Rounds: true, NoPart: true, CandProps: props, MeasMax: t.n,
		Meas: func(st *State, fr *Frame, q func(string, *Term)) { q("rounds", lr.round(st)) },
		Cands: func(st *State, fr *Frame, q func(string, *Term)) {
			lr.roundCands(st, fr, q)
			q("within", c.Le(lr.round(st), t.n))
			q("no-earlier-row", c.Le(lr.round(st), t.first))
		},
	}
}

func (w *Worker) tabContract(name, kind string) *Contract {
	props := []string{"P21"}
	fn := pkgFunc(w.pkgs[rootPkg], name)
	if fn == nil {
		return nil
	}
	ex := w.ex
	c := ex.c
	var s *cspec
	var tab *tabSpec
	var has, t *Term
	ct := &Contract{Fn: fn, Props: props, Safe: props}
	eqRows := func(st *State, dec *Term) {
		in, out := ex.fld(t, "InVal"), ex.fld(t, "OutVal")
		st.assume(c.Eq(c.Len(in), c.Len(out)))
		tab = ex.firstRow(st, c.Len(in), func(j *Term) *Term { return ex.feq(dec, c.At(in, j)) }, func(j *Term) *Term { return c.At(in, j) })
	}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		s = ex.symbolic(st, fr, fn)
		if !s.need("*CalibrationData", "float64") {
			unsup("signature of %s", name)
		}
		cd, dec := s.get("*CalibrationData"), s.get("float64")
		switch kind {
		case "num":
			if !s.need("*CompuMethod") {
				unsup("signature of %s", name)
			}
			has, t = w.modMap(st, cd, ex.fld(s.get("*CompuMethod"), "CompuTabRef", "ConversionTable"), "CompuTabs")
			eqRows(st, dec)
		case "verb":
			if !s.need("*CompuVTab") {
				unsup("signature of %s", name)
			}
			has, t = w.modMap(st, cd, ex.fld(s.get("*CompuVTab"), "Name"), "CompuVTabs")
			eqRows(st, dec)
		case "range":
			if !s.need("*CompuVTabRange") {
				unsup("signature of %s", name)
			}
			has, t = w.modMap(st, cd, ex.fld(s.get("*CompuVTabRange"), "Name"), "CompuVTabRanges")
			lo, hi, out := ex.fld(t, "InValMin"), ex.fld(t, "InValMax"), ex.fld(t, "OutVal")
			st.assume(c.Eq(c.Len(lo), c.Len(out)))
			st.assume(c.Eq(c.Len(hi), c.Len(out)))
			fle := func(x, y *Term) *Term { return c.App("fle", c.Bool, x, y) }
			tab = ex.firstRow(st, c.Len(out), func(j *Term) *Term { return c.And(fle(c.At(lo, j), dec), fle(dec, c.At(hi, j))) }, func(j *Term) *Term { return c.At(lo, j) })
		}
	}
	ct.Loop = func(ex *Ex, lr *LoopRun) *LoopSpec { return tab.loop(ex, props, fn, lr) }
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		w.tabPost(st, props, fn, kind, has, t, tab, rets)
		s.unchanged(st, props, "*CalibrationData", "*CompuMethod", "*CompuVTab", "*CompuVTabRange")
	}
	return ct
}

func (w *Worker) tabResult(kind string, has, t *Term, tab *tabSpec) (bad, want *Term) {
	ex := w.ex
	c := ex.c
	out := ex.fld(t, "OutVal")
	found := c.Lt(tab.first, tab.n)
	switch kind {
	case "num":
		rows := c.And(ex.fld(t, "InValSet"), ex.fld(t, "OutValSet"))
		d := ex.fld(t, "DefaultValueNumeric")
		hit := c.And(rows, found)
		return c.Not(c.And(has, c.Or(hit, ex.fld(d, "DisplayValueSet")))), c.Ite(hit, c.At(out, tab.first), ex.fld(d, "DisplayValue"))
	case "verb":
		rows := c.And(ex.fld(t, "InValSet"), ex.fld(t, "OutValSet"))
		d := ex.fld(t, "DefaultValue")
		return c.Not(c.And(has, rows, c.Or(found, ex.fld(d, "DisplayStringSet")))), c.Ite(found, c.At(out, tab.first), ex.fld(d, "DisplayString"))
	}
	rows := ex.fld(t, "NumberValueTriplesSet")
	d := ex.fld(t, "DefaultValue")
	return c.Not(c.And(has, rows, c.Or(found, ex.fld(d, "DisplayStringSet")))), c.Ite(found, c.At(out, tab.first), ex.fld(d, "DisplayString"))
}

func (w *Worker) tabPost(st *State, props []string, fn *ssa.Function, kind string, has, t *Term, tab *tabSpec, rets []Val) {
	ex := w.ex
	c := ex.c
	bad, want := w.tabResult(kind, has, t, tab)
	ok := ex.errIff(st, props, fn.Pos(), rets[1], bad, "error exactly if there is no table, no rows or no matching row and no default")
	ex.oblige(st, props, "value", "output of the first matching row, else the default", fn.Pos(), c.Implies(ok, c.Eq(st.term(rets[0]), want)))
}

func (w *Worker) convPhyContract() *Contract {
	props := []string{"P21"}
	fn := pkgFunc(w.pkgs[rootPkg], "convDecToPhy")
	if fn == nil {
		return nil
	}
	ex := w.ex
	c := ex.c
	if rf := pkgFunc(w.pkgs[rootPkg], "calcRatFunc"); rf != nil { // outside the property: any result
		ex.contract[rf] = &Contract{Fn: rf, Apply: func(ex *Ex, st *State, fr *Frame, args []Val, pos token.Pos, k K) {
			ex.convFork(st, c.App("ratfunc.err", c.Bool, st.term(args[0])), func(s2 *State, bad bool) {
				if bad {
					k(s2, []Val{c.Fresh("rat", c.F64), c.ErrI})
				} else {
					k(s2, []Val{c.Fresh("rat", c.F64), c.NilI})
				}
			})
		}}
	}
	var s *cspec
	var tab *tabSpec
	var has, t *Term
	ct := &Contract{Fn: fn, Props: props, Safe: props}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		s = ex.symbolic(st, fr, fn)
		if !s.need("*CalibrationData", "float64", "*CompuMethod") {
			unsup("signature of convDecToPhy")
		}
		has, t = w.modMap(st, s.get("*CalibrationData"), ex.fld(s.get("*CompuMethod"), "CompuTabRef", "ConversionTable"), "CompuTabs")
		in, out := ex.fld(t, "InVal"), ex.fld(t, "OutVal")
		st.assume(c.Eq(c.Len(in), c.Len(out)))
		tab = ex.firstRow(st, c.Len(in), func(j *Term) *Term { return ex.feq(s.get("float64"), c.At(in, j)) }, func(j *Term) *Term { return c.At(in, j) })
	}
	ct.Loop = func(ex *Ex, lr *LoopRun) *LoopSpec { return tab.loop(ex, props, fn, lr) }
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		cm, dec := s.get("*CompuMethod"), s.get("float64")
		e := st.norm(isErr(c, st, rets[1]))
		r := st.term(rets[0])
		type cse struct {
			word      string
			bad, want *Term
		}
		co := ex.fld(cm, "CoeffsLinear")
		tbad, twant := w.tabResult("num", has, t, tab)
		any := c.F
		for _, x := range []cse{
			{"IDENTICAL", c.F, dec},
			{"LINEAR", c.Not(c.And(ex.fld(co, "ASet"), ex.fld(co, "BSet"))), ex.fcomm("fadd", ex.fcomm("fmul", ex.fld(co, "A"), dec), ex.fld(co, "B"))},
			{"TAB_NOINTP", tbad, twant},
		} {
			is := c.Eq(ex.fld(cm, "ConversionType"), c.StrLit(x.word))
			any = c.Or(any, is)
			if st.decide(is) == -1 {
				continue
			}
			ex.oblige(st, props, "error-iff:"+x.word, "error exactly if the conversion is not defined", fn.Pos(), c.Implies(is, c.Eq(e, x.bad)))
			ex.oblige(st, props, "value:"+x.word, "value of the conversion", fn.Pos(), c.Or(c.Not(is), e, c.Eq(r, x.want)))
		}
		ex.oblige(st, props, "unsupported", "any other conversion but RAT_FUNC is an error", fn.Pos(), c.Or(any, c.Eq(ex.fld(cm, "ConversionType"), c.StrLit("RAT_FUNC")), e))
		s.unchanged(st, props, "*CalibrationData", "*CompuMethod")
	}
	return ct
}

// ---------------------------------------------------------------- lookups (P14, P22)

func (w *Worker) sysConstContract(name string) *Contract {
	props := []string{"P22"}
	fn := method(w.pkgs[rootPkg], "CalibrationData", name)
	if fn == nil {
		return nil
	}
	var s *cspec
	ct := &Contract{Fn: fn, Props: props, Safe: props}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		s = ex.symbolic(st, fr, fn)
		if !s.need("*CalibrationData", "string") {
			unsup("signature of %s", name)
		}
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		has, val := w.modMap(st, s.get("*CalibrationData"), s.get("string"), "ModPar", "SystemConstants")
		bad, want := c.Not(has), val
		if name == "getSystemConstantValue" {
			bad = c.Not(c.And(has, ex.fld(val, "ValueSet")))
			want = ex.fld(val, "Value")
		}
		ok := ex.errIff(st, props, fn.Pos(), rets[1], bad, "error exactly if the constant is undefined")
		ex.oblige(st, props, "value", "the defined content", fn.Pos(), c.Implies(ok, c.Eq(st.term(rets[0]), want)))
		s.unchanged(st, props, "*CalibrationData")
	}
	return ct
}

var identMaps = [][]string{{"AxisPts"}, {"Characteristics"}, {"CompuMethods"}, {"CompuTabs"}, {"CompuVTabs"}, {"CompuVTabRanges"}, {"Functions"}, {"Groups"}, {"Measurements"}, {"RecordLayouts"}, {"ModPar", "SystemConstants"}, {"Units"}}

func (w *Worker) identContract() *Contract {
	props := []string{"P14"}
	fn := method(w.pkgs[rootPkg], "CalibrationData", "GetObjectByIdent")
	if fn == nil {
		return nil
	}
	var s *cspec
	ct := &Contract{Fn: fn, Props: props, Safe: props}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		s = ex.symbolic(st, fr, fn)
		if !s.need("*CalibrationData", "string") {
			unsup("signature of GetObjectByIdent")
		}
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		r := st.norm(st.seqOf(rets[0]))
		var got []*Term
		var flat func(r *Term)
		flat = func(r *Term) {
			switch r.Op {
			case "seq.lit", "seq.unit":
				got = append(got, r.Args...)
			case "seq.empty":
			case "seq.cat":
				for _, a := range r.Args {
					flat(a)
				}
			default:
				unsup("result list of GetObjectByIdent is %s", r.Op)
			}
		}
		flat(r)
		left := map[*Term]int{}
		for _, g := range got {
			left[st.norm(g)]++
		}
		for _, p := range identMaps {
			has, val := w.modMap(st, s.get("*CalibrationData"), s.get("string"), p...)
			mt := goField(w.goType("a2l", "Module"), p...).(*types.Map)
			box := st.norm(c.App("box:"+ex.typeName(mt.Elem()), c.Iface, val))
			n := left[box]
			delete(left, box)
			kind := strings.Join(p, ".")
			switch n {
			case 0:
				ex.oblige(st, props, "found:"+kind, "an object of this kind and name is returned", fn.Pos(), c.Not(has))
			case 1:
				ex.oblige(st, props, "exists:"+kind, "a returned object of this kind exists", fn.Pos(), has)
			default:
				ex.refute(st, props, "once:"+kind, "object returned more than once", fn.Pos())
			}
		}
		if len(left) > 0 {
			for t := range left {
				ex.refute(st, props, "nothing-else", "unexpected object "+short(t), fn.Pos())
				break
			}
		} else {
			ex.oblige(st, props, "nothing-else", "no other object is returned", fn.Pos(), c.T)
		}
		s.unchanged(st, props, "*CalibrationData")
	}
	return ct
}

func calibUnits() []*Unit {
	r := rootPkg + "."
	us := []*Unit{
		contractUnit(r+"ReadCalibration", []string{"P15"}, func(w *Worker) *Contract { return readCalContract(w, []string{"P15"}) }),
		contractUnit(r+"(*CalibrationData).getNextAlignedAddress", []string{"P16"}, func(w *Worker) *Contract { return w.alignContract() }),
		alignLemma(),
		contractUnit(r+"(*CalibrationData).getBytes", []string{"P17"}, func(w *Worker) *Contract { return w.getBytesContract() }),
		contractUnit(r+"(*CalibrationData).convertByteSliceToDatatype", []string{"P18"}, func(w *Worker) *Contract { w.widthContracts(); return w.convContract() }),
		contractUnit(r+"(*CalibrationData).getReserved", []string{"P20"}, func(w *Worker) *Contract { return w.reservedContract() }),
		contractUnit(r+"(*CalibrationData).convertStringToUint32Address", []string{"P20"}, func(w *Worker) *Contract { return w.addressContract() }),
		contractUnit("a2l.(*RecordLayout).GetRecordLayoutRelativePositions", []string{"P19"}, func(w *Worker) *Contract { return w.relPosContract() }),
		contractUnit("a2l.(*RecordLayout).GetDatatypeByFieldName", []string{"P19"}, func(w *Worker) *Contract { return w.dtByNameContract() }),
		contractUnit(r+"(*CalibrationData).getRecordLayout", []string{"P19"}, func(w *Worker) *Contract { return w.recordLayoutContract() }),
		contractUnit(r+"calcTabNoIntp", []string{"P21"}, func(w *Worker) *Contract { return w.tabContract("calcTabNoIntp", "num") }),
		contractUnit(r+"calcTabVerb", []string{"P21"}, func(w *Worker) *Contract { return w.tabContract("calcTabVerb", "verb") }),
		contractUnit(r+"calcTabVerbRange", []string{"P21"}, func(w *Worker) *Contract { return w.tabContract("calcTabVerbRange", "range") }),
		contractUnit(r+"convDecToPhy", []string{"P21"}, func(w *Worker) *Contract { return w.convPhyContract() }),
		contractUnit(r+"(*CalibrationData).getSystemConstant", []string{"P22"}, func(w *Worker) *Contract { return w.sysConstContract("getSystemConstant") }),
		contractUnit(r+"(*CalibrationData).getSystemConstantValue", []string{"P22"}, func(w *Worker) *Contract { return w.sysConstContract("getSystemConstantValue") }),
		contractUnit(r+"(*CalibrationData).GetObjectByIdent", []string{"P14"}, func(w *Worker) *Contract { return w.identContract() }),
	}
	for _, x := range scalarComponents() {
		x := x
		us = append(us, contractUnit(r+"(*"+x.recv()+")."+x.fn, []string{"P20"}, func(w *Worker) *Contract { return w.scalarContract(x) }))
	}
	for _, d := range []string{"X", "Y", "Z", "4", "5"} {
		d := d
		us = append(us, contractUnit(r+"(*CharacteristicValues).getAxisPoints"+d, []string{"P20"}, func(w *Worker) *Contract { return w.axisContract(d) }))
	}
	return us
}
