package main

// Contracts of the two hex file readers (ihex32, srec19): records, checksums, data entries.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type hexFmt struct {
	pkg        string
	pv, pe, ps string // properties: values, errors, independence of workers
	ihex       bool
}

var hexFmts = []*hexFmt{{"ihex32", "P01", "P02", "P03", true}, {"srec19", "P04", "P05", "P04", false}}

func (f *hexFmt) all() []string {
	r := []string{f.pv, f.pe}
	if f.ps != f.pv {
		r = append(r, f.ps)
	}
	return append(r, "P06")
}

func isHexDigit(b byte) (int64, bool) {
	switch {
	case b >= '0' && b <= '9':
		return int64(b - '0'), true
	case b >= 'a' && b <= 'f':
		return int64(b-'a') + 10, true
	case b >= 'A' && b <= 'F':
		return int64(b-'A') + 10, true
	}
	return 0, false
}

// hexPair: value of two hexadecimal digits; uniform: no mix of upper and lower case letters
func hexPair(s string) (v int64, ok, uniform bool) {
	if len(s) != 2 {
		return 0, false, false
	}
	a, ok1 := isHexDigit(s[0])
	b, ok2 := isHexDigit(s[1])
	if !ok1 || !ok2 {
		return 0, false, false
	}
	return a*16 + b, true, s == strings.ToUpper(s) || s == strings.ToLower(s)
}

func hexLits() map[string]func(c *Ctx, s string) *Term {
	return map[string]func(c *Ctx, s string) *Term{
		"hexok": func(c *Ctx, s string) *Term {
			_, ok, uni := hexPair(s)
			if !ok {
				return c.F
			}
			if uni {
				return c.T
			}
			return nil
		},
		"hexval": func(c *Ctx, s string) *Term {
			if v, ok, _ := hexPair(s); ok {
				return c.IntLit(v)
			}
			return nil
		},
	}
}

func (ex *Ex) hexok(t *Term) *Term { return ex.c.App("hexok", ex.c.Bool, t) }
func (ex *Ex) hexval(t *Term) *Term {
	ex.fnRange["hexval"] = [2]*big.Int{big.NewInt(0), big.NewInt(255)}
	return ex.c.App("hexval", ex.c.Int, t)
}

// hexTables: the conversion tables of the readers are represented by hexok / hexval
func (ex *Ex) hexTables() {
	for _, f := range hexFmts {
		p := ex.pkgs[f.pkg]
		if p == nil {
			continue
		}
		if g := p.Var("hexBytes"); g != nil && ex.ground[g] != nil {
			ex.ground[g].Sym = func(ex *Ex, key *Term) (*Term, *Term) {
				ok := ex.hexok(key)
				return ok, ex.c.Ite(ok, ex.hexval(key), ex.c.IntLit(0))
			}
		}
		ex.constGlobals(p)
	}
}

// constGlobals: package variables with a constant initial value that are never assigned elsewhere
func (ex *Ex) constGlobals(pkg *ssa.Package) {
	init := pkg.Func("init")
	vals := map[*ssa.Global]*ssa.Const{}
	written := map[*ssa.Global]int{}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					g, ok := (*o).(*ssa.Global)
					if !ok {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					written[g]++
					if s, ok := in.(*ssa.Store); ok && f == init {
						if k, ok := s.Val.(*ssa.Const); ok {
							vals[g] = k
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			scan(a)
		}
	}
	for _, m := range pkg.Members {
		switch x := m.(type) {
		case *ssa.Function:
			scan(x)
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := ex.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := ex.prog.MethodValue(ms.At(i)); f != nil && f.Pkg == pkg {
						scan(f)
					}
				}
			}
		}
	}
	for g, k := range vals {
		if written[g] == 1 {
			if t, ok := ex.constVal(k).(*Term); ok {
				ex.ginit[g] = t
			}
		}
	}
}

func factOblig(fn, name, detail string, props []string, ok bool) *Oblig {
	o := &Oblig{Fn: fn, Name: name, Detail: detail, Props: props, Res: "unsat", Trivial: true, Solver: "simplifier"}
	if !ok {
		o.Res, o.Trivial, o.Failed = "sat", false, true
	}
	return o
}

// hexTableUnit: the table maps pairs of hexadecimal digits to their value, and nothing else
func hexTableUnit(f *hexFmt) *Unit {
	props := []string{f.pv, f.pe}
	name := f.pkg + ".hexBytes"
	return &Unit{Name: name, Props: props, Run: func(w *Worker) []*Oblig {
		p := w.pkgs[f.pkg]
		if p == nil {
			return missing(name, props)
		}
		g := p.Var("hexBytes")
		if g == nil || w.ex.ground[g] == nil {
			return []*Oblig{factOblig(name, "table-constant", "hexBytes is a table that is only written by its initialiser", props, false)}
		}
		gm := w.ex.ground[g]
		obs := []*Oblig{factOblig(name, "table-constant", "hexBytes is a table that is only written by its initialiser", props, true)}
		ks := make([]string, 0)
		for k := range gm.Ints {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			v, ok, _ := hexPair(k)
			obs = append(obs, factOblig(name, "table-entry:"+k, fmt.Sprintf("%q is two hexadecimal digits with the value %d", k, gm.Ints[k]), props, ok && v == gm.Ints[k]))
		}
		miss := 0
		for _, set := range []string{"0123456789ABCDEF", "0123456789abcdef"} {
			for i := range set {
				for j := range set {
					if _, ok := gm.Ints[set[i:i+1]+set[j:j+1]]; !ok {
						miss++
					}
				}
			}
		}
		obs = append(obs, factOblig(name, "table-complete", fmt.Sprintf("%d pairs of digits are missing", miss), props, miss == 0))
		return obs
	}}
}

// ---------------------------------------------------------------- loops

// stepper: the phi that counts the rounds, its entry value and its constant step
func (lr *LoopRun) stepper() (ph *ssa.Phi, entry *Term, step int64) {
	for _, p := range lr.phis() {
		if _, _, ok := isIntType(p.Type()); !ok {
			continue
		}
		e, ok := lr.entryF.env[p].(*Term)
		if !ok {
			continue
		}
		var st int64
		good := true
		for i, pr := range lr.l.header.Preds {
			if !lr.l.blocks[pr] {
				continue
			}
			b, ok := p.Edges[i].(*ssa.BinOp)
			if !ok || b.Op != token.ADD {
				good = false
				break
			}
			y := b.Y
			if b.X != p {
				y = b.X
				if b.Y != p {
					good = false
					break
				}
			}
			k, ok := y.(*ssa.Const)
			if !ok || k.Value == nil || k.Int64() <= 0 || (st != 0 && st != k.Int64()) {
				good = false
				break
			}
			st = k.Int64()
		}
		if good && st > 0 {
			return p, lr.entryS.norm(e), st
		}
	}
	return nil, nil, 0
}

// rounds: number of completed rounds; in the havocked state the counter is expressed by it
func (lr *LoopRun) rounds(st *State, fr *Frame, havoc bool) *Term {
	c := lr.ex.c
	ph, e, step := lr.stepper()
	if ph == nil {
		unsup("loop without a counter")
	}
	if havoc {
		n := c.Fresh("n", c.Int)
		lr.ex.ranges[n] = [2]*big.Int{new(big.Int), nil}
		fr.env[ph] = c.Add(e, c.Mul(c.IntLit(step), n))
		return n
	}
	n := c.DivExact(c.Sub(st.norm(st.term(fr.env[ph])), e), step)
	if n == nil {
		unsup("loop counter does not grow by its step")
	}
	return n
}

// loopInv builds a LoopSpec from a list of invariants over the number of completed rounds
func (ex *Ex) loopInv(lr *LoopRun, props []string, what string, pos token.Pos, inv func(st *State, fr *Frame, n *Term, goal bool, f func(name string, t *Term))) *LoopSpec {
	return &LoopSpec{
		Havoc: func(st *State, fr *Frame) {
			n := lr.rounds(st, fr, true)
			inv(st, fr, n, false, func(_ string, t *Term) { st.assume(t) })
		},
		Arrive: func(st *State, fr *Frame, back bool) {
			n := lr.rounds(st, fr, false)
			inv(st, fr, n, true, func(name string, t *Term) { ex.obligeOnly(st, props, "invariant:"+name, what, pos, t) })
		},
	}
}

// every: for all j in [lo,hi) body(j); as a goal for an arbitrary j, as a hypothesis with a trigger
func (ex *Ex) every(goal bool, lo, hi *Term, body func(j *Term) (*Term, *Term)) *Term {
	c := ex.c
	j := c.Fresh("j", c.Int)
	b, pat := body(j)
	t := c.Implies(c.And(c.Le(lo, j), c.Lt(j, hi)), b)
	if goal {
		return t
	}
	return c.Forall([]*Term{j}, t, pat)
}

// ---------------------------------------------------------------- hexToByte

func (f *hexFmt) fn(w *Worker, name string) *ssa.Function {
	p := w.pkgs[f.pkg]
	if p == nil {
		return nil
	}
	return pkgFunc(p, name)
}

func (f *hexFmt) recMethod(w *Worker, name string) *ssa.Function {
	return method(w.pkgs[f.pkg], "record", name)
}

func (f *hexFmt) toByteContract(w *Worker) *Contract {
	props := []string{f.pv, f.pe}
	fn := f.fn(w, "hexToByte")
	if fn == nil {
		return nil
	}
	var s *cspec
	ct := &Contract{Fn: fn, Props: props}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		s = ex.symbolic(st, fr, fn)
		if !s.need("string") {
			unsup("signature of hexToByte")
		}
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		x := s.get("string")
		good := ex.errIff(st, props, fn.Pos(), rets[1], ex.c.Not(ex.hexok(x)), "an error exactly if the text is no pair of hexadecimal digits")
		ex.oblige(st, props, "value", "value of the digits", fn.Pos(), ex.c.Implies(good, ex.c.Eq(st.term(rets[0]), ex.hexval(x))))
	}
	ct.Apply = func(ex *Ex, st *State, fr *Frame, args []Val, pos token.Pos, k K) {
		x := st.term(args[0])
		ex.convFork(st, st.norm(ex.c.Not(ex.hexok(x))), func(s2 *State, bad bool) {
			if bad {
				k(s2, []Val{ex.c.Fresh("badhex", ex.c.Int), ex.c.ErrI})
				return
			}
			k(s2, []Val{ex.hexval(x), ex.c.NilI})
		})
	}
	return ct
}

// ---------------------------------------------------------------- records

// line-level specification
func (f *hexFmt) typ(ex *Ex, l *Term) *Term {
	if f.ihex {
		return ex.sub(l, 7, 9)
	}
	return ex.sub(l, 1, 2)
}
func (ex *Ex) sub(l *Term, a, b int64) *Term {
	return ex.c.SSub(l, ex.c.IntLit(a), ex.c.IntLit(b))
}
func (f *hexFmt) first() int64 { // position of the data
	if f.ihex {
		return 9
	}
	return 12
}
func (f *hexFmt) ndata(ex *Ex, l *Term) *Term {
	c := ex.c
	if f.ihex {
		return ex.hexval(ex.sub(l, 1, 3))
	}
	return c.Sub(ex.hexval(ex.sub(l, 2, 4)), c.IntLit(5))
}
func (f *hexFmt) dat(ex *Ex, l, j *Term) *Term { return ex.c.App("hx.dat", ex.c.Str, l, j) }
func (f *hexFmt) datDef(ex *Ex, l, j *Term) *Term {
	c := ex.c
	a := c.Add(c.IntLit(f.first()), c.Mul(c.IntLit(2), j))
	return c.Eq(f.dat(ex, l, j), c.SSub(l, a, c.Add(a, c.IntLit(2))))
}

func (f *hexFmt) isData(ex *Ex, typ *Term) *Term {
	if f.ihex {
		return ex.c.Eq(typ, ex.c.StrLit("00"))
	}
	return ex.c.Eq(typ, ex.c.StrLit("3"))
}

// dataLine: the line is a record with a byte count, an address and a checksum
func (f *hexFmt) fullRecord(ex *Ex, l *Term) *Term {
	c := ex.c
	n := c.SLen(l)
	if f.ihex {
		hv := ex.hexval(ex.sub(l, 1, 3))
		return c.And(c.Le(c.IntLit(11), n), c.Eq(c.SAt(l, c.IntLit(0)), c.IntLit(':')), ex.hexok(ex.sub(l, 1, 3)), c.Eq(n, c.Add(c.IntLit(11), c.Mul(c.IntLit(2), hv))),
			c.Implies(c.Eq(f.typ(ex, l), c.StrLit("04")), c.Eq(n, c.IntLit(15))))
	}
	hv := ex.hexval(ex.sub(l, 2, 4))
	return c.And(c.Le(c.IntLit(12), n), c.Eq(c.SAt(l, c.IntLit(0)), c.IntLit('S')), f.isData(ex, f.typ(ex, l)), ex.hexok(ex.sub(l, 2, 4)), c.Le(c.IntLit(5), hv), c.Eq(n, c.Add(c.IntLit(4), c.Mul(c.IntLit(2), hv))))
}

func (f *hexFmt) parseok(ex *Ex, l *Term) *Term {
	c := ex.c
	if f.ihex {
		return f.fullRecord(ex, l)
	}
	other := c.F
	for _, t := range []string{"0", "5", "6", "7", "8", "9"} {
		other = c.Or(other, c.Eq(f.typ(ex, l), c.StrLit(t)))
	}
	return c.Or(f.fullRecord(ex, l), c.And(c.Le(c.IntLit(2), c.SLen(l)), c.Eq(c.SAt(l, c.IntLit(0)), c.IntLit('S')), other))
}

// texts of the fields of a full record
func (f *hexFmt) fields(ex *Ex, l *Term) map[string]*Term {
	c := ex.c
	n := c.SLen(l)
	m := map[string]*Term{"recordType": f.typ(ex, l), "checksum": c.SSub(l, c.Sub(n, c.IntLit(2)), n)}
	if f.ihex {
		m["byteCount"] = ex.sub(l, 1, 3)
		m["addressField"] = ex.sub(l, 3, 7)
		m["offset"] = c.Ite(c.Eq(f.typ(ex, l), c.StrLit("04")), ex.sub(l, 9, 13), c.StrLit("0000"))
	} else {
		m["byteCount"] = ex.sub(l, 2, 4)
		m["addressField"] = ex.sub(l, 4, 12)
	}
	return m
}

func (f *hexFmt) recSort(ex *Ex) *Sort {
	t, ok := ex.pkgs[f.pkg].Members["record"].(*ssa.Type)
	if !ok {
		unsup("no type record in %s", f.pkg)
	}
	return ex.sortOf(t.Type())
}

func (f *hexFmt) parseRecordContract(w *Worker) *Contract {
	pv, pe := []string{f.pv}, []string{f.pe}
	fn := f.fn(w, "parseRecord")
	if fn == nil {
		return nil
	}
	var s *cspec
	var l *Term
	ct := &Contract{Fn: fn, Props: []string{f.pv, f.pe}, Safe: []string{f.pv, f.pe}}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		s = ex.symbolic(st, fr, fn)
		if !s.need("string") {
			unsup("signature of parseRecord")
		}
		l = s.get("string")
	}
	ct.Loop = func(ex *Ex, lr *LoopRun) *LoopSpec {
		c := ex.c
		return ex.loopInv(lr, pv, "data loop of parseRecord", fn.Pos(), func(st *State, fr *Frame, n *Term, goal bool, g func(string, *Term)) {
			g("range", c.Le(n, c.Div(c.Sub(c.SLen(l), c.IntLit(f.first()+2)), c.IntLit(2))))
			for _, lf := range lr.accLeaves(st, fr, c.SeqOf(c.Str)) {
				v := lr.get(st, fr, lf)
				g("length", c.Eq(c.Len(v), n))
				if goal {
					st.assume(f.datDef(ex, l, c.Sub(n, c.IntLit(1))))
				}
				g("content", ex.every(goal, c.IntLit(0), n, func(j *Term) (*Term, *Term) { return c.Eq(c.At(v, j), f.dat(ex, l, j)), c.At(v, j) }))
			}
		})
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		good := ex.errIff(st, pe, fn.Pos(), rets[1], c.Not(f.parseok(ex, l)), "an error exactly if the line is no complete record")
		if st.decide(st.norm(good)) == -1 {
			return
		}
		r := ex.ptrContent(st, rets[0], fn.Signature.Results().At(0).Type(), fn.Pos())
		full := f.fullRecord(ex, l)
		for _, nm := range sortedTermKeys(f.fields(ex, l)) {
			both := pv
			if nm != "offset" {
				both = []string{f.pv, f.pe}
			}
			ex.oblige(st, both, "field:"+nm, "text of the field "+nm, fn.Pos(), c.Implies(c.And(good, full), c.Eq(ex.fld(r, nm), f.fields(ex, l)[nm])))
		}
		if !f.ihex {
			ex.oblige(st, []string{f.pv, f.pe}, "field:type", "type of a record without data", fn.Pos(), c.Implies(good, c.Eq(ex.fld(r, "recordType"), f.typ(ex, l))))
		}
		d := ex.fld(r, "data")
		j := c.Fresh("j", c.Int)
		st.assume(f.datDef(ex, l, j))
		ex.oblige(st, []string{f.pv, f.pe}, "data-length", "as many data bytes as declared", fn.Pos(), c.Implies(c.And(good, full), c.Eq(c.Len(d), f.ndata(ex, l))))
		ex.oblige(st, []string{f.pv, f.pe}, "data", "data byte j is at its position in the line", fn.Pos(), c.Implies(c.And(good, full, c.Le(c.IntLit(0), j), c.Lt(j, f.ndata(ex, l))), c.Eq(c.At(d, j), f.dat(ex, l, j))))
	}
	return ct
}

func sortedTermKeys(m map[string]*Term) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func hexUnits() []*Unit {
	var us []*Unit
	for _, f := range hexFmts {
		f := f
		us = append(us, hexTableUnit(f), hexLemmaUnit(f),
			contractUnit(f.pkg+".hexToByte", []string{f.pv, f.pe}, func(w *Worker) *Contract { return f.toByteContract(w) }),
			contractUnit(f.pkg+".(*record).validateChecksum", []string{f.pe}, func(w *Worker) *Contract { f.use(w); return f.checksumContract(w) }),
			contractUnit(f.pkg+".(*record).calcDataEntries", []string{f.pv, "P06"}, func(w *Worker) *Contract { f.use(w); return f.entriesContract(w) }),
			contractUnit(f.pkg+".parseRecordRoutine", []string{f.pv, f.pe}, func(w *Worker) *Contract { f.use(w); return f.parseRoutineContract(w) }),
			contractUnit(f.pkg+".validateChecksumsRoutine", []string{f.pe}, func(w *Worker) *Contract { f.use(w); return f.sumRoutineContract(w) }),
			contractUnit(f.pkg+".calcDataRoutine", []string{f.pv, "P06"}, func(w *Worker) *Contract { f.use(w); return f.calcRoutineContract(w) }),
			contractUnit(f.pkg+".parseRecord", []string{f.pv, f.pe}, func(w *Worker) *Contract { f.use(w); return f.parseRecordContract(w) }),
		)
	}
	for _, f := range hexFmts {
		f := f
		us = append(us, contractUnit(f.pkg+".ParseFromFile", []string{f.pv, f.pe}, func(w *Worker) *Contract { return f.fileContract(w) }))
		for _, mode := range []string{"valid", "collision", "badline", "badsum"} {
			mode := mode
			props := map[string][]string{"valid": {f.pv, "P06"}, "collision": {"P06"}, "badline": {f.pe}, "badsum": {f.pe}}[mode]
			if f.ps != f.pv {
				props = append(props, f.ps)
			}
			us = append(us, contractUnit(f.pkg+".parseHex:"+mode, props, func(w *Worker) *Contract { return f.parseHexContract(w, mode, props) }))
		}
	}
	us = append(us, contractUnit("ihex32.addOffsets", []string{"P01", "P03"}, func(w *Worker) *Contract { return hexFmts[0].offsetsContract(w) }))
	return us
}

// use registers the contracts at their call sites
func (f *hexFmt) use(w *Worker) {
	if ct := f.toByteContract(w); ct != nil {
		w.ex.contract[ct.Fn] = ct
	}
	for _, ct := range []*Contract{f.applyParseRecord(w), f.checksumContract(w), f.entriesContract(w)} {
		if ct != nil {
			w.ex.contract[ct.Fn] = ct
		}
	}
}

// ---------------------------------------------------------------- checksums

func (f *hexFmt) addrLen() int64 {
	if f.ihex {
		return 4
	}
	return 8
}

// headPairs: the texts in front of the data that are part of the byte sum
func (f *hexFmt) headPairs(ex *Ex, r *Term) []*Term {
	a := ex.fld(r, "addressField")
	ps := []*Term{ex.fld(r, "byteCount")}
	for i := int64(0); i < f.addrLen(); i += 2 {
		ps = append(ps, ex.sub(a, i, i+2))
	}
	if f.ihex {
		ps = append(ps, ex.fld(r, "recordType"))
	}
	return ps
}

func (ex *Ex) dsum(d, j *Term) *Term { return ex.c.App("hx.sum", ex.c.Int, d, j) }

// cs: the record consists of hexadecimal digits and its byte sum is right
func (f *hexFmt) cs(ex *Ex, r *Term) *Term {
	a := []*Term{ex.fld(r, "byteCount"), ex.fld(r, "addressField"), ex.fld(r, "data"), ex.fld(r, "checksum")}
	if f.ihex {
		a = append(a, ex.fld(r, "recordType"))
	}
	return ex.c.App("hx.cs:"+f.pkg, ex.c.Bool, a...)
}

// csParts: the definition of cs
func (f *hexFmt) csDigits(ex *Ex, r *Term, goal bool) *Term {
	c := ex.c
	d := ex.fld(r, "data")
	t := ex.every(goal, c.IntLit(0), c.Len(d), func(j *Term) (*Term, *Term) { return ex.hexok(c.At(d, j)), c.At(d, j) })
	for _, p := range f.headPairs(ex, r) {
		t = c.And(t, ex.hexok(p))
	}
	return c.And(t, ex.hexok(ex.fld(r, "checksum")))
}
func (f *hexFmt) csSum(ex *Ex, r *Term) *Term {
	c := ex.c
	d := ex.fld(r, "data")
	s := c.Add(ex.dsum(d, c.Len(d)), ex.hexval(ex.fld(r, "checksum")))
	for _, p := range f.headPairs(ex, r) {
		s = c.Add(s, ex.hexval(p))
	}
	want := int64(0)
	if !f.ihex {
		want = 255
	}
	return c.Eq(c.Mod(s, c.IntLit(256)), c.IntLit(want))
}

func (f *hexFmt) checksumContract(w *Worker) *Contract {
	props := []string{f.pe}
	fn := f.recMethod(w, "validateChecksum")
	if fn == nil {
		return nil
	}
	var s *cspec
	var r *Term
	ct := &Contract{Fn: fn, Props: props, Safe: props}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		c := ex.c
		s = ex.symbolic(st, fr, fn)
		if !s.need("*record") {
			unsup("signature of validateChecksum")
		}
		r = s.get("*record")
		st.assume(c.Eq(c.SLen(ex.fld(r, "addressField")), c.IntLit(f.addrLen())))
		st.assume(c.Eq(ex.dsum(ex.fld(r, "data"), c.IntLit(0)), c.IntLit(0)))
	}
	ct.Loop = func(ex *Ex, lr *LoopRun) *LoopSpec {
		c := ex.c
		d := ex.fld(r, "data")
		n, z, one := c.Len(d), c.IntLit(0), c.IntLit(1)
		heads := f.headPairs(ex, r)
		h := c.IntLit(int64(len(heads)))
		// the record as a list of pairs: the leading fields, the data, the checksum
		sum := func(k *Term) *Term {
			t := ex.dsum(d, c.Ite(c.Le(k, h), z, c.Ite(c.Le(k, c.Add(h, n)), c.Sub(k, h), n)))
			for i, p := range heads {
				t = c.Add(t, c.Ite(c.Lt(c.IntLit(int64(i)), k), ex.hexval(p), z))
			}
			return c.Add(t, c.Ite(c.Lt(c.Add(h, n), k), ex.hexval(ex.fld(r, "checksum")), z))
		}
		digits := func(o int64, k *Term) *Term {
			e := c.Add(c.IntLit(o), k)
			j := c.Fresh("j", c.Int)
			t := c.Forall([]*Term{j}, c.Implies(c.And(c.Le(z, j), c.Lt(j, n), c.Lt(j, c.Sub(e, h))), ex.hexok(c.At(d, j))), c.At(d, j))
			for i, p := range heads {
				if int64(i) >= o {
					t = c.And(t, c.Implies(c.Lt(c.IntLit(int64(i)), e), ex.hexok(p)))
				}
			}
			return c.And(t, c.Implies(c.Lt(c.Add(h, n), e), ex.hexok(ex.fld(r, "checksum"))))
		}
		most := c.Add(h, n, one)
		from := []int64{0, 1, int64(len(heads))}
		return &LoopSpec{Rounds: true, NoPart: true, CandProps: props, MeasMax: most,
			Meas: func(st *State, fr *Frame, q func(string, *Term)) { q("rounds", lr.round(st)) },
			Havoc: func(st *State, fr *Frame) {
				for _, o := range from {
					m := c.Sub(c.Add(c.IntLit(o), lr.round(st)), h)
					st.assume(c.Implies(c.And(c.Le(z, m), c.Lt(m, n)), c.Eq(ex.dsum(d, c.Add(m, one)), c.Add(ex.dsum(d, m), ex.hexval(c.At(d, m))))))
				}
			},
			Cands: func(st *State, fr *Frame, q func(string, *Term)) {
				k := lr.round(st)
				lr.roundCands(st, fr, q)
				q("within", c.Le(k, most))
				q("within-data", c.Le(k, n))
				q("within-rest", c.Le(k, c.Add(n, one)))
				for _, o := range from {
					at := fmt.Sprint(" from field ", o)
					q("digits"+at, digits(o, k))
					for _, lf := range sortLeaves(lr.mod) {
						v, e, t := lr.get(st, fr, lf), lr.get(lr.entryS, lr.entryF, lf), lr.leafType(lf)
						if v == nil || e == nil || t == nil {
							continue
						}
						if _, _, ok := isIntType(t); ok {
							q("sum"+at+":"+lf, c.Eq(v, ex.wrap(c.Add(e, c.Sub(sum(c.Add(c.IntLit(o), k)), sum(c.IntLit(o)))), t)))
						}
					}
				}
			}}
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		ok := c.And(st.term(rets[0]), c.Not(isErr(c, st, rets[1])))
		ex.oblige(st, props, "accepted-digits", "accepted only if all is hexadecimal", fn.Pos(), c.Implies(ok, f.csDigits(ex, r, true)))
		ex.oblige(st, props, "accepted-sum", "accepted only if the byte sum is right", fn.Pos(), c.Implies(ok, f.csSum(ex, r)))
		ex.oblige(st, props, "rejected", "rejected only if a digit or the byte sum is wrong", fn.Pos(), c.Or(ok, c.Not(c.And(f.csDigits(ex, r, false), f.csSum(ex, r)))))
		s.unchanged(st, props, "*record")
	}
	ct.Apply = func(ex *Ex, st *State, fr *Frame, args []Val, pos token.Pos, k K) {
		c := ex.c
		r := ex.ptrContent(st, args[0], fn.Params[0].Type(), pos)
		ex.oblige(st, ex.safeProps(), "precondition", "the address field is complete", pos, c.Eq(c.SLen(ex.fld(r, "addressField")), c.IntLit(f.addrLen())))
		ex.convFork(st, f.cs(ex, r), func(s2 *State, good bool) {
			if good {
				k(s2, []Val{c.T, c.NilI})
				return
			}
			k(s2, []Val{c.F, c.Fresh("err", c.Iface)})
		})
	}
	return ct
}

// accumulates: the phi is updated by adding to itself
func (lr *LoopRun) accumulates(p *ssa.Phi) bool {
	for i, pr := range lr.l.header.Preds {
		if !lr.l.blocks[pr] {
			continue
		}
		if b, ok := p.Edges[i].(*ssa.BinOp); !ok || b.Op != token.ADD || (b.X != p && b.Y != p) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- data entries

// entryAddr: address of byte j of a record
func (f *hexFmt) entryAddr(ex *Ex, r, j *Term) *Term {
	if f.ihex {
		return ex.c.App("hx.addr:"+f.pkg, ex.c.Int, ex.fld(r, "addressField"), ex.fld(r, "offset"), j)
	}
	return ex.c.App("hx.addr:"+f.pkg, ex.c.Int, ex.fld(r, "addressField"), j)
}
func (ex *Ex) hexNum(s *Term, n int64) *Term {
	c := ex.c
	v := c.IntLit(0)
	for i := int64(0); i < n; i += 2 {
		v = c.Add(c.Mul(c.IntLit(256), v), ex.hexval(ex.sub(s, i, i+2)))
	}
	return v
}
func (f *hexFmt) entryAddrDef(ex *Ex, r, j *Term) *Term {
	c := ex.c
	a := c.Add(ex.hexNum(ex.fld(r, "addressField"), f.addrLen()), j)
	if f.ihex {
		return c.Add(c.Mul(c.BigLit(pow2(16)), ex.hexNum(ex.fld(r, "offset"), 4)), c.Mod(a, c.BigLit(pow2(16))))
	}
	return c.Mod(a, c.BigLit(pow2(32)))
}

// hexText: a text of n hexadecimal digits
func (ex *Ex) hexText(s *Term, n int64) *Term {
	c := ex.c
	t := c.Eq(c.SLen(s), c.IntLit(n))
	for i := int64(0); i < n; i += 2 {
		t = c.And(t, ex.hexok(ex.sub(s, i, i+2)))
	}
	return t
}

// entriesPre: what calcDataEntries relies on
func (f *hexFmt) entriesPre(ex *Ex, r *Term, goal bool) *Term {
	c := ex.c
	d := ex.fld(r, "data")
	t := c.And(ex.hexText(ex.fld(r, "addressField"), f.addrLen()),
		ex.every(goal, c.IntLit(0), c.Len(d), func(j *Term) (*Term, *Term) { return ex.hexok(c.At(d, j)), c.At(d, j) }))
	if f.ihex {
		t = c.And(t, ex.hexText(ex.fld(r, "offset"), 4))
	}
	return t
}

// entok: what calcDataEntries relies on, as a predicate (entriesPre is its definition)
func (f *hexFmt) entok(ex *Ex, r *Term) *Term {
	a := []*Term{ex.fld(r, "addressField"), ex.fld(r, "data")}
	if f.ihex {
		a = append(a, ex.fld(r, "offset"))
	}
	return ex.c.App("hx.entok:"+f.pkg, ex.c.Bool, a...)
}

func (f *hexFmt) entriesContract(w *Worker) *Contract {
	props := []string{f.pv, "P06"}
	fn := f.recMethod(w, "calcDataEntries")
	if fn == nil {
		return nil
	}
	var s *cspec
	var r *Term
	ct := &Contract{Fn: fn, Props: props, Safe: props}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		s = ex.symbolic(st, fr, fn)
		if !s.need("*record") {
			unsup("signature of calcDataEntries")
		}
		r = s.get("*record")
		st.assume(f.entok(ex, r))
		st.assume(f.entriesPre(ex, r, false))
	}
	elem := func(ex *Ex, e, j *Term) *Term {
		c := ex.c
		return c.And(c.Eq(ex.fld(e, "address"), f.entryAddr(ex, r, j)), c.Eq(ex.fld(e, "value"), ex.hexval(c.At(ex.fld(r, "data"), j))))
	}
	ct.Loop = func(ex *Ex, lr *LoopRun) *LoopSpec {
		c := ex.c
		d := ex.fld(r, "data")
		n := c.Len(d)
		return &LoopSpec{Rounds: true, NoPart: true, CandProps: props, MeasMax: n,
			Meas: func(st *State, fr *Frame, q func(string, *Term)) { q("rounds", lr.round(st)) },
			Havoc: func(st *State, fr *Frame) {
				k := lr.round(st)
				st.assume(c.Eq(f.entryAddr(ex, r, k), f.entryAddrDef(ex, r, k)))
				st.assume(c.Implies(c.Lt(k, n), ex.hexok(c.At(d, k))))
			},
			Cands: func(st *State, fr *Frame, q func(string, *Term)) {
				k := lr.round(st)
				lr.roundCands(st, fr, q)
				q("within", c.Le(k, n))
				for _, lf := range lr.accLeaves(st, fr, f.dataSort(ex)) {
					v := lr.get(st, fr, lf)
					j := c.Fresh("j", c.Int)
					q("content:"+lf, c.Forall([]*Term{j}, c.Implies(c.And(c.Le(c.IntLit(0), j), c.Lt(j, k)), elem(ex, c.At(v, j), j)), c.At(v, j)))
				}
			}}
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		ex.oblige(st, props, "no-error", "a valid record is converted without error", fn.Pos(), c.Not(isErr(c, st, rets[1])))
		v := st.seqOf(rets[0])
		d := ex.fld(r, "data")
		j := c.Fresh("j", c.Int)
		in := c.And(c.Le(c.IntLit(0), j), c.Lt(j, c.Len(d)))
		ex.oblige(st, props, "length", "one entry per data byte", fn.Pos(), c.Eq(c.Len(v), c.Len(d)))
		ex.oblige(st, props, "entry", "entry j has the address and the value of byte j", fn.Pos(), c.Implies(in, elem(ex, c.At(v, j), j)))
		s.unchanged(st, props, "*record")
	}
	ct.Apply = func(ex *Ex, st *State, fr *Frame, args []Val, pos token.Pos, k K) {
		c := ex.c
		r := ex.ptrContent(st, args[0], fn.Params[0].Type(), pos)
		ex.obligeOnly(st, props, "precondition", "the record consists of hexadecimal digits", pos, f.entok(ex, r))
		d := ex.fld(r, "data")
		v := c.Fresh("entries", f.dataSort(ex))
		st.assume(c.Eq(c.Len(v), c.Len(d)))
		st.assume(ex.every(false, c.IntLit(0), c.Len(d), func(j *Term) (*Term, *Term) {
			e := c.At(v, j)
			return c.And(c.Eq(ex.fld(e, "address"), f.entryAddr(ex, r, j)), c.Eq(ex.fld(e, "value"), ex.hexval(c.At(d, j)))), e
		}))
		k(st, []Val{v, c.NilI})
	}
	return ct
}

func (f *hexFmt) dataSort(ex *Ex) *Sort {
	t, ok := ex.pkgs[f.pkg].Members["dataByte"].(*ssa.Type)
	if !ok {
		unsup("no type dataByte in %s", f.pkg)
	}
	return ex.c.SeqOf(ex.sortOf(t.Type()))
}

// ---------------------------------------------------------------- parsing the lines of one worker

// hexFile: names for the file as a whole. Lines are numbered from 0; the lines that hold a record which
// is kept are numbered by nb; record p comes from line text ln(p).
func (f *hexFmt) blank(ex *Ex, l *Term) *Term {
	return ex.c.Eq(ex.c.App("strings.Trim", ex.c.Str, l, ex.c.StrLit(" \t\r\n\x1a")), ex.c.StrLit(""))
}
func (f *hexFmt) pok(ex *Ex, l *Term) *Term { return ex.c.App("hx.parseok:"+f.pkg, ex.c.Bool, l) }
func (f *hexFmt) kept(ex *Ex, l *Term) *Term {
	k := ex.c.Not(f.blank(ex, l))
	if !f.ihex {
		k = ex.c.And(k, f.isData(ex, f.typ(ex, l)))
	}
	return k
}
func (ex *Ex) nb(k *Term) *Term     { return ex.c.App("hx.nb", ex.c.Int, k) }
func (ex *Ex) ln(p *Term) *Term     { return ex.c.App("hx.line", ex.c.Str, p) }
func (ex *Ex) lineOk(k *Term) *Term { return ex.c.App("hx.lineok", ex.c.Bool, k) }
func (f *hexFmt) rec(ex *Ex, l *Term) *Term {
	return ex.c.App("hx.rec:"+f.pkg, f.recSort(ex), l)
}

// lineDef: the definitions at line k
func (f *hexFmt) lineDef(ex *Ex, L, k *Term) *Term {
	c := ex.c
	l := c.At(L, k)
	k1 := c.Add(k, c.IntLit(1))
	return c.And(
		c.Eq(ex.nb(k1), c.Add(ex.nb(k), c.Ite(f.kept(ex, l), c.IntLit(1), c.IntLit(0)))),
		c.Implies(f.kept(ex, l), c.Eq(ex.ln(ex.nb(k)), l)),
		c.Eq(ex.lineOk(k), c.Or(f.blank(ex, l), f.pok(ex, l))))
}

func (f *hexFmt) applyParseRecord(w *Worker) *Contract {
	ct := f.parseRecordContract(w)
	if ct == nil {
		return nil
	}
	fn := ct.Fn
	ct.Apply = func(ex *Ex, st *State, fr *Frame, args []Val, pos token.Pos, k K) {
		c := ex.c
		l := st.term(args[0])
		rt := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		ex.convFork(st, c.Not(f.pok(ex, l)), func(s2 *State, bad bool) {
			if bad {
				k(s2, []Val{s2.newObj(rt, c.Fresh("badrec", f.recSort(ex)), "record", nil), c.ErrI})
				return
			}
			r := f.rec(ex, l)
			s2.assume(c.Eq(ex.fld(r, "recordType"), f.typ(ex, l)))
			k(s2, []Val{s2.newObj(rt, r, "record", nil), c.NilI})
		})
	}
	return ct
}

// chanParam gives a channel parameter a fresh channel
func (ex *Ex) chanParam(st *State, fr *Frame, p workIn) int {
	ch := ex.makeChan(st, p.t.Underlying().(*types.Chan).Elem(), p.v.Name(), nil).(*ChanV)
	p.give(ex, st, fr, ch)
	return ch.ID
}

type parseArgs struct{ c, e, lines int }

// roles of the parameters of the line parser, by their types
func (f *hexFmt) parseArgs(fn *ssa.Function) *parseArgs {
	a := &parseArgs{-1, -1, -1}
	for i, p := range workIns(fn) {
		switch t := p.t.Underlying().(type) {
		case *types.Chan:
			if tname(t.Elem()) == "error" {
				a.e = i
			} else {
				a.c = i
			}
		case *types.Slice:
			a.lines = i
		}
	}
	if len(workIns(fn)) != 3 || a.c < 0 || a.e < 0 || a.lines < 0 {
		unsup("signature of %s", fn.Name())
	}
	return a
}

func (f *hexFmt) parseRoutineContract(w *Worker) *Contract {
	pv, pe := []string{f.pv}, []string{f.pe}
	both := []string{f.pv, f.pe}
	fn := f.worker(w, "parse")
	if fn == nil {
		return nil
	}
	var L, lo, hi, top0, h0 *Term
	var cc, ec int
	ct := &Contract{Fn: fn, Props: both, Safe: both}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		c := ex.c
		a := f.parseArgs(fn)
		ins := workIns(fn)
		cc, ec = ex.chanParam(st, fr, ins[a.c]), ex.chanParam(st, fr, ins[a.e])
		L, lo, hi = c.Var("L", c.SeqOf(c.Str)), c.Var("lo", c.Int), c.Var("hi", c.Int)
		st.assume(c.And(c.Le(c.IntLit(0), lo), c.Le(lo, hi), c.Le(hi, c.Len(L))))
		ls := c.SeqSub(L, lo, hi)
		st.assume(c.Eq(c.Len(ls), c.Sub(hi, lo)))
		ins[a.lines].give(ex, st, fr, ls)
		top0, h0 = st.top, st.heap(f.recSort(ex))
	}
	ct.Loop = func(ex *Ex, lr *LoopRun) *LoopSpec {
		c := ex.c
		return ex.loopInv(lr, both, "loop over the lines", fn.Pos(), func(st *State, fr *Frame, n *Term, goal bool, g func(string, *Term)) {
			k := c.Add(lo, n)
			h := st.heap(f.recSort(ex))
			if goal {
				st.assume(f.lineDef(ex, L, c.Sub(k, c.IntLit(1))))
			} else {
				ls := c.SeqSub(L, lo, hi)
				st.assume(c.Implies(c.Lt(n, c.Sub(hi, lo)), c.Eq(c.At(ls, n), c.At(L, k))))
			}
			g("range", c.Le(n, c.Sub(hi, lo)))
			g("lines-ok", ex.every(goal, lo, k, func(j *Term) (*Term, *Term) { return ex.lineOk(j), ex.lineOk(j) }))
			g("frame", func() *Term {
				x := c.Fresh("x", c.Int)
				t := c.Implies(c.Lt(x, top0), c.Eq(c.Select(h, x), c.Select(h0, x)))
				if goal {
					return t
				}
				return c.Forall([]*Term{x}, t, c.Select(h, x))
			}())
			for _, lf := range lr.accLeaves(st, fr, c.SeqOf(c.Int)) {
				v := lr.get(st, fr, lf)
				g("count", c.Eq(c.Len(v), c.Sub(ex.nb(k), ex.nb(lo))))
				g("fresh", ex.every(goal, c.IntLit(0), c.Len(v), func(p *Term) (*Term, *Term) {
					return c.And(c.Le(top0, c.At(v, p)), c.Lt(c.At(v, p), st.top)), c.At(v, p)
				}))
				g("content", ex.every(goal, c.IntLit(0), c.Len(v), func(p *Term) (*Term, *Term) {
					l := ex.ln(c.Add(ex.nb(lo), p))
					return c.And(c.Eq(c.Select(h, c.At(v, p)), f.rec(ex, l)), f.pok(ex, l), f.kept(ex, l)), c.At(v, p)
				}))
				p, q := c.Fresh("p", c.Int), c.Fresh("q", c.Int)
				o := c.Implies(c.And(c.Le(c.IntLit(0), p), c.Lt(p, q), c.Lt(q, c.Len(v))), c.Ne(c.At(v, p), c.At(v, q)))
				if goal {
					g("distinct", o)
				} else {
					g("distinct", c.Forall([]*Term{p, q}, o, c.App("multipat", c.Bool, c.At(v, p), c.At(v, q))))
				}
			}
		})
	}
	ct.OnEvent = func(ex *Ex, st *State, kind string, args ...Val) {
		ch, ok := (*ChanV)(nil), false
		if len(args) > 0 {
			ch, ok = args[0].(*ChanV)
		}
		if kind == "send" && ok && ch.ID == ec {
			ex.oblige(st, both, "error-before-result", "the error is sent before the result channel is closed", fn.Pos(), ex.c.BoolLit(!st.chans[cc].Closed))
		}
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		cs, es := st.chans[cc], st.chans[ec]
		ex.oblige(st, both, "closed", "the result channel is closed", fn.Pos(), c.BoolLit(cs.Closed))
		ex.oblige(st, both, "shared-open", "the shared error channel is not closed by a worker", fn.Pos(), c.BoolLit(!es.Closed))
		ex.oblige(st, both, "one-message", "exactly one list of records is sent", fn.Pos(), c.Eq(c.Len(cs.Sent), c.IntLit(1)))
		ex.oblige(st, pe, "one-error", "at most one error is sent", fn.Pos(), c.Le(c.Len(es.Sent), c.IntLit(1)))
		good := c.Eq(c.Len(es.Sent), c.IntLit(0))
		if m := c.Len(es.Sent); m.Op == "int" && m.I.Int64() == 1 {
			ex.oblige(st, pe, "error-value", "what is sent is an error", fn.Pos(), c.Ne(c.At(es.Sent, c.IntLit(0)), c.NilI))
		}
		// an error is justified by a bad line
		j := c.Fresh("j", c.Int)
		all := c.Forall([]*Term{j}, c.Implies(c.And(c.Le(lo, j), c.Lt(j, hi)), ex.lineOk(j)), ex.lineOk(j))
		s2 := st.clone()
		if n := ex.lastLine(st, L); n != nil {
			s2.assume(f.lineDef(ex, L, n))
		}
		ex.obligeOnly(s2, both, "error-justified", "an error only for a line that is no record", fn.Pos(), c.Or(good, c.Not(all)))
		x := c.Fresh("x", c.Int)
		ex.oblige(st, pe, "all-checked", "without error every line is blank or a record", fn.Pos(), c.Or(c.Not(good), c.Not(c.And(c.Le(lo, x), c.Lt(x, hi))), ex.lineOk(x)))
		if st.decide(st.norm(good)) == -1 {
			return
		}
		h := st.heap(f.recSort(ex))
		v := c.At(cs.Sent, c.IntLit(0))
		ex.oblige(st, pv, "count", "one record per record line", fn.Pos(), c.Or(c.Not(good), c.Eq(c.Len(v), c.Sub(ex.nb(hi), ex.nb(lo)))))
		p, q := c.Fresh("p", c.Int), c.Fresh("q", c.Int)
		in := c.And(good, c.Le(c.IntLit(0), p), c.Lt(p, c.Len(v)))
		l := ex.ln(c.Add(ex.nb(lo), p))
		ex.oblige(st, pv, "content", "record p is the record of its line", fn.Pos(), c.Implies(in, c.And(c.Eq(c.Select(h, c.At(v, p)), f.rec(ex, l)), f.pok(ex, l), f.kept(ex, l))))
		ex.oblige(st, both, "fresh", "the records are new objects", fn.Pos(), c.Implies(in, c.And(c.Le(top0, c.At(v, p)), c.Lt(c.At(v, p), st.top))))
		ex.oblige(st, both, "distinct", "no record occurs twice", fn.Pos(), c.Implies(c.And(in, c.Lt(p, q), c.Lt(q, c.Len(v))), c.Ne(c.At(v, p), c.At(v, q))))
		ex.oblige(st, both, "frame", "no other record is changed", fn.Pos(), c.Implies(c.Lt(x, top0), c.Eq(c.Select(h, x), c.Select(h0, x))))
	}
	return ct
}

// lastLine: index in L of the line examined last on this path
func (ex *Ex) lastLine(st *State, L *Term) *Term {
	for i := len(st.pc) - 1; i >= 0; i-- {
		var r *Term
		var rec func(t *Term, d int)
		rec = func(t *Term, d int) {
			if r != nil || d > 6 || t.Op == "forall" {
				return
			}
			if t.Op == "app:strings.Trim" && t.Args[0].Op == "seq.at" {
				a := t.Args[0]
				if a.Args[0] == L {
					r = a.Args[1]
				} else if a.Args[0].Op == "seq.sub" && a.Args[0].Args[0] == L {
					r = ex.c.Add(a.Args[0].Args[1], a.Args[1])
				}
			}
			for _, x := range t.Args {
				rec(x, d+1)
			}
		}
		rec(st.pc[i], 0)
		if r != nil {
			return r
		}
	}
	return nil
}
