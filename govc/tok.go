package main

// The tokenizer of the A2L text. The words of the lines that are not blank are counted through: word p of the text
// is W(p), off(o) words stand in front of line o, N words are there. next(p) is where the lexical rules go on behind
// what starts at word p. orbit: the places where something starts; toks(p): the tokens in front of such a place.

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type tokSpec struct {
	ex    *Ex
	sfx   string // which text
	F     *Term  // the lines as lists of words
	props []string
}

func (k *tokSpec) app(n string, s *Sort, a ...*Term) *Term {
	return k.ex.c.App("tk."+n+k.sfx, s, a...)
}
func (k *tokSpec) N() *Term             { return k.app("N", k.ex.c.Int) }
func (k *tokSpec) M() *Term             { return k.app("end", k.ex.c.Int) }
func (k *tokSpec) off(o *Term) *Term    { return k.app("off", k.ex.c.Int, o) }
func (k *tokSpec) W(p *Term) *Term      { return k.app("word", k.ex.c.Str, p) }
func (k *tokSpec) nl(p *Term) *Term     { return k.app("nextline", k.ex.c.Int, p) }
func (k *tokSpec) orbit(p *Term) *Term  { return k.app("start", k.ex.c.Bool, p) }
func (k *tokSpec) toks(p *Term) *Term   { return k.app("tokens", k.ex.c.SeqOf(k.ex.c.Str), p) }
func (k *tokSpec) modc(p *Term) *Term   { return k.app("modules", k.ex.c.Int, p) }
func (k *tokSpec) mlEnd(p *Term) *Term  { return k.app("commentend", k.ex.c.Int, p) }
func (k *tokSpec) strEnd(p *Term) *Term { return k.app("textend", k.ex.c.Int, p) }
func (k *tokSpec) join(p, e *Term) *Term {
	return k.app("text", k.ex.c.Str, p, e)
}

func tokIdx(c *Ctx, t *Term, l string) *Term { return c.App("tk.index", c.Int, t, c.StrLit(l)) }
func tokHas(c *Ctx, t *Term, l string) *Term { return c.Le(c.IntLit(0), tokIdx(c, t, l)) }
func tokCnt(c *Ctx, t *Term, l string) *Term { return c.App("tk.count", c.Int, t, c.StrLit(l)) }

var tokLits = []string{`"`, "//", "/*", "*/", "/", "/begin", "/end"}

// tokLaws: strings.Index, strings.Contains and strings.Count for the marks of the lexical rules
func tokLaws(ex *Ex, st *State) {
	c := ex.c
	z := c.IntLit(0)
	t, u := c.Fresh("t", c.Str), c.Fresh("u", c.Str)
	for i, a := range tokLits {
		x := tokIdx(c, t, a)
		st.assume(c.Forall([]*Term{t}, c.And(c.Le(c.IntLit(-1), x), c.Implies(c.Le(z, x), c.Le(c.Add(x, c.IntLit(int64(len(a)))), c.SLen(t)))), x))
		n := tokCnt(c, t, a)
		st.assume(c.Forall([]*Term{t}, c.And(c.Le(z, n), c.Eq(c.Lt(z, n), c.Le(z, x))), n))
		for _, b := range tokLits[i+1:] {
			if strings.HasPrefix(a, b) || strings.HasPrefix(b, a) {
				continue
			}
			y := tokIdx(c, t, b)
			st.assume(c.Forall([]*Term{t}, c.Or(c.Ne(x, y), c.Lt(x, z)), c.App("multipat", c.Bool, x, y)))
		}
		for _, b := range tokLits {
			if p := strings.Index(b, a); p >= 0 && a != b {
				y := tokIdx(c, t, b)
				st.assume(c.Forall([]*Term{t}, c.Implies(c.Le(z, y), c.And(c.Le(z, x), c.Le(x, c.Add(y, c.IntLit(int64(p)))))), c.App("multipat", c.Bool, x, y)))
			}
		}
	}
	q := `"`
	st.assume(c.Forall([]*Term{t, u}, c.Eq(tokCnt(c, c.SCat(t, u), q), c.Add(tokCnt(c, t, q), tokCnt(c, u, q))), tokCnt(c, c.SCat(t, u), q)))
	st.assume(c.Eq(tokCnt(c, c.StrLit(" "), q), z))
}

// tokCall: the string functions as the laws know them
func tokCall(ex *Ex, st *State, callee *ssa.Function, args []Val) Val {
	c := ex.c
	mark := func() string {
		switch callee.String() {
		case "strings.Contains", "strings.Index", "strings.Count":
			if l := st.norm(st.term(args[1])); l.Op == "str" {
				return l.S
			}
		case "strings.ContainsRune", "strings.IndexByte", "strings.IndexRune":
			if l := st.norm(st.term(args[1])); l.Op == "int" && l.I.IsInt64() && l.I.Int64() > 0 && l.I.Int64() < 128 {
				return string(rune(l.I.Int64()))
			}
		}
		return ""
	}()
	if mark == "" {
		return nil
	}
	t := st.norm(st.term(args[0]))
	ex.externs[callee.String()]++
	switch callee.Name() {
	case "Contains", "ContainsRune":
		return tokHas(c, t, mark)
	case "Count":
		return tokCnt(c, t, mark)
	}
	return tokIdx(c, t, mark)
}

// ---------------------------------------------------------------- the lexical rules

func (k *tokSpec) setup(st *State) {
	c := k.ex.c
	z, one := c.IntLit(0), c.IntLit(1)
	st.assume(c.Eq(k.off(z), z))
	st.assume(c.Eq(k.off(c.Len(k.F)), k.N()))
	st.assume(c.Le(z, k.N()))
	o, i := c.Fresh("o", c.Int), c.Fresh("i", c.Int)
	ln := c.At(k.F, o)
	in := c.And(c.Le(z, o), c.Lt(o, c.Len(k.F)))
	st.assume(c.Forall([]*Term{o}, c.Implies(in, c.And(c.Eq(k.off(c.Add(o, one)), c.Add(k.off(o), c.Len(ln))), c.Le(one, c.Len(ln)), c.Le(z, k.off(o)), c.Le(k.off(c.Add(o, one)), k.N()))), ln))
	p := c.Add(k.off(o), i)
	w := c.At(ln, i)
	st.assume(c.Forall([]*Term{o, i}, c.Implies(c.And(in, c.Le(z, i), c.Lt(i, c.Len(ln))),
		c.And(c.Eq(k.W(p), w), c.Ne(w, c.StrLit("")), c.Lt(z, c.SLen(w)), c.Eq(k.nl(p), k.off(c.Add(o, one))))), w))
	k.start(st)
}

// start: the text starts at word 0; orbit ends at exactly one place
func (k *tokSpec) start(st *State) {
	c := k.ex.c
	z := c.IntLit(0)
	st.assume(k.orbit(z))
	st.assume(c.Eq(k.toks(z), c.Empty(c.SeqOf(c.Str))))
	st.assume(c.Eq(k.modc(z), z))
	st.assume(c.Implies(k.orbit(k.N()), c.Eq(k.M(), k.N())))
	k.at(st, z)
}

// kinds of what starts at word p
func (k *tokSpec) isText(p *Term) *Term {
	c := k.ex.c
	w := k.W(p)
	a, b, m := tokIdx(c, w, `"`), tokIdx(c, w, "//"), tokIdx(c, w, "/*")
	return k.first(a, b, m)
}
func (k *tokSpec) first(a, b, m *Term) *Term {
	c := k.ex.c
	z := c.IntLit(0)
	return c.And(c.Le(z, a), c.Or(c.Lt(b, z), c.Lt(a, b)), c.Or(c.Lt(m, z), c.Lt(a, m)))
}
func (k *tokSpec) isLine(p *Term) *Term {
	c := k.ex.c
	w := k.W(p)
	return k.first(tokIdx(c, w, "//"), tokIdx(c, w, `"`), tokIdx(c, w, "/*"))
}
func (k *tokSpec) isComment(p *Term) *Term {
	c := k.ex.c
	w := k.W(p)
	return k.first(tokIdx(c, w, "/*"), tokIdx(c, w, `"`), tokIdx(c, w, "//"))
}
func (k *tokSpec) isPlain(p *Term) *Term {
	c := k.ex.c
	w := k.W(p)
	return c.Not(c.Or(tokHas(c, w, `"`), tokHas(c, w, "//"), tokHas(c, w, "/*")))
}
func (k *tokSpec) isSlash(p *Term) *Term {
	c := k.ex.c
	w := k.W(p)
	return c.And(k.isPlain(p), tokHas(c, w, "/"), c.Not(tokHas(c, w, "*/")))
}
func (k *tokSpec) isBlock(p *Term) *Term {
	c := k.ex.c
	w := k.W(p)
	return c.And(k.isSlash(p), c.Or(tokHas(c, w, "/begin"), tokHas(c, w, "/end")))
}

// stuck: what starts at word p has no end within the text
func (k *tokSpec) stuck(p *Term) *Term {
	c := k.ex.c
	return c.Or(c.And(k.isText(p), c.Le(k.N(), k.strEnd(p))), c.And(k.isComment(p), c.Le(k.N(), k.mlEnd(p))),
		c.And(k.isSlash(p), c.Or(c.Not(k.isBlock(p)), c.Le(k.N(), c.Add(p, c.IntLit(1))))))
}

func (k *tokSpec) tok(p *Term) *Term {
	c := k.ex.c
	return c.Ite(k.isText(p), k.join(p, k.strEnd(p)), c.Ite(k.isBlock(p), c.SCat(c.SCat(k.W(p), c.StrLit(" ")), k.W(c.Add(p, c.IntLit(1)))), k.W(p)))
}

func (k *tokSpec) odd(t *Term) *Term {
	c := k.ex.c
	return c.Ne(c.Mod(tokCnt(c, t, `"`), c.IntLit(2)), c.IntLit(0))
}

// at: the rules for word p
func (k *tokSpec) at(st *State, p *Term) {
	for _, t := range k.rules(p) {
		st.assume(t)
	}
}

func (k *tokSpec) rules(p *Term) []*Term {
	c := k.ex.c
	z, one := c.IntLit(0), c.IntLit(1)
	in := c.And(c.Le(z, p), c.Lt(p, k.N()))
	w := k.W(p)
	var r []*Term
	add := func(t *Term) { r = append(r, c.Implies(in, t)) }
	// the end of a comment: behind its begin in the same word, or in the first later word with an end mark
	b := tokIdx(c, w, "/*")
	here := tokHas(c, c.SSub(w, c.Add(b, c.IntLit(2)), c.SLen(w)), "*/")
	m := k.mlEnd(p)
	add(c.And(c.Le(p, m), c.Le(m, k.N())))
	add(c.Implies(k.isComment(p), c.Eq(here, c.Eq(m, p))))
	e := c.Fresh("e", c.Int)
	r = append(r, c.Forall([]*Term{e}, c.Implies(c.And(in, c.Lt(p, e), c.Lt(e, m)), c.Not(tokHas(c, k.W(e), "*/"))), k.W(e)))
	add(c.Implies(c.And(c.Lt(p, m), c.Lt(m, k.N())), tokHas(c, k.W(m), "*/")))
	// the end of a text: the first word behind which the number of quotation marks is even
	s := k.strEnd(p)
	add(c.And(c.Le(p, s), c.Le(s, k.N())))
	add(c.Eq(k.join(p, p), w))
	r = append(r, c.Forall([]*Term{e}, c.Implies(c.And(in, c.Le(p, e), c.Lt(e, s)), k.odd(k.join(p, e))), k.join(p, e)))
	add(c.Implies(c.Lt(s, k.N()), c.And(c.Not(k.odd(k.join(p, s))), c.Ne(k.join(p, s), c.StrLit("")))))
	// where the text goes on
	o := c.And(in, k.orbit(p))
	r = append(r, c.Implies(c.And(k.orbit(p), c.Or(c.Eq(p, k.N()), c.And(in, k.stuck(p)))), c.Eq(p, k.M())))
	goOn := func(kind, to, tok *Term) {
		t := c.And(k.orbit(to))
		if tok != nil {
			t = c.And(t, c.Eq(k.toks(to), c.Cat(k.toks(p), c.Unit(tok))), c.Eq(k.modc(to), c.Add(k.modc(p), c.Ite(c.Eq(tok, c.StrLit("/begin MODULE")), one, z))))
		} else {
			t = c.And(t, c.Eq(k.toks(to), k.toks(p)), c.Eq(k.modc(to), k.modc(p)))
		}
		r = append(r, c.Implies(c.And(o, kind, c.Not(k.stuck(p))), t))
	}
	goOn(k.isText(p), c.Add(s, one), k.join(p, s))
	goOn(k.isLine(p), k.nl(p), nil)
	goOn(k.isComment(p), c.Add(m, one), nil)
	goOn(k.isBlock(p), c.Add(p, c.IntLit(2)), c.SCat(c.SCat(w, c.StrLit(" ")), k.W(c.Add(p, one))))
	goOn(c.And(k.isPlain(p), c.Not(k.isSlash(p))), c.Add(p, one), w)
	return r
}

// grow: the text that starts at word a, from word p to word p+1
func (k *tokSpec) grow(st *State, a, p *Term) {
	c := k.ex.c
	one := c.IntLit(1)
	n := c.Add(p, one)
	st.assume(c.Implies(c.And(c.Le(c.IntLit(0), a), c.Le(a, p), c.Lt(n, k.N())), c.And(c.Eq(k.join(a, n), c.SCat(c.SCat(k.join(a, p), c.StrLit(" ")), k.W(n))), c.Ne(k.join(a, n), c.StrLit("")))))
}

// ---------------------------------------------------------------- loops over words

type tokPos struct {
	name string
	x, y *Term
	p    *Term
}

func (k *tokSpec) places(lr *LoopRun, st *State, fr *Frame) []tokPos {
	c := k.ex.c
	var l []string
	for _, lf := range sortLeaves(lr.mod) {
		if strings.HasPrefix(lf, "ghost:") || lf == "top" {
			continue
		}
		if v := lr.get(st, fr, lf); v != nil && v.Sort == c.Int && plainInt(lr.leafType(lf)) {
			l = append(l, lf)
		}
	}
	var r []tokPos
	for _, a := range l {
		for _, b := range l {
			if a == b {
				continue
			}
			x, y := lr.get(st, fr, a), lr.get(st, fr, b)
			r = append(r, tokPos{a + "/" + b, x, y, c.Add(k.off(x), y)})
		}
	}
	return r
}

func plainInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}

func (k *tokSpec) loop(lr *LoopRun) *LoopSpec {
	c := k.ex.c
	z, one := c.IntLit(0), c.IntLit(1)
	strSeq := c.SeqOf(c.Str)
	var outer *Term
	if a, ok := lr.entryS.ghost["spec:anchor"].(*Term); ok {
		outer = a
	}
	spec := &LoopSpec{Persist: true, CandProps: k.props, MeasMax: c.Add(k.N(), one)}
	// places a text or comment may have started at, seen from place p
	anchors := func(e map[string]tokPos, p tokPos) []*Term {
		var r []*Term
		if o, ok := e[p.name]; ok {
			r = append(r, o.p)
		}
		if outer != nil && (len(r) == 0 || r[0] != outer) {
			r = append(r, outer)
		}
		return r
	}
	entry := func() map[string]tokPos {
		e := map[string]tokPos{}
		for _, p := range k.places(lr, lr.entryS, lr.entryF) {
			e[p.name] = p
		}
		return e
	}
	type guard struct {
		n string
		t *Term
	}
	spec.Cands = func(st *State, fr *Frame, q func(string, *Term)) {
		var gs []guard
		var strs, seqs, ints []string
		for _, lf := range sortLeaves(lr.mod) {
			v := lr.get(st, fr, lf)
			if v == nil {
				continue
			}
			if v.Sort == c.Bool && !strings.HasPrefix(lf, "chan:") {
				gs = append(gs, guard{lf + "=>", v}, guard{"!" + lf + "=>", c.Not(v)})
			}
			if v.Sort == c.Iface {
				gs = append(gs, guard{lf + "=nil=>", c.Eq(v, c.NilI)}, guard{lf + "!=nil=>", c.Ne(v, c.NilI)})
			}
			if v.Sort == c.Str {
				strs = append(strs, lf)
			}
			if v.Sort == c.Int && plainInt(lr.leafType(lf)) {
				ints = append(ints, lf)
			}
			if v.Sort == strSeq {
				seqs = append(seqs, lf)
			}
			if v.Sort == k.F.Sort {
				q("unchanged:"+lf, c.Eq(v, lr.get(lr.entryS, lr.entryF, lf)))
			}
		}
		if len(gs) == 0 {
			gs = []guard{{"", c.T}}
		}
		e := entry()
		mods := func(s *State, f *Frame) *Term { return lr.get(s, f, "ghost:modules") }
		for _, g := range gs {
			g := g
			Q := func(n string, t *Term) bool {
				q(g.n+n, c.Implies(g.t, t))
				return !spec.dropped[g.n+n]
			}
			for _, p := range k.places(lr, st, fr) {
				n := p.name + ":"
				p1 := c.Add(p.p, one)
				if g.n != "" {
					Q(n+"entry", c.And(c.Eq(p.x, e[p.name].x), c.Eq(p.y, e[p.name].y)))
				}
				if !Q(n+"line", c.And(c.Le(z, p.x), c.Lt(p.x, c.Len(k.F)))) {
					continue
				}
				Q(n+"word>=0", c.Le(z, p.y))
				if !Q(n+"word", c.And(c.Le(c.IntLit(-1), p.y), c.Lt(p.y, c.Len(c.At(k.F, p.x))))) {
					continue
				}
				Q(n+"start", k.orbit(p.p))
				Q(n+"start+1", k.orbit(p1))
				for _, s := range strs {
					Q(n+"word:"+s, c.Eq(lr.get(st, fr, s), c.At(c.At(k.F, p.x), p.y)))
				}
				for _, s := range seqs {
					Q(n+"tokens:"+s, c.Eq(lr.get(st, fr, s), k.toks(p.p)))
					Q(n+"tokens+1:"+s, c.Eq(lr.get(st, fr, s), k.toks(p1)))
				}
				// a token that was read already and is not in the list yet
				for _, t := range strs {
					tk := lr.get(st, fr, t)
					if !Q("some:"+t, c.Ne(tk, c.StrLit(""))) {
						continue
					}
					for _, s := range seqs {
						Q(n+"tokens+1:"+s+"+"+t, c.Eq(c.Cat(lr.get(st, fr, s), c.Unit(tk)), k.toks(p1)))
					}
					if lr.mod["ghost:modules"] {
						Q(n+"modules+1:"+t, c.Eq(c.Add(mods(st, fr), c.Ite(c.Eq(tk, c.StrLit("/begin MODULE")), one, z)), k.modc(p1)))
					}
				}
				if lr.mod["ghost:modules"] {
					Q(n+"modules", c.Eq(mods(st, fr), k.modc(p.p)))
					Q(n+"modules+1", c.Eq(mods(st, fr), k.modc(p1)))
				}
				for i, a := range anchors(e, p) {
					m := n + itoa(i) + ":"
					if !Q(m+"behind", c.Le(a, p.p)) {
						continue
					}
					Q(m+"same", c.And(c.Eq(k.toks(p.p), k.toks(a)), c.Eq(k.modc(p.p), k.modc(a))))
					Q(m+"comment", c.Lt(p.p, k.mlEnd(a)))
					Q(m+"comment<=", c.Le(p.p, k.mlEnd(a)))
					Q(m+"text", c.Lt(p.p, k.strEnd(a)))
					Q(m+"text<=", c.Le(p.p, k.strEnd(a)))
					if g.n != "" {
						Q(m+"comment-end", c.Eq(p.p, k.mlEnd(a)))
						Q(m+"text-end", c.Eq(p.p, k.strEnd(a)))
					}
					for _, i := range ints {
						Q(m+"marks:"+i, c.Eq(lr.get(st, fr, i), tokCnt(c, k.join(a, p.p), `"`)))
					}
					// what is left of the word the comment starts in, then the words behind it
					for _, s := range strs {
						v := lr.get(st, fr, s)
						Q(m+"rest:"+s, c.Ite(c.Eq(p.p, a), c.Eq(v, lr.get(lr.entryS, lr.entryF, s)), c.Eq(v, k.W(p.p))))
					}
					for _, s := range seqs {
						v := lr.get(st, fr, s)
						if Q(m+"words:"+s, c.Le(one, c.Len(v))) {
							Q(m+"joined:"+s, c.Eq(c.strJoin(v, c.StrLit(" ")), k.join(a, p.p)))
						}
					}
					for _, s := range strs {
						Q(m+"join:"+s, c.Eq(lr.get(st, fr, s), k.join(a, p.p)))
					}
				}
			}
			if g.n != "" {
				for _, s := range seqs {
					Q("entry:"+s, c.Eq(lr.get(st, fr, s), lr.get(lr.entryS, lr.entryF, s)))
				}
				if lr.mod["ghost:modules"] {
					Q("entry:modules", c.Eq(mods(st, fr), mods(lr.entryS, lr.entryF)))
				}
			}
		}
	}
	usable := func(p tokPos) bool {
		for d := range spec.dropped {
			if strings.HasSuffix(d, p.name+":line") && !strings.Contains(d, "=>") {
				return false
			}
		}
		return true
	}
	spec.Part = func(lf string) bool {
		v := lr.get(lr.entryS, lr.entryF, lf)
		return v != nil && (v.Sort == c.Bool || v.Sort == c.Iface)
	}
	spec.Havoc = func(st *State, fr *Frame) {
		e := entry()
		for _, p := range k.places(lr, st, fr) {
			if !usable(p) {
				continue
			}
			k.at(st, p.p)
			k.at(st, c.Add(p.p, one))
			for _, a := range anchors(e, p) {
				k.grow(st, a, p.p)
			}
			k.grow(st, p.p, p.p)
			st.ghost["spec:anchor"] = p.p
		}
	}
	spec.Meas = func(st *State, fr *Frame, q func(string, *Term)) {
		for _, p := range k.places(lr, st, fr) {
			if !usable(p) {
				continue
			}
			q(p.name, p.p)
			for _, lf := range sortLeaves(lr.mod) {
				if v := lr.get(st, fr, lf); v != nil && v.Sort == c.Bool && !strings.HasPrefix(lf, "chan:") {
					q(p.name+"+!"+lf, c.Add(p.p, c.Ite(v, z, one)))
					q(p.name+"+"+lf, c.Add(p.p, c.Ite(v, one, z)))
				}
			}
		}
	}
	return spec
}

// partOf: tokens and completeness among the results
func partOf(ex *Ex, st *State, sig *types.Signature, rets []Val) (toks, complete *Term) {
	c := ex.c
	var rec func(t types.Type, v *Term)
	rec = func(t types.Type, v *Term) {
		switch {
		case v.Sort == c.SeqOf(c.Str):
			toks = v
		case v.Sort == c.Bool:
			complete = v
		default:
			if s, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					rec(s.Field(i).Type(), c.Fld(v, i))
				}
			}
		}
	}
	for i, r := range rets {
		rec(sig.Results().At(i).Type(), st.norm(st.term(r)))
	}
	return
}

// ---------------------------------------------------------------- functions that move through the words

// tokRoles: pointers to line and word number, the words, and whether this is the first call
type tokRoles struct{ x, y, str, first int }

func rolesOfCursor(fn *ssa.Function, first bool) *tokRoles {
	r := &tokRoles{-1, -1, -1, -1}
	if fn == nil {
		return nil
	}
	for i, p := range fn.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Pointer:
			if !plainInt(t.Elem()) {
				return nil
			}
			if r.x < 0 {
				r.x = i
			} else if r.y < 0 {
				r.y = i
			} else {
				return nil
			}
		case *types.Slice:
			if r.str >= 0 || t.String() != "[][]string" {
				return nil
			}
			r.str = i
		case *types.Basic:
			if r.first >= 0 || t.Kind() != types.Bool {
				return nil
			}
			r.first = i
		default:
			return nil
		}
	}
	rs := fn.Signature.Results()
	if r.x < 0 || r.y < 0 || r.str < 0 || first != (r.first >= 0) || rs.Len() != 2 || rs.At(0).Type().String() != "string" || rs.At(1).Type().String() != "error" {
		return nil
	}
	return r
}

const (
	tokOK = iota
	tokEnd
	tokOpen
)

// tokFns: contracts of the functions between buildTokenList and the words. A function that is not there in this
// form is executed in its callers instead.
var tokFns = []struct{ name, kind string }{{"skipMultilineComment", "comment"}, {"getTextInQuotationMarks", "text"}, {"buildNextValidToken", "token"}}

// valid: word y of line x
func (k *tokSpec) valid(x, y *Term) *Term {
	c := k.ex.c
	z := c.IntLit(0)
	return c.And(c.Le(z, x), c.Lt(x, c.Len(k.F)), c.Le(z, y), c.Lt(y, c.Len(c.At(k.F, x))))
}

func (k *tokSpec) place(x, y *Term) *Term { return k.ex.c.Add(k.off(x), y) }

// begin: the place where the next token is looked for
func (k *tokSpec) begin(x, y, first *Term) *Term {
	c := k.ex.c
	p := k.place(x, y)
	if first == nil {
		return p
	}
	return c.Ite(first, p, c.Add(p, c.IntLit(1)))
}

func (k *tokSpec) pre(kind string, x, y, first *Term) *Term {
	c := k.ex.c
	z := c.IntLit(0)
	switch kind {
	case "comment":
		return c.And(k.valid(x, y), k.isComment(k.place(x, y)))
	case "text":
		return c.And(k.valid(x, y), k.isText(k.place(x, y)))
	}
	return c.And(c.Implies(first, c.And(c.Eq(x, z), c.Eq(y, z))), c.Implies(c.Not(first), k.valid(x, y)), k.orbit(k.begin(x, y, first)))
}

// result: what holds behind the call for each kind of error
func (k *tokSpec) result(kind string, how int, x, y, first, x2, y2, t *Term) *Term {
	c := k.ex.c
	z, one := c.IntLit(0), c.IntLit(1)
	p := k.begin(x, y, first)
	p2 := k.place(x2, y2)
	switch kind {
	case "comment":
		m := k.mlEnd(p)
		switch how {
		case tokOK:
			return c.And(k.valid(x2, y2), c.Eq(p2, c.Add(m, one)), c.Lt(p2, k.N()), c.Eq(t, c.At(c.At(k.F, x2), y2)))
		case tokEnd:
			return c.Eq(c.Add(m, one), k.N())
		}
		return c.Le(k.N(), m)
	case "text":
		e := k.strEnd(p)
		switch how {
		case tokOK:
			return c.And(k.valid(x2, y2), c.Eq(p2, e), c.Lt(e, k.N()), c.Eq(t, k.join(p, e)))
		case tokEnd:
			return c.F
		}
		return c.Le(k.N(), e)
	}
	switch how {
	case tokOK:
		n := c.Add(p2, one)
		return c.And(k.valid(x2, y2), c.Le(p, p2), c.Ne(t, c.StrLit("")), k.orbit(n), c.Eq(k.toks(n), c.Cat(k.toks(p), c.Unit(t))),
			c.Eq(k.modc(n), c.Add(k.modc(p), c.Ite(c.Eq(t, c.StrLit("/begin MODULE")), one, z))))
	}
	r := c.And(c.Eq(k.toks(k.M()), k.toks(p)), c.Eq(k.modc(k.M()), k.modc(p)))
	if how == tokEnd {
		return c.And(r, c.Eq(k.M(), k.N()))
	}
	return c.And(r, c.Ne(k.M(), k.N()))
}

// use: the contracts take the place of the functions
func (k *tokSpec) use(w *Worker, self *ssa.Function) {
	for _, f := range tokFns {
		f := f
		fn := pkgFunc(w.pkgs["a2l"], f.name)
		ro := rolesOfCursor(fn, f.kind == "token")
		if ro == nil || fn == self {
			continue
		}
		k.ex.contract[fn] = &Contract{Fn: fn, Apply: func(ex *Ex, st *State, fr *Frame, args []Val, pos token.Pos, kk K) {
			c := ex.c
			ax, ok1 := args[ro.x].(*Addr)
			ay, ok2 := args[ro.y].(*Addr)
			sl, ok3 := args[ro.str].(*SliceRef)
			if !ok1 || !ok2 || !ok3 || ax.Kind != 'o' || ay.Kind != 'o' || sl.Base.Kind != 'o' {
				unsup("arguments of %s", fn.Name())
			}
			x, y := st.load(ax), st.load(ay)
			var first *Term
			if ro.first >= 0 {
				first = st.term(args[ro.first])
			}
			ex.oblige(st, k.props, "pre", "words and place given to "+fn.Name(), pos, c.And(c.Eq(st.load(sl.Base), k.F), c.Eq(sl.Lo, c.IntLit(0)), c.Eq(sl.Hi, c.Len(k.F)), c.BoolLit(ax.Obj != ay.Obj || len(ax.Path) > 0), k.pre(f.kind, x, y, first)))
			k.at(st, k.begin(x, y, first))
			for how := tokOK; how <= tokOpen; how++ {
				s2 := st.clone()
				x2, y2, t := c.Fresh("line", c.Int), c.Fresh("word", c.Int), c.Fresh("token", c.Str)
				ex.noteType(x2, types.Typ[types.Int])
				ex.noteType(y2, types.Typ[types.Int])
				s2.assume(k.result(f.kind, how, x, y, first, x2, y2, t))
				if s2.dead {
					continue
				}
				s2.store(ax, x2)
				s2.store(ay, y2)
				e := c.NilI
				switch how {
				case tokEnd:
					e = k.endErr(w)
				case tokOpen:
					e = c.ErrI
				}
				if how != tokOK {
					t = c.StrLit("")
					s2.store(sl.Base, c.Fresh("words", k.F.Sort))
				} else {
					k.at(s2, k.place(x2, y2))
					k.at(s2, c.Add(k.place(x2, y2), c.IntLit(1)))
				}
				kk(s2, []Val{t, e})
			}
		}}
	}
}

// endErr: the error that says that the text ends where a token may start
func (k *tokSpec) endErr(w *Worker) *Term {
	var names []string
	for n, m := range w.pkgs["a2l"].Members {
		if g, ok := m.(*ssa.Global); ok && types.Identical(g.Type().(*types.Pointer).Elem(), types.Universe.Lookup("error").Type()) && sentinelGlobal(g) {
			names = append(names, n)
		}
	}
	if len(names) != 1 {
		unsup("which error is the end of the text")
	}
	return k.ex.c.Sentinel(w.pkgs["a2l"].Var(names[0]).String())
}

// hooks: the string functions, and what a worker may do with the variables of the package
func (k *tokSpec) hooks(ct *Contract) {
	props := k.props
	ct.Loop = func(ex *Ex, lr *LoopRun) *LoopSpec { return k.loop(lr) }
	ct.CallHook = func(ex *Ex, st *State, fr *Frame, callee *ssa.Function, args []Val, in ssa.CallInstruction, kk K) bool {
		if v := tokCall(ex, st, callee, args); v != nil {
			kk(st, []Val{v})
			return true
		}
		if callee.String() == "sync/atomic.AddUint32" {
			a, ok := args[0].(*Addr)
			if !ok || a.Kind != 'g' || a.G.Name() != "moduleCount" {
				return false
			}
			st.ghost["modules"] = ex.c.Add(g(st, "modules"), st.term(args[1]))
			kk(st, []Val{ex.c.Fresh("count", ex.c.Int)})
			return true
		}
		return false
	}
	ct.OnGlob = func(ex *Ex, st *State, gl *ssa.Global, write bool, pos token.Pos) {
		if write || gl.Name() == "moduleCount" || gl.Name() == "tokenList" {
			ex.refute(st, props, "shared", "a worker touches "+gl.Name()+" only by an atomic addition", pos)
		}
	}
}

// world: the words of a text, in the parameter p
func tokWorld(ex *Ex, st *State, fr *Frame, p *ssa.Parameter, props []string) (*tokSpec, *Addr) {
	c := ex.c
	k := &tokSpec{ex: ex, F: c.Var("F", c.SeqOf(c.SeqOf(c.Str))), props: props}
	ft := p.Type().Underlying().(*types.Slice)
	ex.noteType(k.F, ft)
	a := st.newObj(types.NewArray(ft.Elem(), 0), k.F, "str", nil)
	fr.env[p] = &SliceRef{Base: a, Lo: c.IntLit(0), Hi: c.Len(k.F)}
	if st.ghost == nil {
		st.ghost = map[string]Val{}
	}
	st.ghost["modules"] = c.IntLit(0)
	tokLaws(ex, st)
	k.setup(st)
	numProcPos(ex, st, "a2l")
	return k, a
}

func tokCursorContract(w *Worker, name, kind string, props []string) *Contract {
	fn := pkgFunc(w.pkgs["a2l"], name)
	ro := rolesOfCursor(fn, kind == "token")
	if ro == nil {
		return nil
	}
	var k *tokSpec
	var x, y, first *Term
	var ax, ay, af *Addr
	ct := &Contract{Fn: fn, Props: props, Safe: props}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		c := ex.c
		k, af = tokWorld(ex, st, fr, fn.Params[ro.str], props)
		x, y = c.Var("x", c.Int), c.Var("y", c.Int)
		it := types.Typ[types.Int]
		ex.noteType(x, it)
		ex.noteType(y, it)
		ax, ay = st.newObj(it, x, "line", nil), st.newObj(it, y, "word", nil)
		fr.env[fn.Params[ro.x]], fr.env[fn.Params[ro.y]] = ax, ay
		if ro.first >= 0 {
			first = c.Var("first", c.Bool)
			fr.env[fn.Params[ro.first]] = first
		}
		p := k.begin(x, y, first)
		st.ghost["spec:anchor"] = p
		st.assume(k.pre(kind, x, y, first))
		k.at(st, p)
		k.at(st, k.place(x, y))
		k.at(st, c.Add(k.place(x, y), c.IntLit(1)))
		k.use(w, fn)
		k.hooks(ct)
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		e := st.norm(st.term(rets[1]))
		how := tokOpen
		switch e.Op {
		case "nilI":
			how = tokOK
			ex.oblige(st, props, "words", "the words are not changed", fn.Pos(), c.Eq(st.load(af), k.F))
		case "sentI":
			how = tokEnd
		case "errI":
		default:
			unsup("error of %s", fn.Name())
		}
		what := map[string]string{"comment": "the place behind the comment", "text": "the text in quotation marks", "token": "the next token of the lexical rules"}[kind]
		ex.oblige(st, props, []string{"found", "end", "unterminated"}[how], what, fn.Pos(), k.result(kind, how, x, y, first, st.load(ax), st.load(ay), st.term(rets[0])))
		ex.oblige(st, props, "no-count", "modules are not counted here", fn.Pos(), c.Eq(g(st, "modules"), c.IntLit(0)))
	}
	return ct
}

func tokListContract(w *Worker, props []string) *Contract {
	fn := pkgFunc(w.pkgs["a2l"], "buildTokenList")
	if fn == nil || len(fn.Params) != 1 {
		return nil
	}
	var k *tokSpec
	ct := &Contract{Fn: fn, Props: props, Safe: props}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		k, _ = tokWorld(ex, st, fr, fn.Params[0], props)
		k.use(w, fn)
		k.hooks(ct)
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		c := ex.c
		toks, complete := partOf(ex, st, fn.Signature, rets)
		if toks == nil || complete == nil {
			unsup("results of %s", fn.Name())
		}
		ex.oblige(st, props, "tokens", "the tokens of the lexical rules, in order, up to the end of the text", fn.Pos(), c.Eq(toks, k.toks(k.M())))
		ex.oblige(st, props, "complete", "complete iff the text does not end within a token or a comment", fn.Pos(), c.Eq(complete, c.Eq(k.M(), k.N())))
		ex.oblige(st, props, "modules", "every /begin MODULE is counted once", fn.Pos(), c.Eq(g(st, "modules"), k.modc(k.M())))
	}
	return ct
}

func tokUnits() []*Unit {
	props := []string{"P23", "P24"}
	us := []*Unit{contractUnit("a2l.buildTokenList", props, func(w *Worker) *Contract { return tokListContract(w, props) })}
	for _, f := range tokFns {
		f := f
		u := contractUnit("a2l."+f.name, props, func(w *Worker) *Contract { return tokCursorContract(w, f.name, f.kind, props) })
		run := u.Run
		u.Run = func(w *Worker) []*Oblig {
			if rolesOfCursor(pkgFunc(w.pkgs["a2l"], f.name), f.kind == "token") == nil {
				return nil // executed in its callers
			}
			return run(w)
		}
		us = append(us, u)
	}
	us = append(us, contractUnit("a2l.tokenBuilderRoutine", props, func(w *Worker) *Contract { return tokWorkerContract(w, props) }),
		contractUnit("a2l.buildTokenGeneratorFromString", props, func(w *Worker) *Contract { return tokMainContract(w, props) }), tokLemmaUnit(props))
	return us
}

// numProcPos: there is at least one worker
func numProcPos(ex *Ex, st *State, pkg string) {
	if np := ex.pkgs[pkg].Var("numProc"); np != nil {
		t := st.global(np)
		if t.Op != "int" {
			ex.ranges[t] = [2]*big.Int{big.NewInt(1), nil}
		}
		st.assume(ex.c.Le(ex.c.IntLit(1), t))
	}
}
