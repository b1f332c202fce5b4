package main

// The ASAP2 grammar table (spec/a2l_grammar.json) and its meaning: a small-step specification of what an
// element parser has to do with a token stream. Contracts of all element parsers are generated from it.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type GItem struct {
	F      string  `json:"f"`
	List   string  `json:"list"`
	Cat    string  `json:"cat"`
	ListN  string  `json:"listn"`
	N      int     `json:"n"`
	Arr    string  `json:"arr"`
	I      int     `json:"i"`
	Flag   string  `json:"flag"`
	Conv   string  `json:"conv"`
	Parser string  `json:"parser"`
	Row    []GItem `json:"row"`
	Count  string  `json:"count"`
}
type GKw struct {
	Tok, F, Parser, Mode, Key, Flag, MtParser string
}
type GParser struct {
	Fn, Type, Kind, End string
	KwErr               bool
	KwStop              bool
	StopBefore          []string
	OnEnd               []string
	Set                 []string
	EmptyErr            bool
	Default             *struct{ F, Unless, Value string }
	Items               []GItem
	Kw                  []GKw
}
type GEnum struct {
	Fn, Type string
	Words    []string
	Next     bool
}
type Grammar struct {
	Keywords []string
	Enums    []*GEnum
	Parsers  []*GParser
	isKw     map[string]bool
	parser   map[string]*GParser
	enum     map[string]*GEnum
}

func loadGrammar(file string) (*Grammar, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	g := &Grammar{isKw: map[string]bool{}, parser: map[string]*GParser{}, enum: map[string]*GEnum{}}
	if err := json.Unmarshal(b, g); err != nil {
		return nil, err
	}
	for _, k := range append([]string{""}, g.Keywords...) {
		_, e1 := strconv.ParseFloat(k, 64)
		_, e2 := strconv.ParseInt(k, 0, 64)
		_, e3 := strconv.ParseInt(k, 10, 64)
		_, e4 := strconv.ParseUint(k, 16, 64)
		if e1 == nil || e2 == nil || e3 == nil || e4 == nil {
			return nil, fmt.Errorf("keyword %q is a number", k)
		}
	}
	for _, k := range g.Keywords {
		g.isKw[k] = true
	}
	for _, p := range g.Parsers {
		g.parser[p.Fn] = p
	}
	for _, e := range g.Enums {
		g.enum[e.Fn] = e
	}
	return g, nil
}

type a2lv struct {
	ex     *Ex
	g      *Grammar
	pkg    *ssa.Package
	T, N   *Term
	gTok   *ssa.Global
	gMT    *ssa.Global
	cov    map[string]int
	kwCase string
}

// spec state: value under construction, contents of its maps, index of the last consumed token
type specSt struct {
	S    *Term
	maps map[string]*Term
	i    *Term
}

func (s specSt) with(f string, c *Ctx, v *Term) specSt { s.S = c.UpdN(s.S, f, v); return s }
func (s specSt) setMap(f string, v *Term) specSt {
	m := map[string]*Term{}
	for k, x := range s.maps {
		m[k] = x
	}
	m[f] = v
	s.maps = m
	return s
}

const (
	spRun = iota
	spStop
	spErr
)

func (a *a2lv) fork(st *State, cond *Term, yes, no func(*State)) {
	if st.dead {
		return
	}
	a.ex.fuel--
	if a.ex.fuel < 0 {
		unsup("path budget exhausted in the specification of %s", a.ex.topFn.Name())
	}
	cond = st.norm(cond)
	switch st.decide(cond) {
	case 1:
		yes(st)
		return
	case -1:
		no(st)
		return
	}
	s2 := st.clone()
	if st.assume(cond) {
		st.trace = append(st.trace, "spec:"+short(cond))
		yes(st)
	}
	if s2.assume(a.ex.c.Not(cond)) {
		s2.trace = append(s2.trace, "spec:¬"+short(cond))
		no(s2)
	}
}

func (a *a2lv) iskw(st *State, t *Term) *Term {
	t = st.norm(t)
	if t.Op == "str" {
		return a.ex.c.BoolLit(a.g.isKw[t.S])
	}
	return a.ex.c.App("iskw", a.ex.c.Bool, t)
}

func (a *a2lv) inWords(t *Term, ws []string) *Term {
	c := a.ex.c
	var o []*Term
	for _, w := range ws {
		o = append(o, c.Eq(t, c.StrLit(w)))
	}
	return c.Or(o...)
}

// conversion of one token: value and failure condition
func (a *a2lv) conv(st *State, cv string, t *Term) (*Term, *Term) {
	c := a.ex.c
	p := strings.Split(cv, ":")
	switch p[0] {
	case "str":
		return t, c.F
	case "float":
		return c.App("parsefloat", c.F64, t, c.IntLit(64)), c.App("parsefloat.err", c.Bool, t, c.IntLit(64))
	case "uint", "int":
		b, _ := strconv.Atoi(p[1])
		n, _ := strconv.Atoi(p[2])
		fn := "parse" + p[0]
		v := c.App(fn, c.Int, t, c.IntLit(int64(b)), c.IntLit(int64(n)))
		var ty types.Type
		for _, k := range types.Typ {
			if k.Name() == p[3] {
				ty = k
			}
		}
		a.ex.rangeConv(v, p[0] == "uint", n)
		return a.ex.wrap(v, ty), c.App(fn+".err", c.Bool, t, c.IntLit(int64(b)), c.IntLit(int64(n)))
	case "enum":
		return t, c.Not(a.inWords(t, a.g.enum[p[1]].Words))
	}
	panic("conv " + cv)
}

// move to the next token: index stays at the end marker
func (a *a2lv) nextIdx(st *State, i *Term, k func(*State, *Term)) {
	c := a.ex.c
	a.fork(st, c.Lt(i, c.Sub(a.N, c.IntLit(1))), func(s *State) { k(s, c.Add(i, c.IntLit(1))) }, func(s *State) { k(s, i) })
}
func (a *a2lv) tokAt(st *State, i *Term) *Term { return st.norm(a.ex.c.At(a.T, st.norm(i))) }

func (a *a2lv) sortOfType(name string) *Sort {
	t := a.pkg.Type(name)
	if t == nil {
		unsup("type %s does not exist any more", name)
	}
	return a.ex.sortOf(t.Type())
}

// nested element at index j (its keyword has been consumed)
func (a *a2lv) nested(st *State, fn string, j *Term, ok func(*State, *Term, *Term), bad func(*State)) {
	c := a.ex.c
	if e := a.g.enum[fn]; e != nil {
		f := func(s *State, j *Term) {
			t := a.tokAt(s, j)
			a.fork(s, a.inWords(t, e.Words), func(s *State) { ok(s, t, j) }, bad)
		}
		if e.Next {
			a.nextIdx(st, j, f)
		} else {
			f(st, j)
		}
		return
	}
	ty := ""
	if p := a.g.parser[fn]; p != nil {
		ty = p.Type
	} else {
		ty = "Module"
	}
	so := a.sortOfType(ty)
	val, er, end := c.App("val_"+fn, so, j), c.App("err_"+fn, c.Bool, j), c.App("end_"+fn, c.Int, j)
	a.fork(st, er, bad, func(s *State) {
		s.assume(c.Le(j, end))
		s.assume(c.Lt(end, a.N))
		ok(s, val, end)
	})
}

func (a *a2lv) mapAdd(m, key, v *Term) *Term {
	c := a.ex.c
	return c.Mk(m.Sort, []*Term{c.Store(c.Fld(m, 0), key, c.T), c.Store(c.Fld(m, 1), key, v)})
}

// one specification step
func (a *a2lv) step(st *State, p *GParser, ss specSt, k func(st *State, ss specSt, status int, why string)) {
	c := a.ex.c
	if st.dead {
		return
	}
	all, flagged := c.T, false
	if p.Kind == "fixed" {
		for _, it := range p.Items {
			if it.Flag != "" {
				all, flagged = c.And(all, c.FldN(ss.S, it.Flag)), true
			}
		}
	}
	body := func(st *State, j *Term) {
		t := a.tokAt(st, j)
		cur := ss
		cur.i = j
		fin := func(s *State, n specSt) {
			if p.Kind == "file" {
				a.nextIdx(s, n.i, func(s *State, i *Term) { n.i = i; k(s, n, spRun, "") })
				return
			}
			if p.Kind == "fixed" && !flagged {
				k(s, n, spStop, "")
				return
			}
			k(s, n, spRun, "")
		}
		bad := func(why string) func(*State) { return func(s *State) { k(s, cur, spErr, why) } }
		var kws func(st *State, n int)
		var rest func(st *State)
		kws = func(st *State, n int) {
			if n == len(p.Kw) {
				rest(st)
				return
			}
			kw := p.Kw[n]
			a.fork(st, c.Eq(t, c.StrLit(kw.Tok)), func(st *State) {
				put := func(v *Term, end *Term, st *State) {
					nx := cur
					nx.i = end
					switch kw.Mode {
					case "set", "enum", "str":
						nx = nx.with(kw.F, c, v)
						if kw.Flag != "" {
							nx = nx.with(kw.Flag, c, c.T)
						}
					case "append":
						nx = nx.with(kw.F, c, c.Cat(c.FldN(nx.S, kw.F), c.Unit(v)))
					case "map":
						nx = nx.setMap(kw.F, a.mapAdd(nx.maps[kw.F], c.FldN(v, kw.Key), v))
					}
					fin(st, nx)
				}
				switch kw.Mode {
				case "str":
					a.nextIdx(st, j, func(st *State, j2 *Term) {
						t2 := a.tokAt(st, j2)
						a.fork(st, c.Eq(t2, c.StrLit("")), bad("end of input"), func(st *State) {
							a.fork(st, a.iskw(st, t2), bad("keyword instead of a parameter"), func(st *State) { put(t2, j2, st) })
						})
					})
				case "enum":
					a.nextIdx(st, j, func(st *State, j2 *Term) {
						a.nested(st, kw.Parser, j2, func(st *State, v, end *Term) { put(v, end, st) }, bad("unknown enumeration word after "+kw.Tok))
					})
				default:
					one := func(fn string) func(*State) {
						return func(st *State) {
							a.nested(st, fn, j, func(st *State, v, end *Term) { put(v, end, st) }, bad("error in nested "+kw.Tok))
						}
					}
					if kw.MtParser != "" {
						a.fork(st, st.global(a.gMT), one(kw.MtParser), one(kw.Parser))
						return
					}
					one(kw.Parser)(st)
				}
			}, func(st *State) { kws(st, n+1) })
		}
		rest = func(st *State) {
			a.fork(st, c.Eq(t, c.StrLit("")), func(st *State) {
				if p.Kind == "file" {
					k(st, cur, spStop, "end of input")
					return
				}
				k(st, cur, spErr, "end of input inside "+p.Fn)
			}, func(st *State) {
				endf := func(st *State) {
					nx := cur
					for _, f := range p.OnEnd {
						nx = nx.with(f, c, c.T)
					}
					if p.Default != nil {
						nx = nx.with(p.Default.F, c, c.Ite(c.FldN(nx.S, p.Default.Unless), c.FldN(nx.S, p.Default.F), c.StrLit(p.Default.Value)))
					}
					k(st, nx, spStop, "end marker")
				}
				sbf := func(st *State) {
					nx := cur
					nx.i = ss.i
					for _, f := range p.OnEnd {
						nx = nx.with(f, c, c.T)
					}
					k(st, nx, spStop, "end marker (not consumed)")
				}
				after := func(st *State) {
					if !p.KwErr {
						a.item(st, p, cur, t, fin, bad)
						return
					}
					a.fork(st, a.iskw(st, t), func(st *State) {
						if p.KwStop {
							sbf(st)
							return
						}
						k(st, cur, spErr, "keyword not allowed in "+p.Fn)
					}, func(st *State) { a.item(st, p, cur, t, fin, bad) })
				}
				if p.End != "" {
					a.fork(st, c.Eq(t, c.StrLit(p.End)), endf, after)
				} else if len(p.StopBefore) > 0 {
					a.fork(st, a.inWords(t, p.StopBefore), sbf, after)
				} else {
					after(st)
				}
			})
		}
		kws(st, 0)
	}
	if p.Kind == "file" {
		body(st, ss.i)
		return
	}
	if p.Kind == "fixed" && flagged { // complete as soon as all parameters are set
		a.fork(st, all, func(st *State) { k(st, ss, spStop, "complete") }, func(st *State) { a.nextIdx(st, ss.i, body) })
		return
	}
	a.nextIdx(st, ss.i, body)
}

func numeric(cv string) bool {
	return cv == "float" || strings.HasPrefix(cv, "uint:") || strings.HasPrefix(cv, "int:")
}

// a token that converts to a number is neither empty nor a keyword (checked against strconv for every keyword when the grammar is loaded)
func (a *a2lv) noNumber(st *State, cv string, t *Term) bool {
	if !numeric(cv) {
		return true
	}
	return st.assume(a.ex.c.Ne(t, a.ex.c.StrLit(""))) && st.assume(a.ex.c.Not(a.iskw(st, t)))
}

// positional parameter
func (a *a2lv) item(st *State, p *GParser, cur specSt, t *Term, fin func(*State, specSt), bad func(string) func(*State)) {
	c := a.ex.c
	var pick func(st *State, n int)
	pick = func(st *State, n int) {
		if n == len(p.Items) {
			fin(st, cur) // surplus text is skipped
			return
		}
		it := p.Items[n]
		flag := it.Flag
		if len(it.Row) > 0 && flag == "" {
			flag = it.Row[0].Flag
		}
		unset := c.T
		if flag != "" {
			unset = c.Not(c.FldN(cur.S, flag))
		}
		if len(it.Row) > 1 && it.Count != "" {
			// a row is open while one of its columns is
			unset = c.F
			for _, r := range it.Row {
				unset = c.Or(unset, c.Not(c.FldN(cur.S, r.Flag)))
			}
		}
		a.fork(st, unset, func(st *State) {
			switch {
			case it.Cat != "":
				fin(st, cur.with(it.Cat, c, c.SCat(c.SCat(c.FldN(cur.S, it.Cat), c.StrLit(" ")), t)))
			case it.List != "":
				v, e := a.conv(st, it.Conv, t)
				a.fork(st, e, bad("unconvertible "+it.List), func(st *State) {
					fin(st, cur.with(it.List, c, c.Cat(c.FldN(cur.S, it.List), c.Unit(v))))
				})
			case it.ListN != "":
				v, e := a.conv(st, it.Conv, t)
				a.fork(st, e, bad("unconvertible "+it.ListN), func(st *State) {
					nx := cur.with(it.ListN, c, c.Cat(c.FldN(cur.S, it.ListN), c.Unit(v)))
					a.fork(st, c.Eq(c.IntLit(int64(it.N)), c.Len(c.FldN(nx.S, it.ListN))), func(st *State) { fin(st, nx.with(it.Flag, c, c.T)) }, func(st *State) { fin(st, nx) })
				})
			case len(it.Row) > 0:
				var col func(st *State, n int, cu specSt, t *Term)
				col = func(st *State, n int, cu specSt, t *Term) {
					r := it.Row[n]
					v, e := a.conv(st, r.Conv, t)
					a.fork(st, e, bad("unconvertible "+r.List+r.Arr), func(st *State) {
						if !a.noNumber(st, r.Conv, t) {
							return
						}
						nx := cu
						if r.List != "" {
							nx = nx.with(r.List, c, c.Cat(c.FldN(cu.S, r.List), c.Unit(v)))
						} else {
							nx = nx.with(r.Arr, c, c.SeqUpd(c.FldN(cu.S, r.Arr), c.IntLit(int64(r.I)), v))
						}
						if n+1 < len(it.Row) {
							a.nextIdx(st, nx.i, func(st *State, j *Term) {
								nx.i = j
								t2 := a.tokAt(st, j)
								if numeric(it.Row[n+1].Conv) {
									col(st, n+1, nx, t2) // neither "" nor a keyword is a number
									return
								}
								a.fork(st, c.Eq(t2, c.StrLit("")), bad("end of input"), func(st *State) {
									a.fork(st, a.iskw(st, t2), bad("keyword instead of a parameter"), func(st *State) { col(st, n+1, nx, t2) })
								})
							})
							return
						}
						if it.Count != "" {
							for _, r := range it.Row {
								full := c.Eq(c.Mod(c.Len(c.FldN(nx.S, r.List)), c.IntLit(65536)), c.FldN(nx.S, it.Count))
								nx = nx.with(r.Flag, c, c.Or(c.FldN(cur.S, r.Flag), full))
							}
						} else if it.Flag != "" {
							nx = nx.with(it.Flag, c, c.T)
						}
						fin(st, nx)
					})
				}
				col(st, 0, cur, t)
			case it.Parser != "":
				a.nested(st, it.Parser, cur.i, func(st *State, v, end *Term) {
					nx := cur.with(it.F, c, v).with(it.Flag, c, c.T)
					nx.i = end
					fin(st, nx)
				}, bad("error in nested "+it.F))
			default:
				v, e := a.conv(st, it.Conv, t)
				a.fork(st, e, bad("unconvertible "+it.F), func(st *State) {
					nx := cur.with(it.F, c, v)
					if it.Flag != "" {
						nx = nx.with(it.Flag, c, c.T)
					}
					fin(st, nx)
				})
			}
		}, func(st *State) { pick(st, n+1) })
	}
	pick(st, 0)
}

// ---------------------------------------------------------------- contracts

func (a *a2lv) propsOf(p *GParser) (val, stop []string) {
	switch {
	case p.Kind == "fixed":
		return []string{"P07"}, []string{"P07"}
	case p.Kind == "flag":
		return []string{"P07"}, []string{"P07"}
	case p.Fn == "parseModule" || p.Fn == "parseModPar":
		return []string{"P08", "P12"}, []string{"P09"}
	}
	return []string{"P08"}, []string{"P09"}
}

func (a *a2lv) tokAddr(st *State, v Val) *Addr {
	ad, ok := v.(*Addr)
	if !ok {
		unsup("token cursor is not a local object")
	}
	return ad.ext(PE{F: a.ex.c.FieldIdx(a.sortOfType("tokenGenerator"), "index")})
}

// apply a parser's contract at a call site
func (a *a2lv) apply(fn string) func(ex *Ex, st *State, fr *Frame, args []Val, pos token.Pos, k K) {
	return func(ex *Ex, st *State, fr *Frame, args []Val, pos token.Pos, k K) {
		c := ex.c
		ad := a.tokAddr(st, args[0])
		i := st.norm(st.load(ad))
		ex.oblige(st, []string{"P10"}, "cursor-in-range", "precondition of "+fn, pos, c.And(c.Le(c.IntLit(0), i), c.Lt(i, a.N)))
		if st.dead {
			return
		}
		if st.global(a.gTok) != a.T {
			ex.refute(st, []string{"P10"}, "token-list-unchanged", "token list modified", pos)
			return
		}
		a.nested(st, fn, i, func(st *State, v, end *Term) {
			st.store(ad, end)
			k(st, []Val{v, c.NilI})
		}, func(st *State) {
			st.ghost["spec:errbase"] = i
			e := c.Fresh("erridx", c.Int)
			st.assume(c.Le(i, e))
			st.assume(c.Lt(e, a.N))
			st.store(ad, e)
			var so *Sort
			if en := a.g.enum[fn]; en != nil {
				so = c.Str
			} else if p := a.g.parser[fn]; p != nil {
				so = a.sortOfType(p.Type)
			} else {
				so = a.sortOfType("Module")
			}
			k(st, []Val{c.Fresh("errval", so), c.ErrI})
		})
	}
}

type anchor struct {
	ss specSt
	la bool
}

func (a *a2lv) setup(ex *Ex, st *State, fr *Frame) *Term {
	c := ex.c
	st.globs[a.gTok] = a.T
	st.assume(c.Le(c.IntLit(1), a.N))
	st.assume(c.Eq(c.At(a.T, c.Sub(a.N, c.IntLit(1))), c.StrLit("")))
	i0 := c.Var("i0", c.Int)
	st.assume(c.Le(c.IntLit(0), i0))
	st.assume(c.Lt(i0, a.N))
	tt := a.pkg.Type("tokenGenerator").Type()
	s := ex.sortOf(tt)
	v := c.UpdN(ex.zero(tt), "index", i0)
	_ = s
	ad := st.newObj(tt, v, "tok", nil)
	fr.env[fr.fn.Params[0]] = ad
	st.ghost["spec:tok"] = ad
	return i0
}

func (a *a2lv) mapFields(p *GParser) []string {
	var r []string
	seen := map[string]bool{}
	for _, k := range p.Kw {
		if k.Mode == "map" && !seen[k.F] {
			seen[k.F] = true
			r = append(r, k.F)
		}
	}
	sort.Strings(r)
	return r
}

func (a *a2lv) fieldType(p *GParser, f string) types.Type {
	s := a.pkg.Type(p.Type).Type().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return s.Field(i).Type()
		}
	}
	unsup("type %s has no field %s any more", p.Type, f)
	return nil
}

func (a *a2lv) curIdx(st *State) *Term {
	return st.norm(st.load(a.tokAddr(st, st.ghost["spec:tok"].(*Addr))))
}

// the struct under construction
func (a *a2lv) sobj(st *State, p *GParser) int {
	want := a.pkg.Type(p.Type).Type()
	best := 0
	for id := range st.objs {
		m := st.ometa[id]
		if types.Identical(m.Type, want) && m.Site != nil && m.Site.Parent() == a.ex.topFn {
			if al, ok := m.Site.(*ssa.Alloc); ok && al.Comment == "" {
				continue // copy of the result for deferred functions
			}
			if best == 0 || id < best {
				best = id
			}
		}
	}
	if best == 0 {
		for id := range st.objs {
			m := st.ometa[id]
			if types.Identical(m.Type, want) && (best == 0 || id < best) {
				best = id
			}
		}
	}
	return best
}

// compare the value the code built with the specified one
func (a *a2lv) compare(st *State, p *GParser, code *Term, ss specSt, props []string, what string, pos token.Pos) {
	c := a.ex.c
	mf := map[string]bool{}
	for _, f := range a.mapFields(p) {
		mf[f] = true
	}
	for i, f := range code.Sort.Fields {
		cv, sv := st.norm(c.Fld(code, i)), st.norm(c.Fld(ss.S, i))
		if mf[f.Name] {
			ct := a.ex.mapContent(st, cv, a.fieldType(p, f.Name).Underlying().(*types.Map))
			sm := ss.maps[f.Name]
			for q := 0; q < 2; q++ {
				if c.Fld(ct, q) != c.Fld(sm, q) {
					a.ex.oblige(st, props, what+":"+f.Name, "collection "+f.Name+" of "+p.Type, pos, c.Eq(c.Fld(ct, q), c.Fld(sm, q)))
				}
			}
			if st.dead {
				return
			}
			continue
		}
		if cv == sv {
			continue
		}
		a.ex.oblige(st, props, what+":"+f.Name, "field "+f.Name+" of "+p.Type+": code "+short(cv)+" spec "+short(sv), pos, c.Eq(cv, sv))
		if st.dead {
			return
		}
	}
	// one counted obligation even if everything is syntactically equal
	a.ex.oblige(st, props, what, "all fields of "+p.Type, pos, c.T)
}

const capSteps = 25

func (a *a2lv) initAnchor(st *State, p *GParser, i0 *Term) {
	ss := specSt{S: a.ex.zero(a.pkg.Type(p.Type).Type()), i: i0, maps: map[string]*Term{}}
	for _, f := range a.mapFields(p) {
		ss.maps[f] = a.ex.emptyMap(a.fieldType(p, f).Underlying().(*types.Map))
	}
	st.ghost["spec:anchor"] = &anchor{ss: ss}
}

func (a *a2lv) register() {
	ex := a.ex
	for _, p := range a.g.Parsers {
		p := p
		fn := pkgFunc(a.pkg, p.Fn)
		if fn == nil {
			continue
		}
		val, stop := a.propsOf(p)
		all := append(append([]string{}, val...), stop...)
		if p.Kind != "flag" {
			all = append(all, "P10")
		}
		ct := &Contract{Fn: fn, Name: p.Fn, Props: all, Safe: []string{"P10"}, Apply: a.apply(p.Fn)}
		ct.Setup = func(ex *Ex, st *State, fr *Frame) {
			i0 := a.setup(ex, st, fr)
			a.initAnchor(st, p, i0)
		}
		if p.Kind == "flag" {
			ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) { a.postFlag(st, p, rets) }
		} else {
			ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) { a.post(st, p, rets, val, stop) }
			ct.Loop = func(ex *Ex, lr *LoopRun) *LoopSpec { return a.loop(p, lr, val, stop) }
		}
		ex.contract[fn] = ct
	}
	for _, e := range a.g.Enums {
		e := e
		fn := pkgFunc(a.pkg, e.Fn)
		if fn == nil {
			continue
		}
		pr := []string{"P11", "P07"}
		ct := &Contract{Fn: fn, Name: e.Fn, Props: pr, Safe: []string{"P10"}, Apply: a.apply(e.Fn)}
		ct.Setup = func(ex *Ex, st *State, fr *Frame) { a.setup(ex, st, fr) }
		ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
			c := ex.c
			i0 := c.Var("i0", c.Int)
			errT := st.term(rets[1])
			pos := fr.fn.Pos()
			a.nested(st, e.Fn, i0, func(st *State, v, end *Term) {
				a.cov[e.Fn]++
				ex.oblige(st, pr, "enum-word-accepted", "a word of the enumeration must be accepted", pos, c.Eq(errT, c.NilI))
				ex.oblige(st, pr, "enum-word-value", "word is mapped to its own constant", pos, c.Eq(st.term(rets[0]), v))
				ex.oblige(st, []string{"P10", "P07"}, "cursor", "cursor after the enumeration", pos, c.Eq(a.curIdx(st), end))
			}, func(st *State) {
				ex.oblige(st, pr, "enum-unknown-rejected", "a word outside the enumeration must be rejected", pos, c.Ne(errT, c.NilI))
				a.inRange(st, i0, pos)
			})
		}
		ex.contract[fn] = ct
	}
	// keyword test
	if fn := pkgFunc(a.pkg, "isKeyword"); fn != nil {
		ct := &Contract{Fn: fn, Name: "isKeyword", Props: []string{"P07", "P08", "P09"}, Safe: []string{"P10"}}
		ct.Apply = func(ex *Ex, st *State, fr *Frame, args []Val, pos token.Pos, k K) {
			k(st, []Val{a.iskw(st, st.term(args[0]))})
		}
		ct.Setup = func(ex *Ex, st *State, fr *Frame) {
			s := ex.c.Var("word", ex.c.Str)
			fr.env[fn.Params[0]] = s
			for _, w := range a.g.Keywords {
				if a.kwCase == "" {
					st.assume(ex.c.Ne(s, ex.c.StrLit(w)))
				}
			}
			if a.kwCase != "" {
				st.assume(ex.c.Eq(s, ex.c.StrLit(a.kwCase)))
			}
		}
		ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
			r := st.norm(st.term(rets[0]))
			if a.kwCase == "" {
				ex.oblige(st, nil, "keyword-set", "a word that is no ASAP2 keyword is not treated as one", fn.Pos(), ex.c.Not(r))
			} else {
				ex.oblige(st, nil, "keyword-set", "the keyword "+a.kwCase+" is recognised", fn.Pos(), r)
			}
		}
		ex.contract[fn] = ct
	}
	if fn := pkgFunc(a.pkg, "parseModuleMultithreaded"); fn != nil {
		ex.contract[fn] = &Contract{Fn: fn, Name: "parseModuleMultithreaded", Apply: a.apply("parseModuleMultithreaded"), Props: []string{"P13"}}
	}
}

func (a *a2lv) inRange(st *State, lo *Term, pos token.Pos) {
	c := a.ex.c
	i := a.curIdx(st)
	a.ex.oblige(st, []string{"P10"}, "cursor-in-range", "cursor stays inside the token list and never moves back", pos, c.And(c.Le(lo, i), c.Lt(i, a.N)))
	if st.globs[a.gTok] != a.T {
		a.ex.refute(st, []string{"P10"}, "token-list-unchanged", "token list modified", pos)
	}
}

func (a *a2lv) postFlag(st *State, p *GParser, rets []Val) {
	c := a.ex.c
	pr := []string{"P07"}
	pos := a.ex.topFn.Pos()
	i0 := c.Var("i0", c.Int)
	errT := st.term(rets[1])
	a.inRange(st, i0, pos)
	good := func(st *State) {
		a.cov[p.Fn]++
		a.ex.oblige(st, pr, "accepted", "the keyword is accepted", pos, c.Eq(errT, c.NilI))
		a.ex.oblige(st, pr, "cursor", "a keyword without parameters consumes nothing", pos, c.Eq(a.curIdx(st), i0))
		v := st.term(rets[0])
		for i, f := range v.Sort.Fields {
			want := c.Fld(a.ex.zero(a.pkg.Type(p.Type).Type()), i)
			for _, s := range p.Set {
				if s == f.Name {
					want = c.T
				}
			}
			a.ex.oblige(st, pr, "value:"+f.Name, "field "+f.Name, pos, c.Eq(c.Fld(v, i), want))
		}
	}
	if p.EmptyErr {
		a.fork(st, c.Eq(c.At(a.T, i0), c.StrLit("")), func(st *State) {
			a.ex.oblige(st, pr, "rejected", "end of input is an error", pos, c.Ne(errT, c.NilI))
		}, good)
		return
	}
	good(st)
}

func (a *a2lv) post(st *State, p *GParser, rets []Val, val, stop []string) {
	c := a.ex.c
	ex := a.ex
	pos := ex.topFn.Pos()
	an := st.ghost["spec:anchor"].(*anchor)
	errT := st.norm(st.term(rets[1]))
	a.inRange(st, an.ss.i, pos)
	if st.dead {
		return
	}
	idx := a.curIdx(st)
	a.fork(st, c.Eq(errT, c.NilI), func(st *State) {
		// success: the specification has to stop, at the same place with the same value
		code := st.term(rets[0])
		var go_ func(st *State, ss specSt, n int, last bool)
		check := func(st *State, ss specSt) {
			if ex.covers < 5 && a.cov[p.Fn] < 400 {
				ex.cover(st, &Oblig{Fn: "a2l." + p.Fn, Name: "cover", Detail: "a successful parse is possible", Props: val, Cover: true})
			}
			a.cov[p.Fn]++
			ex.oblige(st, append(append([]string{}, val...), stop...), "cursor", "tokens consumed on success", pos, c.Eq(a.curIdx(st), ss.i))
			if st.dead {
				return
			}
			a.compare(st, p, code, ss, val, "result", pos)
		}
		go_ = func(st *State, ss specSt, n int, last bool) {
			if st.dead {
				return
			}
			if n > capSteps {
				ex.refute(st, stop, "refinement", "specification does not stop together with the code", pos)
				return
			}
			i := a.curIdx(st)
			at := st.decide(c.Eq(st.norm(ss.i), i))
			if st.decide(c.Lt(i, st.norm(ss.i))) == 1 {
				ex.refute(st, stop, "stops-at-end-marker", "the parser returned without error before the element ended", pos)
				return
			}
			a.step(st, p, ss, func(st *State, ss specSt, status int, why string) {
				switch status {
				case spErr:
					ex.refute(st, stop, "error-reported", "no error returned, but: "+why, pos)
				case spStop:
					check(st, ss)
				default:
					if at == 1 && p.Kind != "file" {
						ex.refute(st, stop, "stops-at-end-marker", "the parser returned without error before the element ended", pos)
						return
					}
					go_(st, ss, n+1, false)
				}
			})
		}
		go_(st, an.ss, 0, false)
	}, func(st *State) {
		if b, ok := st.ghost["spec:errbase"].(*Term); ok {
			idx = st.norm(b) // a nested element at b failed
		}
		var go_ func(st *State, ss specSt, n int)
		go_ = func(st *State, ss specSt, n int) {
			if st.dead {
				return
			}
			i := st.norm(ss.i)
			if n > capSteps || (n > 0 && st.decide(c.Le(idx, i)) == 1 && p.Kind != "file") || (n > 0 && p.Kind == "file" && st.decide(c.Lt(idx, i)) == 1) {
				ex.refute(st, stop, "no-spurious-error", "an error is returned although every token so far is valid", pos)
				return
			}
			a.step(st, p, ss, func(st *State, ss specSt, status int, why string) {
				switch status {
				case spErr:
					ex.oblige(st, stop, "error-justified", why, pos, c.T)
				case spStop:
					ex.refute(st, stop, "no-spurious-error", "an error is returned for a valid element", pos)
				default:
					go_(st, ss, n+1)
				}
			})
		}
		go_(st, an.ss, 0)
	})
}

func (a *a2lv) codeMaps(st *State, p *GParser, S *Term) map[string]*Term {
	c := a.ex.c
	m := map[string]*Term{}
	for _, f := range a.mapFields(p) {
		m[f] = a.ex.mapContent(st, st.norm(c.FldN(S, f)), a.fieldType(p, f).Underlying().(*types.Map))
	}
	return m
}

// the loop reads one token ahead: a header variable holds the token under the cursor
func (a *a2lv) lookahead(lr *LoopRun, st *State, fr *Frame, idx *Term) bool {
	c := a.ex.c
	for _, ph := range lr.phis() {
		if t, ok := fr.env[ph].(*Term); ok && t.Sort == c.Str {
			t = st.norm(t)
			if t == st.norm(c.At(a.T, idx)) {
				return true
			}
		}
	}
	return false
}

func (a *a2lv) loop(p *GParser, lr *LoopRun, val, stop []string) *LoopSpec {
	ex, c := a.ex, a.ex.c
	flags := map[string]bool{}
	for _, it := range p.Items {
		flags[it.Flag] = true
		for _, r := range it.Row {
			flags[r.Flag] = true
		}
	}
	for _, k := range p.Kw {
		flags[k.Flag] = true
	}
	delete(flags, "")
	pos := lr.l.header.Instrs[0].Pos()
	for _, in := range lr.l.header.Instrs {
		if in.Pos().IsValid() {
			pos = in.Pos()
			break
		}
	}
	sid := a.sobj(lr.entryS, p)
	so := a.sortOfType(p.Type)
	// a field may be kept in a variable of the loop until it is stored behind the loop
	couple := map[int]string{}
	for _, ph := range lr.phis() {
		if fld := a.kept(p, lr.entryF, ph); fld >= 0 && fld < len(so.Fields) && couple[fld] == "" {
			couple[fld] = "phi:" + ph.Name()
		}
	}
	for _, id := range sortedObjs(lr.entryS) {
		m := lr.entryS.ometa[id]
		v, ok := m.Site.(ssa.Value)
		if !ok || !isBuilder(m.Type) || v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			call, ok := r.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil || call.Call.StaticCallee().String() != "(*strings.Builder).String" {
				continue
			}
			if fld := a.kept(p, lr.entryF, call); fld >= 0 && fld < len(so.Fields) && couple[fld] == "" {
				couple[fld] = fmt.Sprintf("obj:%d:", id)
			}
		}
	}
	if sid == 0 && len(couple) == 0 {
		unsup("no object of type %s under construction", p.Type)
	}
	view := func(st *State, fr *Frame) *Term {
		var S *Term
		if sid != 0 {
			S = st.norm(st.load(&Addr{Kind: 'o', Obj: sid}))
		} else {
			S = ex.zero(a.pkg.Type(p.Type).Type())
		}
		for _, i := range sortedInts(couple) {
			own := false
			for m := range lr.mod {
				if q := fmt.Sprintf("obj:%d:%d", sid, i); m == q || strings.HasPrefix(m, q+".") {
					own = true
				}
			}
			if v := lr.get(st, fr, couple[i]); !own && v != nil && v.Sort == so.Fields[i].Sort {
				S = st.norm(c.Upd(S, i, st.norm(v)))
			}
		}
		return S
	}
	mf := map[string]bool{}
	for _, f := range a.mapFields(p) {
		mf[f] = true
	}
	sp := &LoopSpec{}
	sp.PreMod = func(st *State, fr *Frame) []string {
		var r []string
		for i, f := range so.Fields {
			if flags[f.Name] && sid != 0 && couple[i] == "" {
				r = append(r, fmt.Sprintf("obj:%d:%d", sid, i))
			}
		}
		return r
	}
	sp.Part = func(leaf string) bool {
		if strings.HasPrefix(leaf, "phi:") {
			return true
		}
		q := strings.Split(leaf, ":")
		if q[0] == "obj" && q[1] == fmt.Sprint(sid) {
			n, err := strconv.Atoi(q[2])
			return err == nil && flags[so.Fields[n].Name]
		}
		return false
	}
	// a counter of the parameters read: how far it is says which of them are set
	var counts bool
	for _, ph := range lr.phis() {
		counts = counts || plainInt(ph.Type())
	}
	if counts && sid != 0 && len(flags) > 0 {
		sp.CandProps = append(append([]string{}, val...), stop...)
		sp.Cands = func(st *State, fr *Frame, q func(string, *Term)) {
			for _, lf := range sortLeaves(lr.mod) {
				if !strings.HasPrefix(lf, "phi:") || !plainInt(lr.leafType(lf)) {
					continue
				}
				v := lr.get(st, fr, lf)
				q("count:"+lf, c.Le(c.IntLit(0), v))
				for i, f := range so.Fields {
					if !flags[f.Name] {
						continue
					}
					b := lr.get(st, fr, fmt.Sprintf("obj:%d:%d", sid, i))
					if b == nil || b.Sort != c.Bool {
						continue
					}
					for k := 1; k <= len(flags); k++ {
						q(fmt.Sprintf("count:%s>=%d:%s", lf, k, f.Name), c.Eq(b, c.Le(c.IntLit(int64(k)), v)))
					}
				}
			}
		}
	}
	la := a.lookahead(lr, lr.entryS, lr.entryF, a.curIdx(lr.entryS)) && p.Kind != "file"
	sp.Havoc = func(st *State, fr *Frame) {
		S := view(st, fr)
		idx := a.curIdx(st)
		if an, ok := st.ghost["spec:anchor"].(*anchor); ok {
			// the cursor never moves back behind the point where the element starts
			st.assume(c.Le(an.ss.i, idx))
		}
		st.assume(c.Lt(idx, a.N))
		i := idx
		if la {
			i = c.Fresh("prev", c.Int)
			st.assume(c.Le(c.IntLit(0), i))
			st.assume(c.Or(c.And(c.Lt(i, c.Sub(a.N, c.IntLit(1))), c.Eq(idx, c.Add(i, c.IntLit(1)))), c.And(c.Eq(i, c.Sub(a.N, c.IntLit(1))), c.Eq(idx, i))))
			for _, ph := range lr.phis() {
				if t, ok := fr.env[ph].(*Term); ok && t.Sort == c.Str && t.Op == "var" {
					if e, ok := lr.entryF.env[ph].(*Term); ok && lr.entryS.norm(e) == lr.entryS.norm(c.At(a.T, a.curIdx(lr.entryS))) {
						st.assume(c.Eq(t, c.At(a.T, idx)))
					}
				}
			}
		}
		st.ghost["spec:anchor"] = &anchor{ss: specSt{S: S, maps: a.codeMaps(st, p, S), i: i}, la: la}
	}
	sp.Arrive = func(st0 *State, fr *Frame, back bool) {
		st := st0.clone()
		an := st.ghost["spec:anchor"].(*anchor)
		idx := a.curIdx(st)
		a.inRange(st, an.ss.i, pos)
		if st.dead {
			return
		}
		if back {
			base := an.ss.i
			if la {
				// strict progress of the lookahead cursor, or of the position behind it
				ex.oblige(st, []string{"P10"}, "termination", "each loop iteration consumes a token", pos, c.Lt(base, idx))
			} else {
				ex.oblige(st, []string{"P10"}, "termination", "each loop iteration consumes a token", pos, c.Lt(base, idx))
			}
			if st.dead {
				return
			}
		}
		if la {
			for _, ph := range lr.phis() {
				if t, ok := fr.env[ph].(*Term); ok && t.Sort == c.Str {
					if e, ok := lr.entryF.env[ph].(*Term); ok && lr.entryS.norm(e) == lr.entryS.norm(c.At(a.T, a.curIdx(lr.entryS))) {
						ex.oblige(st, stop, "lookahead", "the token variable holds the token under the cursor", pos, c.Eq(t, c.At(a.T, idx)))
					}
				}
			}
		}
		S := view(st, fr)
		var go_ func(st *State, ss specSt, n int)
		reached := func(st *State, ss specSt) { a.compare(st, p, S, ss, val, "step", pos) }
		go_ = func(st *State, ss specSt, n int) {
			if st.dead {
				return
			}
			if n > capSteps {
				ex.refute(st, stop, "refinement", "code and specification do not meet at the loop", pos)
				return
			}
			i := st.norm(ss.i)
			tgt := st.norm(idx)
			var cond *Term
			if la {
				// next(i) == idx
				cond = c.Or(c.And(c.Lt(i, c.Sub(a.N, c.IntLit(1))), c.Eq(tgt, c.Add(i, c.IntLit(1)))), c.And(c.Eq(i, c.Sub(a.N, c.IntLit(1))), c.Eq(tgt, i)))
			} else {
				cond = c.Eq(i, tgt)
			}
			// at the entry zero steps are possible; at a back edge progress was shown
			a.fork(st, cond, func(st *State) { reached(st, ss) }, func(st *State) {
				if st.decide(c.Lt(tgt, i)) == 1 {
					ex.refute(st, stop, "refinement", "the code lost its place in the token stream", pos)
					return
				}
				a.step(st, p, ss, func(st *State, ss specSt, status int, why string) {
					switch status {
					case spErr:
						ex.refute(st, stop, "error-reported", "parsing goes on, but: "+why, pos)
					case spStop:
						ex.refute(st, stop, "stops-at-end-marker", "parsing goes on behind the end of the element", pos)
					default:
						go_(st, ss, n+1)
					}
				})
			})
		}
		go_(st, an.ss, 0)
	}
	return sp
}

func sortedObjs(st *State) []int {
	var r []int
	for id := range st.objs {
		r = append(r, id)
	}
	sort.Ints(r)
	return r
}

func sortedInts(m map[int]string) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// kept: the field of the element the value of a loop variable is stored to in the end (-1: none)
func (a *a2lv) kept(p *GParser, fr *Frame, ph ssa.Value) int {
	want := a.pkg.Type(p.Type).Type()
	seen := map[ssa.Value]bool{}
	fld := -1
	var walk func(fr *Frame, v ssa.Value)
	walk = func(fr *Frame, v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch u := r.(type) {
			case *ssa.Phi:
				walk(fr, u)
			case *ssa.Store:
				fa, ok := u.Addr.(*ssa.FieldAddr)
				if ok && u.Val == v && types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), want) && fld < 0 {
					fld = fa.Field
				}
			case *ssa.Return:
				if fr.parent == nil {
					continue
				}
				for k, x := range u.Results {
					if x != v {
						continue
					}
					for _, b := range fr.parent.fn.Blocks {
						for _, in := range b.Instrs {
							call, ok := in.(*ssa.Call)
							if !ok || call.Call.StaticCallee() != fr.fn {
								continue
							}
							if len(u.Results) == 1 {
								walk(fr.parent, call)
								continue
							}
							for _, cr := range *call.Referrers() {
								if e, ok := cr.(*ssa.Extract); ok && e.Index == k {
									walk(fr.parent, e)
								}
							}
						}
					}
				}
			}
		}
	}
	walk(fr, ph)
	return fld
}

// tables defined by composite literals in the package initialiser
func (ex *Ex) groundTables(pkg *ssa.Package) {
	init := pkg.Func("init")
	if init == nil {
		return
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			g, ok := s.Addr.(*ssa.Global)
			if !ok {
				continue
			}
			mm, ok := s.Val.(*ssa.MakeMap)
			if !ok {
				continue
			}
			mt := mm.Type().Underlying().(*types.Map)
			gm := &GroundMap{Name: g.Name(), G: g, Ints: map[string]int64{}, Keys: map[string]*ssa.Const{}, Val: mt}
			kb, kok := mt.Key().Underlying().(*types.Basic)
			vb, vok := mt.Elem().Underlying().(*types.Basic)
			good := kok && vok && kb.Info()&(types.IsString|types.IsInteger) != 0 && vb.Info()&(types.IsString|types.IsInteger) != 0
			if _, isFn := mt.Elem().Underlying().(*types.Signature); isFn && kok && kb.Info()&(types.IsString|types.IsInteger) != 0 {
				good = true
				gm.Fns = map[string]*ssa.Function{}
			} else if good && vb.Info()&types.IsString != 0 {
				gm.Strs = map[string]string{}
			}
			for _, r := range *mm.Referrers() {
				switch u := r.(type) {
				case *ssa.MapUpdate:
					kc, ok1 := u.Key.(*ssa.Const)
					if fn, isFn := u.Value.(*ssa.Function); isFn && gm.Fns != nil && ok1 && kc.Value != nil {
						key := constKey(kc)
						gm.Keys[key] = kc
						gm.Fns[key] = fn
						continue
					}
					vc, ok2 := u.Value.(*ssa.Const)
					ok2 = ok2 && gm.Fns == nil
					if !good || !ok1 || kc.Value == nil || !ok2 || vc.Value == nil {
						good = false
						continue
					}
					key := constKey(kc)
					gm.Keys[key] = kc
					if gm.Strs != nil {
						gm.Strs[key] = constKey(vc)
					} else {
						gm.Ints[key] = vc.Int64()
					}
				case *ssa.Store:
				default:
					good = false
				}
			}
			if good {
				ex.ground[g] = gm
			}
		}
	}
	// a table written anywhere else is no constant
	for _, m := range pkg.Members {
		switch x := m.(type) {
		case *ssa.Function:
			if x != init {
				ex.dropWritten(x)
			}
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := pkg.Prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := pkg.Prog.MethodValue(ms.At(i)); f != nil && f.Pkg == pkg {
						ex.dropWritten(f)
					}
				}
			}
		}
	}
}

func (ex *Ex) dropWritten(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var v ssa.Value
			switch u := in.(type) {
			case *ssa.Store:
				v = u.Addr
			case *ssa.MapUpdate:
				if l, ok := u.Map.(*ssa.UnOp); ok {
					v = l.X
				}
			case *ssa.Call:
				if bi, ok := u.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
					if l, ok := u.Call.Args[0].(*ssa.UnOp); ok {
						v = l.X
					}
				}
			}
			if g, ok := v.(*ssa.Global); ok {
				delete(ex.ground, g)
			}
		}
	}
	for _, an := range f.AnonFuncs {
		ex.dropWritten(an)
	}
}
