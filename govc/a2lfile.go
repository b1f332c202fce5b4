package main

// Contract of a2l.ParseFromFile: the text of the file is handed to the tokenizer, its tokens to the parser, the
// result of the parser to the caller; an error on the way is an error of the call. The tokenizer and the parser are
// represented by their contracts (P23/P24, P07-P13).

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func a2lFileContract(w *Worker, props []string) *Contract {
	if w.pkgs["a2l"] == nil {
		return nil
	}
	pkg := w.pkgs["a2l"]
	fn, tb, pa := pkgFunc(pkg, "ParseFromFile"), pkgFunc(pkg, "buildTokenGeneratorFromString"), pkgFunc(pkg, "parseA2l")
	if fn == nil || tb == nil || pa == nil || len(tb.Params) != 1 || len(pa.Params) != 1 || pa.Signature.Results().Len() != 2 || tb.Signature.Results().Len() != 2 {
		return nil
	}
	list := pkg.Var("tokenList")
	ex := w.ex
	c := ex.c
	tgSort, resSort := ex.sortOf(tb.Signature.Results().At(0).Type()), ex.sortOf(pa.Signature.Results().At(0).Type())
	tokErr := func(t *Term) *Term { return c.App("a2l.tokens.err", c.Bool, t) }
	toks := func(t *Term) *Term { return c.App("a2l.tokens", tgSort, t) }
	parErr := func(t *Term) *Term { return c.App("a2l.parse.err", c.Bool, t) }
	par := func(t *Term) *Term { return c.App("a2l.parse", resSort, t) }
	var s *cspec
	ct := &Contract{Fn: fn, Props: props, Safe: props, Cover: true}
	ct.Setup = func(ex *Ex, st *State, fr *Frame) {
		s = ex.symbolic(st, fr, fn)
		if !s.need("string") {
			unsup("signature of ParseFromFile")
		}
		ex.contract[tb] = &Contract{Fn: tb, Apply: func(ex *Ex, st *State, fr *Frame, args []Val, pos token.Pos, k K) {
			t := st.norm(st.term(args[0]))
			if _, again := st.ghost["spec:text"].(*Term); again {
				unsup("a second text is tokenised")
			}
			st.ghost["spec:text"] = t
			ex.convFork(st, tokErr(t), func(s2 *State, bad bool) {
				if bad {
					k(s2, []Val{c.Fresh("partial", tgSort), c.ErrI})
					return
				}
				k(s2, []Val{toks(t), c.NilI})
			})
		}}
		ex.contract[pa] = &Contract{Fn: pa, Apply: func(ex *Ex, st *State, fr *Frame, args []Val, pos token.Pos, k K) {
			t, ok := st.ghost["spec:text"].(*Term)
			if !ok {
				ex.refute(st, props, "tokens-first", "the parser is called behind the tokenizer", pos)
				return
			}
			if st.ghost["spec:parsed"] != nil {
				unsup("the tokens are parsed twice")
			}
			st.ghost["spec:parsed"] = true
			ex.oblige(st, props, "whole-text", "the parser starts with what the tokenizer returned", pos, c.Eq(ex.ptrContent(st, args[0], pa.Params[0].Type(), pos), toks(t)))
			ex.oblige(st, props, "no-error-so-far", "only tokens of a text that could be tokenised are parsed", pos, c.Not(tokErr(t)))
			ex.convFork(st, parErr(t), func(s2 *State, bad bool) {
				if bad {
					k(s2, []Val{c.Fresh("partial", resSort), c.ErrI})
					return
				}
				k(s2, []Val{par(t), c.NilI})
			})
		}}
	}
	ct.OnGlob = func(ex *Ex, st *State, g *ssa.Global, write bool, pos token.Pos) {
		if write && g == list {
			ex.refute(st, props, "tokens-kept", "the tokens are the tokenizer's", pos)
		}
	}
	ct.Post = func(ex *Ex, st *State, fr *Frame, rets []Val) {
		p := s.get("string")
		e := isErr(c, st, rets[1])
		noFile := c.App("readfile.err", c.Bool, p)
		ex.oblige(st, props, "file-error", "a file that cannot be read is an error", fn.Pos(), c.Implies(noFile, e))
		t, ok := st.ghost["spec:text"].(*Term)
		if !ok {
			ex.oblige(st, props, "tokenised", "the text of a readable file is tokenised", fn.Pos(), noFile)
			return
		}
		if st.dead {
			return
		}
		ex.oblige(st, props, "token-error", "an error of the tokenizer is an error of the call", fn.Pos(), c.Implies(tokErr(t), e))
		if st.ghost["spec:parsed"] == nil {
			ex.oblige(st, props, "parsed", "the tokens are parsed", fn.Pos(), tokErr(t))
			return
		}
		ex.oblige(st, props, "parse-error", "an error of the parser is an error of the call", fn.Pos(), c.Implies(parErr(t), e))
		ex.oblige(st, props, "accepted", "no other error", fn.Pos(), c.Implies(e, c.Or(noFile, tokErr(t), parErr(t))))
		ex.oblige(st, props, "result", "the result of the parser is returned", fn.Pos(), c.Or(e, c.Eq(st.term(rets[0]), par(t))))
		// the text of the file without escapes and without unprintable characters around it
		str := c.App("bytes2s:Seq<Int>", c.Str, c.App("readfile", c.SeqOf(c.Int), p))
		ex.oblige(st, props, "text", "the text of the file is tokenised", fn.Pos(), c.Or(noFile, c.Eq(t, ex.trimmed(st, ex.unescape(st, str)))))
	}
	return ct
}

// unescape: the text without its escapes (a backslash and the character behind it), for strings and byte slices
func (ex *Ex) unescape(st *State, t *Term) *Term {
	c := ex.c
	if t.Sort != c.Str {
		r := c.App("unescape.bytes", t.Sort, t)
		st.assume(c.Eq(c.App("bytes2s:Seq<Int>", c.Str, r), c.App("unescape", c.Str, c.App("bytes2s:Seq<Int>", c.Str, t))))
		return r
	}
	return c.App("unescape", c.Str, t)
}

// trimmed: the text without the characters that are not graphic at both ends
func (ex *Ex) trimmed(st *State, t *Term) *Term { return ex.trimEnd(ex.trimEnd(t, "first"), "last") }

// trimEnd: at one end; the order in which the ends are trimmed does not matter
func (ex *Ex) trimEnd(t *Term, end string) *Term {
	c := ex.c
	if end == "first" && t.Op == "app:trim.last" {
		return c.App("trim.last", c.Str, ex.trimEnd(t.Args[0], end))
	}
	if t.Op == "app:trim."+end {
		return t
	}
	return c.App("trim."+end, c.Str, t)
}

// noText: a replacement that stands for the empty text (an expression without groups)
func (ex *Ex) noText(name, by string) bool {
	return by == "" || !strings.Contains(name, "Literal") && (by == "$1" || by == "${1}")
}

// textExtern: the standard library functions a text is cleaned with
func (ex *Ex) textExtern(st *State, fr *Frame, name string, args []Val, in ssa.CallInstruction, k func(*State, []Val)) bool {
	c := ex.c
	switch name {
	case "regexp.MustCompile", "regexp.Compile":
		t := st.term(args[0])
		r := []Val{c.App("regexp", c.Int, t)}
		if name == "regexp.Compile" {
			if t.Op != "str" {
				return false
			}
			r = append(r, c.NilI)
		}
		k(st, r)
		return true
	case "(*regexp.Regexp).ReplaceAll", "(*regexp.Regexp).ReplaceAllLiteral", "(*regexp.Regexp).ReplaceAllString", "(*regexp.Regexp).ReplaceAllLiteralString":
		re, src, by := ex.regexpOf(st, args[0]), st.norm(st.term(args[1])), st.term(args[2])
		empty := by.Op == "str" && ex.noText(name, by.S) || strings.HasPrefix(by.Op, "app:s2bytes") && by.Args[0].Op == "str" && ex.noText(name, by.Args[0].S)
		if empty && re.Op == "app:regexp" && re.Args[0].Op == "str" && re.Args[0].S == `\\.` {
			k(st, []Val{ex.unescape(st, src)})
			return true
		}
		k(st, []Val{c.App(name, src.Sort, re, src, by)})
		return true
	case "strings.TrimFunc", "strings.TrimLeftFunc", "strings.TrimRightFunc", "bytes.TrimFunc", "bytes.TrimLeftFunc", "bytes.TrimRightFunc":
		cl, ok := args[1].(*Closure)
		if !ok {
			return false
		}
		// the predicate at an arbitrary character
		x, same := c.Fresh("rune", c.Int), true
		ex.callFn(st.clone(), fr.clone(), cl.Fn, cl.Bind, []Val{x}, in, func(s2 *State, _ *Frame, rets []Val) {
			same = same && s2.decide(c.Eq(s2.term(rets[0]), c.Not(c.App("unicode.IsGraphic", c.Bool, x)))) == 1
		})
		t := st.norm(st.term(args[0]))
		if !same {
			k(st, []Val{c.Fresh("trimmed", t.Sort)})
			return true
		}
		bs := t
		if t.Sort != c.Str {
			t = st.norm(c.App("bytes2s:Seq<Int>", c.Str, t))
		}
		if !strings.HasSuffix(name, "TrimRightFunc") {
			t = ex.trimEnd(t, "first")
		}
		if !strings.HasSuffix(name, "TrimLeftFunc") {
			t = ex.trimEnd(t, "last")
		}
		if bs.Sort != c.Str {
			r := c.Fresh("trimmed", bs.Sort)
			st.assume(c.Eq(c.App("bytes2s:Seq<Int>", c.Str, r), t))
			t = r
		}
		k(st, []Val{t})
		return true
	case "os.IsNotExist", "os.IsPermission", "os.IsExist":
		b := c.Fresh(name, c.Bool)
		st.assume(c.Implies(b, c.Ne(st.term(args[0]), c.NilI)))
		k(st, []Val{b})
		return true
	case "unicode.IsGraphic", "unicode.IsPrint", "unicode.IsSpace", "unicode.IsControl":
		k(st, []Val{c.App(name, c.Bool, st.term(args[0]))})
		return true
	}
	return false
}

// regexpOf: the expression; one kept in a package variable that is assigned once, by the package initialiser
func (ex *Ex) regexpOf(st *State, v Val) *Term {
	t := st.term(v)
	if t.Op != "var" {
		return t
	}
	for _, p := range ex.pkgs {
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok || p.Func("init") == nil {
				continue
			}
			if pt, ok := g.Type().(*types.Pointer); !ok || pt.Elem().String() != "*regexp.Regexp" || st.global(g) != t {
				continue
			}
			for _, b := range p.Func("init").Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && s.Addr == g {
						if call, ok := s.Val.(*ssa.Call); ok && call.Call.StaticCallee() != nil && call.Call.StaticCallee().String() == "regexp.MustCompile" {
							if k, ok := call.Call.Args[0].(*ssa.Const); ok && !ex.writtenOutside(g) {
								return ex.c.App("regexp", ex.c.Int, st.term(ex.constVal(k)))
							}
						}
					}
				}
			}
		}
	}
	return t
}

// writtenOutside: the variable is assigned, or its address taken, outside the package initialiser
func (ex *Ex) writtenOutside(g *ssa.Global) bool {
	bad := false
	var look func(f *ssa.Function)
	look = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.X == g {
					continue
				}
				for _, o := range in.Operands(nil) {
					if *o == g {
						bad = true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			look(a)
		}
	}
	for f := range ssautil.AllFunctions(g.Pkg.Prog) {
		if f.Parent() == nil && f != g.Pkg.Func("init") {
			look(f)
		}
	}
	return bad
}

func a2lFileUnits() []*Unit {
	props := []string{"P25"}
	return []*Unit{contractUnit("a2l.ParseFromFile", props, func(w *Worker) *Contract { return a2lFileContract(w, props) })}
}
