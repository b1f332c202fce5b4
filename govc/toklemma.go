package main

// Lemmas of the tokenizer. Text 12 is text 1 followed by text 2; N1, N2 words, n1, n2 lines. Inductions over lines,
// words and the places where something starts are given by base and step.

func (k *tokSpec) next(p *Term) *Term {
	c := k.ex.c
	one := c.IntLit(1)
	return c.Ite(k.isText(p), c.Add(k.strEnd(p), one), c.Ite(k.isLine(p), k.nl(p), c.Ite(k.isComment(p), c.Add(k.mlEnd(p), one),
		c.Ite(k.isBlock(p), c.Add(p, c.IntLit(2)), c.Add(p, one)))))
}

// lines: what setup says about line o
func (k *tokSpec) line(o *Term) *Term {
	c := k.ex.c
	z, one := c.IntLit(0), c.IntLit(1)
	ln := c.At(k.F, o)
	i := c.Fresh("i", c.Int)
	in := c.And(c.Le(z, o), c.Lt(o, c.Len(k.F)))
	p := c.Add(k.off(o), i)
	w := c.At(ln, i)
	return c.And(c.Implies(in, c.And(c.Eq(k.off(c.Add(o, one)), c.Add(k.off(o), c.Len(ln))), c.Le(one, c.Len(ln)))),
		c.Forall([]*Term{i}, c.Implies(c.And(in, c.Le(z, i), c.Lt(i, c.Len(ln))), c.And(c.Eq(k.W(p), w), c.Eq(k.nl(p), k.off(c.Add(o, one))))), w))
}

func tokLemmaUnit(props []string) *Unit {
	name := "lemma.tokens"
	return &Unit{Name: name, Props: props, Run: func(wk *Worker) []*Oblig {
		ex := wk.ex
		c := ex.c
		n0 := len(ex.obs)
		l := &lemmas{ex, props, name}
		z, one := c.IntLit(0), c.IntLit(1)
		V := func(n string) *Term { return c.Fresh(n, c.Int) }
		fs := c.SeqOf(c.SeqOf(c.Str))
		k1 := &tokSpec{ex: ex, sfx: "1", F: c.Var("F1", fs), props: props}
		k2 := &tokSpec{ex: ex, sfx: "2", F: c.Var("F2", fs), props: props}
		k := &tokSpec{ex: ex, sfx: "12", F: c.Var("F12", fs), props: props}
		N1, N2, N := k1.N(), k2.N(), k.N()
		n1, n2 := c.Len(k1.F), c.Len(k2.F)
		o, p, q, e := V("o"), V("p"), V("q"), V("e")
		inc := func(t *Term) *Term { return c.Add(t, one) }
		sh := func(t *Term) *Term { return c.Add(N1, t) }
		// hypotheses of the line inductions
		sizes := c.And(c.Eq(c.Len(k.F), c.Add(n1, n2)), c.Le(z, n1), c.Le(z, n2))
		start := func(x *tokSpec) *Term { return c.And(c.Eq(x.off(z), z), c.Eq(x.off(c.Len(x.F)), x.N())) }
		lineL := func(o *Term) *Term {
			return c.Implies(c.And(c.Le(z, o), c.Lt(o, n1)), c.Eq(c.At(k.F, o), c.At(k1.F, o)))
		}
		lineR := func(o *Term) *Term {
			return c.Implies(c.And(c.Le(z, o), c.Lt(o, n2)), c.Eq(c.At(k.F, c.Add(n1, o)), c.At(k2.F, o)))
		}
		wordsL := func(to *Term) *Term {
			x := V("x")
			return c.Forall([]*Term{x}, c.Implies(c.And(c.Le(z, x), c.Lt(x, to)), c.And(c.Eq(k.W(x), k1.W(x)), c.Eq(k.nl(x), k1.nl(x)))), k1.W(x))
		}
		wordL := func(x *Term) *Term {
			return c.Implies(c.And(c.Le(z, x), c.Lt(x, N1)), c.And(c.Eq(k.W(x), k1.W(x)), c.Eq(k.nl(x), k1.nl(x))))
		}
		wordR := func(x *Term) *Term {
			return c.Implies(c.And(c.Le(z, x), c.Lt(x, N2)), c.And(c.Eq(k.W(sh(x)), k2.W(x)), c.Eq(k.nl(sh(x)), sh(k2.nl(x)))))
		}
		// ---- both texts joined: which lines there are
		cat := c.Cat(k1.F, k2.F)
		l.prove("joined:left", "the first lines are those of the first part", c.Eq(c.At(cat, o), c.At(k1.F, o)), c.Le(z, o), c.Lt(o, n1))
		l.prove("joined:right", "behind them stand those of the second part", c.Eq(c.At(cat, c.Add(n1, o)), c.At(k2.F, o)), c.Le(z, o), c.Lt(o, n2))
		l.prove("joined:number", "there are no others", c.Eq(c.Len(cat), c.Add(n1, n2)))
		// ---- words and lines
		leftTo := func(to *Term) *Term {
			return c.Implies(c.And(c.Le(z, p), c.Lt(p, to)), c.And(c.Eq(k.W(p), k1.W(p)), c.Eq(k.nl(p), k1.nl(p))))
		}
		rightTo := func(to *Term) *Term {
			return c.Implies(c.And(c.Le(z, p), c.Lt(p, to)), c.And(c.Eq(k.W(sh(p)), k2.W(p)), c.Eq(k.nl(sh(p)), sh(k2.nl(p)))))
		}
		lineOf := func(x *tokSpec, o, i *Term) *Term { // what line says about word i of line o
			ln := c.At(x.F, o)
			pp := c.Add(x.off(o), i)
			in := c.And(c.Le(z, o), c.Lt(o, c.Len(x.F)))
			return c.And(c.Implies(in, c.And(c.Eq(x.off(inc(o)), c.Add(x.off(o), c.Len(ln))), c.Le(one, c.Len(ln)))),
				c.Implies(c.And(in, c.Le(z, i), c.Lt(i, c.Len(ln))), c.And(c.Eq(x.W(pp), c.At(ln, i)), c.Eq(x.nl(pp), x.off(inc(o))))))
		}
		l.prove("words:left:start", "words of the first part (base)", c.Eq(k.off(z), k1.off(z)), start(k), start(k1), sizes)
		l.prove("words:left:step", "words of the first part (step)", c.And(c.Eq(k.off(inc(o)), k1.off(inc(o))), leftTo(k1.off(inc(o)))),
			sizes, c.Le(z, o), c.Lt(o, n1), lineL(o), c.Eq(k.off(o), k1.off(o)), leftTo(k1.off(o)), lineOf(k, o, c.Sub(p, k1.off(o))), lineOf(k1, o, c.Sub(p, k1.off(o))))
		l.prove("words:right:start", "words of the second part (base)", c.Eq(k.off(n1), sh(k2.off(z))), start(k2), start(k1), c.Eq(k.off(n1), k1.off(n1)))
		l.prove("words:right:step", "words of the second part (step)", c.And(c.Eq(k.off(c.Add(n1, inc(o))), sh(k2.off(inc(o)))), rightTo(k2.off(inc(o)))),
			sizes, c.Le(z, o), c.Lt(o, n2), lineR(o), c.Eq(k.off(c.Add(n1, o)), sh(k2.off(o))), rightTo(k2.off(o)), lineOf(k, c.Add(n1, o), c.Sub(p, k2.off(o))), lineOf(k2, o, c.Sub(p, k2.off(o))))
		l.prove("words:number", "no other words", c.Eq(N, c.Add(N1, N2)), start(k), start(k2), sizes, c.Eq(k.off(c.Add(n1, n2)), sh(k2.off(n2))))
		// ---- texts in quotation marks
		jL := func(p, e *Term) *Term {
			return c.Implies(c.And(c.Le(z, p), c.Le(p, e), c.Lt(e, N1)), c.Eq(k.join(p, e), k1.join(p, e)))
		}
		jR := func(p, e *Term) *Term {
			return c.Implies(c.And(c.Le(z, p), c.Le(p, e), c.Lt(e, N2)), c.Eq(k.join(sh(p), sh(e)), k2.join(p, e)))
		}
		grow := func(x *tokSpec, a, p *Term) *Term {
			return c.Implies(c.And(c.Le(z, a), c.Le(a, p), c.Lt(inc(p), x.N())), c.Eq(x.join(a, inc(p)), c.SCat(c.SCat(x.join(a, p), c.StrLit(" ")), x.W(inc(p)))))
		}
		one1 := func(x *tokSpec, p *Term) *Term {
			return c.Implies(c.And(c.Le(z, p), c.Lt(p, x.N())), c.Eq(x.join(p, p), x.W(p)))
		}
		num := []*Term{c.Eq(N, c.Add(N1, N2)), c.Le(z, N1), c.Le(z, N2)}
		H := func(h ...*Term) []*Term { return append(append([]*Term{}, num...), h...) }
		l.prove("text:left:start", "text of the first part (base)", jL(p, p), H(wordL(p), one1(k, p), one1(k1, p))...)
		l.prove("text:left:step", "text of the first part (step)", jL(p, inc(e)), H(c.Le(p, e), jL(p, e), wordL(inc(e)), grow(k, p, e), grow(k1, p, e))...)
		l.prove("text:right:start", "text of the second part (base)", jR(p, p), H(wordR(p), one1(k, sh(p)), one1(k2, p))...)
		l.prove("text:right:step", "text of the second part (step)", jR(p, inc(e)), H(c.Le(p, e), jR(p, e), wordR(inc(e)), grow(k, sh(p), sh(e)), grow(k2, p, e))...)
		l.prove("text:not-empty:start", "a text is not empty (base)", c.Ne(k.join(p, p), c.StrLit("")), c.Le(z, p), c.Lt(p, N), one1(k, p), c.Ne(k.W(p), c.StrLit("")))
		l.prove("text:not-empty:step", "a text is not empty (step)", c.Lt(z, c.SLen(k.join(p, inc(e)))), c.Le(z, p), c.Le(p, e), c.Lt(inc(e), N), grow(k, p, e))
		l.prove("text:not-empty", "a text with characters is not empty", c.Ne(k.join(p, e), c.StrLit("")), c.Lt(z, c.SLen(k.join(p, e))))
		allJL, allJR := V("y"), V("y")
		joinsL := func(p *Term) *Term { return c.Forall([]*Term{allJL}, jL(p, allJL), k1.join(p, allJL)) }
		joinsR := func(p *Term) *Term { return c.Forall([]*Term{allJR}, jR(p, allJR), k2.join(p, allJR)) }
		at := func(x *tokSpec, p *Term) *Term { return c.And(x.rules(p)...) }
		// ---- where texts and comments end
		inL := c.And(c.Le(z, p), c.Lt(p, N1))
		inR := c.And(c.Le(z, q), c.Lt(q, N2))
		endL := func(f func(*tokSpec) *Term) *Term {
			return c.Implies(c.Lt(f(k1), N1), c.Eq(f(k), f(k1)))
		}
		sL := func(x *tokSpec) *Term { return x.strEnd(p) }
		mL := func(x *tokSpec) *Term { return x.mlEnd(p) }
		l.prove("end:text:left", "a text that ends within the first part ends there", endL(sL), H(inL, at(k, p), at(k1, p), joinsL(p), jL(p, sL(k)), jL(p, sL(k1)))...)
		l.prove("end:text:right", "a text of the second part ends where it ends there", c.Eq(k.strEnd(sh(q)), sh(k2.strEnd(q))), H(inR, at(k, sh(q)), at(k2, q), joinsR(q), jR(q, k2.strEnd(q)), jR(q, c.Sub(k.strEnd(sh(q)), N1)))...)
		l.prove("end:comment:left", "a comment that ends within the first part ends there", c.Implies(k1.isComment(p), endL(mL)), H(inL, at(k, p), at(k1, p), wordsL(N1), wordL(p), wordL(mL(k)), wordL(mL(k1)))...)
		l.prove("end:comment:right", "a comment of the second part ends where it ends there", c.Implies(k2.isComment(q), c.Eq(k.mlEnd(sh(q)), sh(k2.mlEnd(q)))), H(inR, at(k, sh(q)), at(k2, q), wordR(q), wordR(k2.mlEnd(q)), wordR(c.Sub(k.mlEnd(sh(q)), N1)))...)
		// ---- one kind for every word, and progress
		kinds := []*Term{k.isText(p), k.isLine(p), k.isComment(p), k.isPlain(p)}
		l.prove("kind:some", "every word starts a text, a comment, a line comment or a word", c.Or(kinds...), tokLawsOf(ex, k.W(p))...)
		for i, a := range kinds {
			for j, b := range kinds[:i] {
				l.prove("kind:one", "kinds "+string(rune('0'+j))+" and "+string(rune('0'+i))+" exclude each other", c.Not(c.And(a, b)), tokLawsOf(ex, k.W(p))...)
			}
		}
		nlAt := c.Implies(c.And(c.Le(z, p), c.Lt(p, N)), c.And(c.Lt(p, k.nl(p)), c.Le(k.nl(p), N)))
		l.prove("progress:line", "the next line starts behind the word", c.And(c.Lt(p, k.nl(p)), c.Le(k.nl(p), N)),
			c.Le(z, o), c.Lt(o, c.Len(k.F)), k.line(o), c.Le(k.off(inc(o)), N), c.Le(k.off(o), p), c.Lt(p, k.off(inc(o))), c.Eq(c.At(c.At(k.F, o), c.Sub(p, k.off(o))), c.Fresh("s", c.Str)))
		l.prove("progress:monotone", "lines stand one behind the other (step)", c.Le(k.off(o), k.off(inc(e))), c.Le(z, o), c.Le(o, e), c.Lt(e, c.Len(k.F)), c.Le(k.off(o), k.off(e)), k.line(e))
		l.prove("progress", "it goes on behind the word, within the text", c.And(c.Lt(p, k.next(p)), c.Le(k.next(p), N)), c.Le(z, p), c.Lt(p, N), c.Not(k.stuck(p)), nlAt, at(k, p))
		// ---- places where something starts
		st := func(x *tokSpec, p *Term) *Term { return x.orbit(p) }
		sameL := func(p *Term) *Term {
			return c.And(st(k, p), st(k1, p), c.Eq(k.toks(p), k1.toks(p)), c.Eq(k.modc(p), k1.modc(p)))
		}
		T1, M1 := k1.toks(N1), k1.modc(N1)
		sameR := func(q *Term) *Term {
			return c.And(st(k, sh(q)), st(k2, q), c.Eq(k.toks(sh(q)), c.Cat(T1, k2.toks(q))), c.Eq(k.modc(sh(q)), c.Add(M1, k2.modc(q))))
		}
		begin := func(x *tokSpec) *Term {
			return c.And(st(x, z), c.Eq(x.toks(z), c.Empty(c.SeqOf(c.Str))), c.Eq(x.modc(z), z))
		}
		l.prove("starts:left:start", "the first part starts like the whole (base)", sameL(z), begin(k), begin(k1))
		l.prove("starts:left:step", "what ends within the first part is the same in the whole (step)", c.And(c.Eq(k.next(p), k1.next(p)), sameL(k1.next(p))),
			H(append([]*Term{inL, sameL(p), c.Not(k1.stuck(p)), at(k, p), at(k1, p), wordL(p), wordL(inc(p)), endL(sL), c.Implies(k1.isComment(p), endL(mL)), jL(p, sL(k1)), c.Or(kinds...)}, tokLawsOf(ex, k.W(p))...)...)...)
		l.prove("starts:right:start", "behind a complete first part the second one starts (base)", sameR(z), H(sameL(N1), begin(k2))...)
		l.prove("starts:right:step", "in the second part it goes on as there (step)", c.And(c.Eq(k.next(sh(q)), sh(k2.next(q))), sameR(k2.next(q))),
			H(append([]*Term{inR, sameR(q), c.Not(k2.stuck(q)), at(k, sh(q)), at(k2, q), wordR(q), wordR(inc(q)), c.Eq(k.strEnd(sh(q)), sh(k2.strEnd(q))), c.Implies(k2.isComment(q), c.Eq(k.mlEnd(sh(q)), sh(k2.mlEnd(q)))), jR(q, k2.strEnd(q))}, tokLawsOf(ex, k2.W(q))...)...)...)
		// the end
		E2 := k2.M()
		last := func(x *tokSpec, p *Term) *Term { return c.Or(c.Eq(p, x.N()), c.And(c.Lt(p, x.N()), x.stuck(p))) }
		l.prove("end:same", "the whole ends where the second part ends", c.And(c.Eq(k.M(), sh(E2)), c.Eq(k.toks(k.M()), c.Cat(T1, k2.toks(E2))), c.Eq(k.modc(k.M()), c.Add(M1, k2.modc(E2))), c.Eq(c.Eq(k.M(), N), c.Eq(E2, N2))),
			H(c.Le(z, E2), c.Le(E2, N2), last(k2, E2), sameR(E2), at(k, sh(E2)), wordR(E2), c.Implies(c.Lt(E2, N2), c.And(c.Eq(k.strEnd(sh(E2)), sh(k2.strEnd(E2))), c.Implies(k2.isComment(E2), c.Eq(k.mlEnd(sh(E2)), sh(k2.mlEnd(E2)))))))...)
		l.prove("end:complete", "a complete part ends at its last word", c.Implies(c.Eq(k1.M(), N1), c.And(c.Eq(k1.toks(k1.M()), T1), c.Eq(k1.modc(k1.M()), M1))))
		l.prove("end:empty", "a text without words has no tokens and is complete", c.And(c.Eq(k1.M(), N1), c.Eq(k1.toks(k1.M()), c.Empty(c.SeqOf(c.Str))), c.Eq(k1.modc(k1.M()), z)),
			c.Eq(n1, z), start(k1), begin(k1), c.Implies(k1.orbit(N1), c.Eq(k1.M(), N1)))
		// the places in their order: ch(i) is the i-th one, K the first at which the text ends
		ch := func(i *Term) *Term { return c.App("tk.chain", c.Int, i) }
		i, j, K := V("i"), V("j"), V("K")
		l.prove("chain:rises", "the places rise (step)", c.Lt(ch(i), ch(inc(j))), c.Le(i, j), c.Implies(c.Lt(i, j), c.Lt(ch(i), ch(j))), c.Eq(ch(inc(j)), k.next(ch(j))), c.Lt(ch(j), k.next(ch(j))))
		l.prove("chain:end", "there is one place at which the text ends", c.Eq(i, K), c.Le(z, i), c.Le(i, K), last(k, ch(i)), c.Implies(c.Lt(i, K), c.Not(last(k, ch(i)))))
		// ---- the words of the lines a..d are those of a..b and b..d
		m := &tokMain{ex: ex, props: props}
		L := c.Var("L", c.SeqOf(c.Str))
		a, b, d := V("a"), V("b"), V("d")
		ab, bd, ad := c.SeqSub(L, a, b), c.SeqSub(L, b, d), c.SeqSub(L, a, d)
		rng := c.And(c.Le(z, a), c.Le(a, b), c.Le(b, d), c.Le(d, c.Len(L)))
		l.prove("lines:left:start", "words of the first lines (base)", c.Eq(m.fl(ad, z), m.fl(ab, z)), rng, c.Eq(m.fl(ad, z), c.Empty(m.words())), c.Eq(m.fl(ab, z), c.Empty(m.words())))
		l.prove("lines:left:step", "words of the first lines (step)", c.Eq(m.fl(ad, inc(i)), m.fl(ab, inc(i))), rng, c.Le(z, i), c.Lt(i, c.Sub(b, a)), c.Eq(m.fl(ad, i), m.fl(ab, i)), m.flDef(ad, i), m.flDef(ab, i))
		w := c.Sub(b, a)
		l.prove("lines:right:start", "words of the later lines (base)", c.Eq(m.fl(ad, w), c.Cat(m.fl(ab, w), m.fl(bd, z))), rng, c.Eq(m.fl(ad, w), m.fl(ab, w)), c.Eq(m.fl(bd, z), c.Empty(m.words())))
		l.prove("lines:right:step", "words of the later lines (step)", c.Eq(m.fl(ad, c.Add(w, inc(i))), c.Cat(m.fl(ab, w), m.fl(bd, inc(i)))), rng, c.Le(z, i), c.Lt(i, c.Sub(d, b)), c.Eq(m.fl(ad, c.Add(w, i)), c.Cat(m.fl(ab, w), m.fl(bd, i))), m.flDef(ad, c.Add(w, i)), m.flDef(bd, i))
		l.prove("lines:whole", "all lines are the text", c.Eq(c.SeqSub(L, z, c.Len(L)), L))
		return ex.obs[n0:]
	}}
}

// tokLawsOf: the laws of the marks for one word
func tokLawsOf(ex *Ex, t *Term) []*Term {
	c := ex.c
	z := c.IntLit(0)
	a, b, m := tokIdx(c, t, `"`), tokIdx(c, t, "//"), tokIdx(c, t, "/*")
	diff := func(x, y *Term) *Term { return c.Or(c.Ne(x, y), c.Lt(x, z)) }
	return []*Term{diff(a, b), diff(a, m), diff(b, m)}
}
