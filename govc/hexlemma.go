package main

// Lemmas the contracts of the hex readers lean on. Inductions are given by their base case and their step.

import (
	"go/types"
	"os"
)

type lemmas struct {
	ex    *Ex
	props []string
	name  string
}

func (l *lemmas) prove(name, detail string, goal *Term, hyps ...*Term) {
	st := l.ex.newState()
	for _, h := range hyps {
		st.assume(h)
	}
	if st.dead {
		// contradictory hypotheses prove nothing
		goal = l.ex.c.F
		st = l.ex.newState()
	}
	n := len(l.ex.obs)
	if os.Getenv("GOVC_VACUITY") != "" {
		goal = l.ex.c.F
	}
	l.ex.lemma(st, l.props, name, detail, goal)
	l.ex.obs[n].Fn = l.name
}

func hexLemmaUnit(f *hexFmt) *Unit {
	name := "lemma." + f.pkg
	props := f.all()
	return &Unit{Name: name, Props: props, Run: func(wk *Worker) []*Oblig {
		ex := wk.ex
		c := ex.c
		n0 := len(ex.obs)
		if wk.pkgs[f.pkg] == nil {
			return missing(name, props)
		}
		l := &lemmas{ex, props, name}
		w := f.world(ex)
		z, one := c.IntLit(0), c.IntLit(1)
		V := func(n string) *Term { return c.Fresh(n, c.Int) }
		nonneg := func(t *Term) *Term { return c.Le(z, t) }

		// ---- counts
		L := c.Var("L", c.SeqOf(c.Str))
		h := c.Var("H", c.ArrOf(c.Int, f.recSort(ex)))
		a, b := V("a"), V("b")
		l.prove("count-monotone:lines", "the number of records does not fall from line to line", c.And(c.Le(ex.nb(a), ex.nb(c.Add(b, one))), nonneg(ex.nb(c.Add(b, one)))),
			nonneg(a), c.Le(a, b), c.Le(ex.nb(a), ex.nb(b)), nonneg(ex.nb(b)), f.lineDef(ex, L, b))
		l.prove("count-monotone:bytes", "the number of bytes does not fall from record to record", c.And(c.Le(w.base(a), w.base(c.Add(b, one))), nonneg(w.base(c.Add(b, one)))),
			nonneg(a), c.Le(a, b), c.Le(w.base(a), w.base(b)), nonneg(w.base(b)), w.baseDef(h, b))

		// ---- parts
		A, B, D, n := V("A"), V("B"), V("D"), V("n")
		hyp := []*Term{nonneg(A), c.Lt(z, B), nonneg(n), c.Eq(D, c.Div(A, B))}
		db, dn := c.Mul(D, B), c.Mul(D, n)
		l.prove("chunk-arithmetic:quotient", "bounds of the quotient", c.And(nonneg(D), c.Le(db, A), c.Lt(A, c.Add(db, B))), hyp...)
		base := []*Term{nonneg(D), c.Lt(z, B), nonneg(n)}
		l.prove("chunk-arithmetic:product", "products are not negative", nonneg(dn), base...)
		l.prove("chunk-arithmetic:end", "part n ends within the list", c.Implies(c.Lt(n, B), c.Le(c.Add(dn, D), db)), base...)
		l.prove("chunk-arithmetic:first", "part 0 starts at 0", c.Implies(c.Eq(n, z), c.Eq(dn, z)), base...)
		// the pieces of a list put together
		S := c.Var("S", c.SeqOf(c.Int))
		x, y, i := V("x"), V("y"), V("i")
		in := []*Term{nonneg(x), c.Le(x, y), c.Le(y, c.Len(S))}
		sub := c.SeqSub(S, x, y)
		l.prove("parts:length", "length of a part", c.Eq(c.Len(sub), c.Sub(y, x)), in...)
		l.prove("parts:element", "element of a part", c.Eq(c.At(sub, i), c.At(S, c.Add(x, i))), append(in, nonneg(i), c.Lt(i, c.Sub(y, x)))...)
		cat := c.Cat(c.SeqSub(S, z, x), sub)
		all := c.SeqSub(S, z, y)
		l.prove("parts:join-length", "two neighbouring parts joined are as long as the whole", c.Eq(c.Len(cat), c.Len(all)), in...)
		l.prove("parts:join", "two neighbouring parts joined are the whole", c.Eq(c.At(cat, i), c.At(all, i)), append(in, nonneg(i), c.Lt(i, y))...)
		l.prove("parts:join-element", "a part and the next element are the longer part", c.Eq(c.At(c.Cat(c.SeqSub(S, z, x), c.Unit(c.At(S, x))), i), c.At(c.SeqSub(S, z, c.Add(x, one)), i)),
			nonneg(x), c.Lt(x, c.Len(S)), nonneg(i), c.Le(i, x))

		// ---- records: what parseRecord guarantees of an accepted line
		ln, r := c.Var("line", c.Str), c.Var("rec", f.recSort(ex))
		full := []*Term{f.fullRecord(ex, ln)}
		for _, nm := range sortedTermKeys(f.fields(ex, ln)) {
			full = append(full, c.Eq(ex.fld(r, nm), f.fields(ex, ln)[nm]))
		}
		d := ex.fld(r, "data")
		full = append(full, c.Eq(c.Len(d), f.ndata(ex, ln)))
		dj := func(j int64) *Term {
			return c.And(f.datDef(ex, ln, c.IntLit(j)), c.Implies(c.Lt(c.IntLit(j), f.ndata(ex, ln)), c.Eq(c.At(d, c.IntLit(j)), f.dat(ex, ln, c.IntLit(j)))))
		}
		l.prove("record:address", "the address field of a record is complete", c.Eq(c.SLen(ex.fld(r, "addressField")), c.IntLit(f.addrLen())), full...)
		l.prove("record:address:digits", "the address of a record with a right byte sum has hexadecimal digits", ex.hexText(ex.fld(r, "addressField"), f.addrLen()), append(full, f.csDigits(ex, r, false))...)
		l.prove("record:kept", "the line of a record that is kept is a full record", f.fullRecord(ex, ln), f.parseok(ex, ln), f.kept(ex, ln))
		if f.ihex {
			isEla := c.Eq(ex.fld(r, "recordType"), c.StrLit("04"))
			l.prove("record:initial-offset", "a data record starts with the upper address 0", c.Implies(f.isData(ex, ex.fld(r, "recordType")), c.Eq(ex.fld(r, "offset"), c.StrLit("0000"))), full...)
			l.prove("record:upper-address", "the upper address of a record with a right byte sum has four hexadecimal digits", c.And(c.Eq(ex.fld(r, "offset"), ex.sub(ln, 9, 13)), ex.hexText(ex.sub(ln, 9, 13), 4)),
				append(full, isEla, f.csDigits(ex, r, false), dj(0), dj(1))...)
			p := V("p")
			rp := w.recAt(h, p)
			l.prove("right:start", "the initial upper address has four hexadecimal digits", ex.hexText(c.StrLit("0000"), 4))
			l.prove("right:step", "the upper address in force has four hexadecimal digits", ex.hexText(w.right(c.Add(p, one)), 4),
				ex.hexText(w.right(p), 4), w.rightDef(h, p), c.Implies(w.typeAt(h, p, "04"), ex.hexText(ex.fld(rp, "offset"), 4)))
			off := c.Upd(r, c.FieldIdx(f.recSort(ex), "offset"), w.right(p))
			l.prove("entries:precondition", "the data of a record with a right byte sum can be converted", f.entriesPre(ex, off, true),
				ex.hexText(ex.fld(r, "addressField"), 4), f.csDigits(ex, r, false), ex.hexText(w.right(p), 4))
			f.offsetLemmas(l, w, h)
		} else {
			l.prove("entries:precondition", "the data of a record with a right byte sum can be converted", f.entriesPre(ex, r, true),
				ex.hexText(ex.fld(r, "addressField"), 8), f.csDigits(ex, r, false))
		}

		// ---- the image
		if fn := f.fn(wk, "parseHex"); fn != nil && fn.Signature.Results().Len() == 2 {
			if mt, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Map); ok {
				m := &hexMain{hexWorld: w, mt: mt, DS: c.Var("DS", f.dataSort(ex))}
				adr := func(q *Term) *Term { return ex.fld(c.At(m.DS, q), "address") }
				val := func(q *Term) *Term { return ex.fld(c.At(m.DS, q), "value") }
				hasA := func(q, a *Term) *Term { return c.Select(c.Fld(m.hs(q), 0), a) }
				getA := func(q, a *Term) *Term { return c.Select(c.Fld(m.hs(q), 1), a) }
				wit := func(q, a *Term) *Term { return c.App("hx.witness", c.Int, q, a) }
				q, ad, i := V("q"), V("addr"), V("i")
				q1 := c.Add(q, one)
				def := m.hsDef(q)
				witDef := c.Eq(wit(q1, ad), c.Ite(c.Eq(adr(q), ad), q, wit(q, ad)))
				src := func(q *Term) *Term {
					return c.Implies(hasA(q, ad), c.And(c.Le(z, wit(q, ad)), c.Lt(wit(q, ad), q), c.Eq(adr(wit(q, ad)), ad)))
				}
				start := c.Eq(m.hs(z), ex.emptyMap(mt))
				l.prove("image:source:start", "the empty image has no address", src(z), start)
				l.prove("image:source:step", "every address of the image comes from a byte of the file", src(q1), nonneg(q), def, witDef, src(q))
				l.prove("image:complete", "the address of every byte is in the image", hasA(q1, adr(i)), def, nonneg(i), c.Le(i, q), c.Implies(c.Lt(i, q), hasA(q, adr(i))))
				l.prove("image:value", "without colliding addresses the image holds the value of every byte", c.Eq(getA(q1, adr(i)), val(i)),
					def, nonneg(i), c.Le(i, q), c.Implies(c.Lt(i, q), c.And(c.Eq(getA(q, adr(i)), val(i)), hasA(q, adr(i)))), c.Not(m.col(q)))
				l.prove("image:collision", "a collision means two bytes with one address", c.And(c.Lt(wit(q, adr(q)), q), nonneg(wit(q, adr(q))), c.Eq(adr(wit(q, adr(q))), adr(q))),
					m.col(q), c.Subst(src(q), map[*Term]*Term{ad: adr(q)}))
				l.prove("image:collision-found", "two bytes with one address are a collision", m.col(q), nonneg(i), c.Lt(i, q), c.Eq(adr(i), adr(q)), hasA(q, adr(i)))
			}
		}
		return ex.obs[n0:]
	}}
}

// offsetLemmas: from the contract of one offset worker to the offsets behind the end of all of them.
// s(w): first record of worker w, e(w): record behind the last one it visits, lock(w,b): offset found when record b is
// locked, left(w,b): offset at unlock. first(b): the worker that first leaves a value other than the initial one.
func (f *hexFmt) offsetLemmas(l *lemmas, w *hexWorld, h *Term) {
	ex := l.ex
	c := ex.c
	z, one := c.IntLit(0), c.IntLit(1)
	zero := c.StrLit("0000")
	s := func(x *Term) *Term { return c.App("hx.from", c.Int, x) }
	e := func(x *Term) *Term { return c.App("hx.to", c.Int, x) }
	lock := func(x, b *Term) *Term { return c.App("hx.found", c.Str, x, b) }
	left := func(x, b *Term) *Term { return c.App("hx.left", c.Str, x, b) }
	first := func(b *Term) *Term { return c.App("hx.first", c.Int, b) }
	N := c.Len(w.RS)
	data := func(p *Term) *Term { return w.typeAt(h, p, "00") }
	visits := func(x, b *Term) *Term { return c.And(c.Le(s(x), b), c.Lt(b, e(x))) }
	// contract of addOffsets
	leaves := func(x, b *Term) *Term {
		return c.Implies(visits(x, b), c.Ite(c.And(data(b), w.seen(s(x), b)), c.Eq(left(x, b), w.right(b)), c.Eq(left(x, b), lock(x, b))))
	}
	ends := func(x *Term) *Term {
		q := c.Sub(e(x), one)
		return c.And(c.Le(z, s(x)), c.Le(s(x), N), c.Le(s(x), e(x)), c.Le(e(x), N), c.Or(c.Eq(e(x), N), c.And(c.Le(s(x), q), data(q), w.seen(s(x), q), c.Eq(lock(x, q), w.right(q)), c.Ne(lock(x, q), zero))))
	}
	// a value other than the initial one has been left by a worker that found the initial one
	history := func(x, b *Term) *Term {
		y := first(b)
		return c.Implies(c.And(visits(x, b), data(b), c.Ne(lock(x, b), zero)), c.And(visits(y, b), c.Eq(lock(y, b), zero), c.Ne(left(y, b), zero)))
	}
	x, k, p, q := c.Fresh("w", c.Int), c.Fresh("k", c.Int), c.Fresh("p", c.Int), c.Fresh("q", c.Int)
	l.prove("offsets:seen", "an extended linear address stays in force", w.seen(p, c.Add(q, one)), w.seen(p, q), w.seenDef(h, p, q))
	l.prove("offsets:changed", "an upper address other than 0 comes from an extended linear address", c.Implies(c.Ne(w.right(c.Add(q, one)), zero), w.seen(z, c.Add(q, one))),
		c.Implies(c.Ne(w.right(q), zero), w.seen(z, q)), w.rightDef(h, q), w.seenDef(h, z, q))
	good := func(x *Term) *Term { return c.And(c.Le(s(x), k), w.seen(s(x), k)) }
	b := c.Sub(e(x), one)
	y := first(b)
	mono := c.Implies(c.And(w.seen(s(y), b), c.Le(b, k)), w.seen(s(y), k))
	l.prove("offsets:next", "where a worker ends early another one has gone on", c.And(good(y), c.Lt(e(x), e(y))),
		c.Le(z, k), c.Lt(k, N), good(x), c.Le(e(x), k), ends(x), ends(y), history(x, b), leaves(y, b), mono)
	l.prove("offsets:reached", "the worker that reaches a data record leaves the right upper address", c.Eq(left(x, k), w.right(k)),
		c.Le(z, k), c.Lt(k, N), data(k), good(x), c.Lt(k, e(x)), ends(x), leaves(x, k))
	l.prove("offsets:first-worker", "the worker that starts at the first record is one of these", good(x),
		c.Le(z, k), c.Lt(k, N), c.Ne(w.right(k), zero), c.Eq(s(x), z), c.Implies(c.Ne(w.right(k), zero), w.seen(z, k)))
	l.prove("offsets:stays", "no worker takes the right upper address away", c.Eq(left(x, k), w.right(k)),
		data(k), visits(x, k), leaves(x, k), c.Eq(lock(x, k), w.right(k)))
	l.prove("offsets:unchanged", "a record that is no data record keeps its upper address", c.Eq(left(x, k), lock(x, k)), c.Not(data(k)), visits(x, k), leaves(x, k))
}
