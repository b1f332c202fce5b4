package main

// Hash-consed SMT terms with a small, semantics-preserving simplifier.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type SortKind int

const (
	KInt SortKind = iota
	KBool
	KStr
	KF64
	KIface
	KStruct
	KSeq
	KArr
	KUninterp
)

type Sort struct {
	Kind   SortKind
	Name   string
	Elem   *Sort // KSeq element, KArr value
	Key    *Sort // KArr key
	Fields []FieldS
}
type FieldS struct {
	Name string
	Sort *Sort
}

type Term struct {
	ID   int
	Op   string
	Args []*Term
	Sort *Sort
	I    *big.Int
	S    string
}

type FuncDecl struct {
	Name string
	Args []*Sort
	Res  *Sort
}

type Ctx struct {
	LitFold map[string]func(c *Ctx, s string) *Term // functions evaluated on literal text
	LitPred map[string]func(string) bool            // predicates evaluated on literals

	tab    map[string]*Term
	n      int
	sorts  map[string]*Sort
	funcs  map[string]*FuncDecl
	fresh  int
	T, F   *Term
	Int    *Sort
	Bool   *Sort
	Str    *Sort
	F64    *Sort
	Iface  *Sort
	NilI   *Term
	ErrI   *Term
	AxT    map[string][]*Term  // axioms (terms) included whenever the named function occurs
	axioms map[string][]string // axiom text keyed by trigger function name
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, sorts: map[string]*Sort{}, funcs: map[string]*FuncDecl{}, axioms: map[string][]string{}}
	c.Int = c.mkSort(KInt, "Int")
	c.Bool = c.mkSort(KBool, "Bool")
	c.Str = c.mkSort(KStr, "Str")
	c.F64 = c.mkSort(KF64, "F64")
	c.Iface = c.mkSort(KIface, "Iface")
	c.T = c.intern("bool", nil, c.Bool, nil, "true")
	c.F = c.intern("bool", nil, c.Bool, nil, "false")
	c.NilI = c.intern("nilI", nil, c.Iface, nil, "")
	c.ErrI = c.intern("errI", nil, c.Iface, nil, "")
	c.AxT = map[string][]*Term{}
	return c
}

func (c *Ctx) mkSort(k SortKind, name string) *Sort {
	if s, ok := c.sorts[name]; ok {
		return s
	}
	s := &Sort{Kind: k, Name: name}
	c.sorts[name] = s
	return s
}
func (c *Ctx) Uninterp(name string) *Sort { return c.mkSort(KUninterp, name) }
func (c *Ctx) SeqOf(e *Sort) *Sort {
	s := c.mkSort(KSeq, "Seq<"+e.Name+">")
	s.Elem = e
	return s
}
func (c *Ctx) ArrOf(k, v *Sort) *Sort {
	s := c.mkSort(KArr, "Arr<"+k.Name+","+v.Name+">")
	s.Key, s.Elem = k, v
	return s
}

// map value: presence and content, nil flag is the reference's business
func (c *Ctx) MapOf(k, v *Sort) *Sort {
	name := "Map<" + k.Name + "," + v.Name + ">"
	if s, ok := c.sorts[name]; ok {
		return s
	}
	s := &Sort{Kind: KStruct, Name: name}
	c.sorts[name] = s
	s.Fields = []FieldS{{"has", c.ArrOf(k, c.Bool)}, {"get", c.ArrOf(k, v)}}
	return s
}

func (c *Ctx) intern(op string, args []*Term, s *Sort, i *big.Int, str string) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s.Name)
	b.WriteByte('|')
	if i != nil {
		b.WriteString(i.String())
	}
	b.WriteByte('|')
	b.WriteString(str)
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.ID)
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{ID: c.n, Op: op, Args: args, Sort: s, I: i, S: str}
	c.tab[k] = t
	return t
}

func (c *Ctx) IntLit(i int64) *Term    { return c.intern("int", nil, c.Int, big.NewInt(i), "") }
func (c *Ctx) BigLit(i *big.Int) *Term { return c.intern("int", nil, c.Int, i, "") }
func (c *Ctx) StrLit(s string) *Term   { return c.intern("str", nil, c.Str, nil, s) }
func (c *Ctx) BoolLit(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}
func (c *Ctx) Var(name string, s *Sort) *Term { return c.intern("var", nil, s, nil, name) }
func (c *Ctx) Fresh(hint string, s *Sort) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", sanitize(hint), c.fresh), s)
}

func sanitize(s string) string {
	r := []rune(s)
	for i, ch := range r {
		if !(ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || ch == '_' || ch == '.' || ch == '!') {
			r[i] = '_'
		}
	}
	return string(r)
}

// App of an uninterpreted function, declared on first use.
func (c *Ctx) App(name string, res *Sort, args ...*Term) *Term {
	d, ok := c.funcs[name]
	if !ok {
		d = &FuncDecl{Name: name, Res: res}
		for _, a := range args {
			d.Args = append(d.Args, a.Sort)
		}
		c.funcs[name] = d
	} else {
		if len(d.Args) != len(args) || d.Res != res {
			panic("function " + name + " used with different signature")
		}
		for i, a := range args {
			if a.Sort != d.Args[i] {
				panic(fmt.Sprintf("function %s arg %d: %s vs %s", name, i, a.Sort.Name, d.Args[i].Name))
			}
		}
	}
	if f := c.LitFold[name]; f != nil && len(args) == 1 && args[0].Op == "str" {
		if r := f(c, args[0].S); r != nil {
			return r
		}
	}
	return c.intern("app:"+name, args, res, nil, "")
}

// Sentinel: the value of a package variable that is set once, by errors.New
func (c *Ctx) Sentinel(name string) *Term { return c.intern("sentI", nil, c.Iface, nil, name) }

func (t *Term) isLit() bool {
	return t.Op == "int" || t.Op == "bool" || t.Op == "str" || t.Op == "nilI" || t.Op == "errI" || t.Op == "sentI" || t.Op == "mapid" || t.Op == "chanid" || t.Op == "iptr" || t.Op == "f64lit" ||
		(t.Op == "seq.empty")
}
func (t *Term) isTrue() bool  { return t.Op == "bool" && t.S == "true" }
func (t *Term) isFalse() bool { return t.Op == "bool" && t.S == "false" }

func (c *Ctx) Not(a *Term) *Term {
	switch {
	case a.isTrue():
		return c.F
	case a.isFalse():
		return c.T
	case a.Op == "not":
		return a.Args[0]
	}
	return c.intern("not", []*Term{a}, c.Bool, nil, "")
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.Op == "and" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if a.isFalse() {
			return false
		}
		if a.isTrue() || seen[a] {
			return true
		}
		if seen[c.Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.F
		}
	}
	if len(out) == 0 {
		return c.T
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.intern("and", out, c.Bool, nil, "")
}
func (c *Ctx) Or(as ...*Term) *Term {
	ns := make([]*Term, len(as))
	for i, a := range as {
		ns[i] = c.Not(a)
	}
	r := c.And(ns...)
	if r.Op == "and" {
		out := make([]*Term, len(r.Args))
		for i, a := range r.Args {
			out[i] = c.Not(a)
		}
		return c.intern("or", out, c.Bool, nil, "")
	}
	return c.Not(r)
}
func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(b, x, y *Term) *Term {
	if b.isTrue() || x == y {
		return x
	}
	if b.isFalse() {
		return y
	}
	if x.Sort != y.Sort {
		panic("ite sorts " + x.Sort.Name + " vs " + y.Sort.Name)
	}
	if x.Sort == c.Bool {
		if x.isTrue() && y.isFalse() {
			return b
		}
		if x.isFalse() && y.isTrue() {
			return c.Not(b)
		}
		if x.isTrue() {
			return c.Or(b, y)
		}
		if x.isFalse() {
			return c.And(c.Not(b), y)
		}
		if y.isTrue() {
			return c.Or(c.Not(b), x)
		}
		if y.isFalse() {
			return c.And(b, x)
		}
	}
	if b.Op == "not" {
		return c.Ite(b.Args[0], y, x)
	}
	return c.intern("ite", []*Term{b, x, y}, x.Sort, nil, "")
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.Sort != b.Sort {
		panic("eq sorts " + a.Sort.Name + " vs " + b.Sort.Name + " : " + a.String() + " / " + b.String())
	}
	if a.isLit() && b.isLit() && (a.Op == b.Op || a.Sort == c.Iface || a.Sort == c.Int) {
		return c.F
	}
	if a.Sort == c.Iface && (a.isLit() || b.isLit()) && (strings.HasPrefix(a.Op, "app:box:") || strings.HasPrefix(b.Op, "app:box:")) {
		return c.F
	}
	if a.Sort == c.Bool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if a.Op == "mk" && b.Op == "mk" {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, c.Eq(a.Args[i], b.Args[i]))
		}
		return c.And(cs...)
	}
	if a.Op == "ite" && b.isLit() {
		if e1, e2 := c.Eq(a.Args[1], b), c.Eq(a.Args[2], b); e1.isLit() || e2.isLit() {
			return c.Ite(a.Args[0], e1, e2)
		}
	}
	if b.Op == "ite" && a.isLit() {
		return c.Eq(b, a)
	}
	if a.isLit() || (!b.isLit() && a.ID > b.ID) {
		a, b = b, a
	}
	if a.Sort == c.Int {
		// compare linear normal forms
		d := c.Sub(a, b)
		if d.Op == "int" {
			return c.BoolLit(d.I.Sign() == 0)
		}
	}
	return c.intern("=", []*Term{a, b}, c.Bool, nil, "")
}
func (c *Ctx) Ne(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

// linear arithmetic normal form: sum of coeff*atom + const
type lin struct {
	k  *big.Int
	cs map[*Term]*big.Int
}

func (c *Ctx) toLin(t *Term) lin {
	switch t.Op {
	case "int":
		return lin{new(big.Int).Set(t.I), map[*Term]*big.Int{}}
	case "+":
		r := lin{new(big.Int), map[*Term]*big.Int{}}
		for _, a := range t.Args {
			l := c.toLin(a)
			r.add(l, big.NewInt(1))
		}
		return r
	case "*":
		if t.Args[0].Op == "int" {
			l := c.toLin(t.Args[1])
			r := lin{new(big.Int), map[*Term]*big.Int{}}
			r.add(l, t.Args[0].I)
			return r
		}
	}
	return lin{new(big.Int), map[*Term]*big.Int{t: big.NewInt(1)}}
}
func (l *lin) add(o lin, f *big.Int) {
	l.k.Add(l.k, new(big.Int).Mul(o.k, f))
	for t, x := range o.cs {
		v := new(big.Int).Mul(x, f)
		if w, ok := l.cs[t]; ok {
			v.Add(v, w)
		}
		if v.Sign() == 0 {
			delete(l.cs, t)
		} else {
			l.cs[t] = v
		}
	}
}
func (c *Ctx) fromLin(l lin) *Term {
	var ts []*Term
	for t := range l.cs {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	var args []*Term
	for _, t := range ts {
		k := l.cs[t]
		if k.Cmp(big.NewInt(1)) == 0 {
			args = append(args, t)
		} else {
			args = append(args, c.intern("*", []*Term{c.BigLit(k), t}, c.Int, nil, ""))
		}
	}
	if l.k.Sign() != 0 || len(args) == 0 {
		args = append(args, c.BigLit(l.k))
	}
	if len(args) == 1 {
		return args[0]
	}
	return c.intern("+", args, c.Int, nil, "")
}
func (c *Ctx) Add(as ...*Term) *Term {
	r := lin{new(big.Int), map[*Term]*big.Int{}}
	for _, a := range as {
		r.add(c.toLin(a), big.NewInt(1))
	}
	return c.fromLin(r)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	r := lin{new(big.Int), map[*Term]*big.Int{}}
	r.add(c.toLin(a), big.NewInt(1))
	r.add(c.toLin(b), big.NewInt(-1))
	return c.fromLin(r)
}
func (c *Ctx) MulK(k int64, a *Term) *Term { return c.Mul(c.IntLit(k), a) }
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.Op == "int" {
		r := lin{new(big.Int), map[*Term]*big.Int{}}
		r.add(c.toLin(b), a.I)
		return c.fromLin(r)
	}
	if b.Op == "int" {
		return c.Mul(b, a)
	}
	la, lb := c.toLin(a), c.toLin(b)
	if (len(la.cs)+len(lb.cs)) > 2 || la.k.Sign() != 0 || lb.k.Sign() != 0 {
		// distribute
		r := lin{new(big.Int), map[*Term]*big.Int{}}
		r.k.Mul(la.k, lb.k)
		for t, x := range la.cs {
			r.add(lin{new(big.Int), map[*Term]*big.Int{t: new(big.Int).Mul(x, lb.k)}}, big.NewInt(1))
		}
		for t, x := range lb.cs {
			r.add(lin{new(big.Int), map[*Term]*big.Int{t: new(big.Int).Mul(x, la.k)}}, big.NewInt(1))
		}
		for t, x := range la.cs {
			for u, y := range lb.cs {
				r.add(lin{new(big.Int), map[*Term]*big.Int{c.mulAtom(t, u): new(big.Int).Mul(x, y)}}, big.NewInt(1))
			}
		}
		for t, x := range r.cs {
			if x.Sign() == 0 {
				delete(r.cs, t)
			}
		}
		return c.fromLin(r)
	}
	return c.mulAtom(a, b)
}
func (c *Ctx) mulAtom(a, b *Term) *Term {
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.intern("*", []*Term{a, b}, c.Int, nil, "")
}
func (c *Ctx) Div(a, b *Term) *Term { // Euclidean / floor for positive divisor
	if a.Op == "int" && b.Op == "int" && b.I.Sign() > 0 && a.I.Sign() >= 0 {
		return c.BigLit(new(big.Int).Div(a.I, b.I))
	}
	if b.Op == "int" && b.I.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return c.intern("div", []*Term{a, b}, c.Int, nil, "")
}

// DivExact divides a linear term by k if all its coefficients are multiples of k
func (c *Ctx) DivExact(a *Term, k int64) *Term {
	b := big.NewInt(k)
	l := c.toLin(a)
	r := lin{new(big.Int), map[*Term]*big.Int{}}
	m := new(big.Int)
	if r.k.DivMod(l.k, b, m); m.Sign() != 0 {
		return nil
	}
	for t, x := range l.cs {
		q := new(big.Int)
		if q.DivMod(x, b, m); m.Sign() != 0 {
			return nil
		}
		r.cs[t] = q
	}
	return c.fromLin(r)
}
func (c *Ctx) Mod(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.I.Sign() > 0 {
		return c.BigLit(new(big.Int).Mod(a.I, b.I))
	}
	if b.Op == "int" && b.I.Cmp(big.NewInt(1)) == 0 {
		return c.IntLit(0)
	}
	if a.Op == "mod" && a.Args[1] == b {
		return a
	}
	if b.Op == "int" && a.Op == "+" {
		// (x mod m + y) mod m = (x+y) mod m
		r := lin{new(big.Int), map[*Term]*big.Int{}}
		ch := false
		l := c.toLin(a)
		r.k.Set(l.k)
		if l.k.CmpAbs(b.I) >= 0 || l.k.Sign() < 0 {
			nk := new(big.Int).Mod(l.k, b.I)
			if nk.Cmp(l.k) != 0 {
				r.k.Set(nk)
				ch = true
			}
		}
		for t, x := range l.cs {
			if t.Op == "mod" && t.Args[1] == b {
				r.add(c.toLin(t.Args[0]), x)
				ch = true
			} else {
				r.add(lin{new(big.Int), map[*Term]*big.Int{t: x}}, big.NewInt(1))
			}
		}
		if ch {
			return c.Mod(c.fromLin(r), b)
		}
	}
	return c.intern("mod", []*Term{a, b}, c.Int, nil, "")
}
func (c *Ctx) Le(a, b *Term) *Term {
	d := c.Sub(b, a)
	if d.Op == "int" {
		return c.BoolLit(d.I.Sign() >= 0)
	}
	if d.Op == "ite" && d.Args[1].Op == "int" && d.Args[2].Op == "int" {
		return c.Ite(d.Args[0], c.BoolLit(d.Args[1].I.Sign() >= 0), c.BoolLit(d.Args[2].I.Sign() >= 0))
	}
	return c.intern("<=", []*Term{c.IntLit(0), d}, c.Bool, nil, "")
}
func (c *Ctx) Lt(a, b *Term) *Term { return c.Not(c.Le(b, a)) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.Le(b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

// structs
func (c *Ctx) Mk(s *Sort, args []*Term) *Term {
	if len(args) != len(s.Fields) {
		panic("mk arity " + s.Name)
	}
	for i, a := range args {
		if a.Sort != s.Fields[i].Sort {
			panic(fmt.Sprintf("mk %s field %s: %s vs %s", s.Name, s.Fields[i].Name, a.Sort.Name, s.Fields[i].Sort.Name))
		}
	}
	// eta: mk(fld0(x),...,fldn(x)) = x
	if len(args) > 0 && args[0].Op == "fld" && args[0].Args[0].Sort == s {
		x := args[0].Args[0]
		ok := true
		for i, a := range args {
			if a.Op != "fld" || a.Args[0] != x || a.S != s.Fields[i].Name {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return c.intern("mk", append([]*Term(nil), args...), s, nil, "")
}
func (c *Ctx) FieldIdx(s *Sort, name string) int {
	for i, f := range s.Fields {
		if f.Name == name {
			return i
		}
	}
	return -1
}
func (c *Ctx) Fld(t *Term, i int) *Term {
	if t.Op == "mk" {
		return t.Args[i]
	}
	if t.Op == "ite" {
		return c.Ite(t.Args[0], c.Fld(t.Args[1], i), c.Fld(t.Args[2], i))
	}
	return c.intern("fld", []*Term{t}, t.Sort.Fields[i].Sort, nil, t.Sort.Fields[i].Name)
}
func (c *Ctx) FldN(t *Term, name string) *Term {
	i := c.FieldIdx(t.Sort, name)
	if i < 0 {
		panic("no field " + name + " in " + t.Sort.Name)
	}
	return c.Fld(t, i)
}
func (c *Ctx) Upd(t *Term, i int, v *Term) *Term {
	args := make([]*Term, len(t.Sort.Fields))
	for j := range args {
		if j == i {
			args[j] = v
		} else {
			args[j] = c.Fld(t, j)
		}
	}
	return c.Mk(t.Sort, args)
}
func (c *Ctx) UpdN(t *Term, name string, v *Term) *Term {
	i := c.FieldIdx(t.Sort, name)
	if i < 0 {
		panic("no field " + name + " in " + t.Sort.Name)
	}
	return c.Upd(t, i, v)
}

// arrays
func (c *Ctx) Select(a, k *Term) *Term {
	for a.Op == "store" {
		e := c.Eq(a.Args[1], k)
		if e.isTrue() {
			return a.Args[2]
		}
		if !e.isFalse() {
			break
		}
		a = a.Args[0]
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	if a.Op == "gstore" { // store under a condition
		return c.Ite(c.And(a.Args[3], c.Eq(a.Args[1], k)), a.Args[2], c.Select(a.Args[0], k))
	}
	if a.Op == "ite" {
		return c.Ite(a.Args[0], c.Select(a.Args[1], k), c.Select(a.Args[2], k))
	}
	return c.intern("select", []*Term{a, k}, a.Sort.Elem, nil, "")
}
func (c *Ctx) Store(a, k, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == k {
		a = a.Args[0]
	}
	return c.intern("store", []*Term{a, k, v}, a.Sort, nil, "")
}
func (c *Ctx) ConstArr(s *Sort, v *Term) *Term {
	return c.intern("constarr", []*Term{v}, s, nil, "")
}

// sequences
func (c *Ctx) Empty(s *Sort) *Term { return c.intern("seq.empty", nil, s, nil, "") }
func (c *Ctx) Unit(v *Term) *Term {
	return c.intern("seq.unit", []*Term{v}, c.SeqOf(v.Sort), nil, "")
}
func (c *Ctx) SeqLit(s *Sort, vs []*Term) *Term {
	if len(vs) == 0 {
		return c.Empty(s)
	}
	if len(vs) == 1 {
		return c.Unit(vs[0])
	}
	return c.intern("seq.lit", append([]*Term(nil), vs...), s, nil, "")
}
func (c *Ctx) Len(s *Term) *Term {
	switch s.Op {
	case "seq.empty":
		return c.IntLit(0)
	case "seq.unit":
		return c.IntLit(1)
	case "seq.lit":
		return c.IntLit(int64(len(s.Args)))
	case "seq.cat":
		return c.Add(c.Len(s.Args[0]), c.Len(s.Args[1]))
	case "seq.upd":
		return c.Len(s.Args[0])
	case "seq.zero":
		return s.Args[0]
	case "ite":
		return c.Ite(s.Args[0], c.Len(s.Args[1]), c.Len(s.Args[2]))
	}
	return c.intern("seq.len", []*Term{s}, c.Int, nil, "")
}
func (c *Ctx) At(s, i *Term) *Term {
	switch s.Op {
	case "seq.unit":
		if i.Op == "int" && i.I.Sign() == 0 {
			return s.Args[0]
		}
	case "seq.lit":
		if i.Op == "int" && i.I.IsInt64() && i.I.Int64() >= 0 && i.I.Int64() < int64(len(s.Args)) {
			return s.Args[i.I.Int64()]
		}
	case "seq.cat":
		d := c.Sub(i, c.Len(s.Args[0]))
		if d.Op == "int" && d.I.Sign() >= 0 {
			return c.At(s.Args[1], d)
		}
		if d.Op == "int" && d.I.Sign() < 0 && i.Op == "int" && i.I.Sign() >= 0 {
			return c.At(s.Args[0], i)
		}
	case "seq.upd":
		e := c.Eq(s.Args[1], i)
		if e.isTrue() {
			return s.Args[2]
		}
		if e.isFalse() {
			return c.At(s.Args[0], i)
		}
	case "ite":
		return c.Ite(s.Args[0], c.At(s.Args[1], i), c.At(s.Args[2], i))
	}
	return c.intern("seq.at", []*Term{s, i}, s.Sort.Elem, nil, "")
}
func (c *Ctx) Cat(a, b *Term) *Term {
	if a.Op == "seq.empty" {
		return b
	}
	if b.Op == "seq.empty" {
		return a
	}
	if b.Op == "seq.lit" {
		for _, v := range b.Args {
			a = c.Cat(a, c.Unit(v))
		}
		return a
	}
	if b.Op == "seq.cat" { // left-assoc normal form
		return c.Cat(c.Cat(a, b.Args[0]), b.Args[1])
	}
	return c.intern("seq.cat", []*Term{a, b}, a.Sort, nil, "")
}
func (c *Ctx) SeqSub(s, i, j *Term) *Term {
	if c.Eq(i, j).isTrue() {
		return c.Empty(s.Sort)
	}
	if i.Op == "int" && i.I.Sign() == 0 && c.Eq(j, c.Len(s)).isTrue() {
		return s
	}
	if s.Op == "seq.lit" && i.Op == "int" && j.Op == "int" {
		a, b := i.I.Int64(), j.I.Int64()
		if 0 <= a && a <= b && b <= int64(len(s.Args)) {
			return c.SeqLit(s.Sort, s.Args[a:b])
		}
	}
	if s.Op == "seq.sub" {
		return c.SeqSub(s.Args[0], c.Add(s.Args[1], i), c.Add(s.Args[1], j))
	}
	return c.intern("seq.sub", []*Term{s, i, j}, s.Sort, nil, "")
}
func (c *Ctx) SeqUpd(s, i, v *Term) *Term {
	if s.Op == "seq.lit" && i.Op == "int" && i.I.Int64() >= 0 && i.I.Int64() < int64(len(s.Args)) {
		a := append([]*Term(nil), s.Args...)
		a[i.I.Int64()] = v
		return c.SeqLit(s.Sort, a)
	}
	if s.Op == "seq.unit" && i.Op == "int" && i.I.Sign() == 0 {
		return c.Unit(v)
	}
	return c.intern("seq.upd", []*Term{s, i, v}, s.Sort, nil, "")
}
func (c *Ctx) SeqZero(s *Sort, n, zero *Term) *Term {
	if n.Op == "int" && n.I.IsInt64() && n.I.Int64() <= 64 {
		vs := make([]*Term, n.I.Int64())
		for i := range vs {
			vs[i] = zero
		}
		return c.SeqLit(s, vs)
	}
	return c.intern("seq.zero", []*Term{n, zero}, s, nil, "")
}

// strings
func (c *Ctx) SLen(s *Term) *Term {
	if s.Op == "str" {
		return c.IntLit(int64(len(s.S)))
	}
	return c.intern("slen", []*Term{s}, c.Int, nil, "")
}
func (c *Ctx) SAt(s, i *Term) *Term {
	if s.Op == "str" && i.Op == "int" && i.I.IsInt64() && i.I.Int64() >= 0 && i.I.Int64() < int64(len(s.S)) {
		return c.IntLit(int64(s.S[i.I.Int64()]))
	}
	if s.Op == "ssub" {
		return c.SAt(s.Args[0], c.Add(s.Args[1], i))
	}
	return c.intern("sat", []*Term{s, i}, c.Int, nil, "")
}
func (c *Ctx) SSub(s, i, j *Term) *Term {
	if s.Op == "str" && i.Op == "int" && j.Op == "int" {
		a, b := i.I.Int64(), j.I.Int64()
		if 0 <= a && a <= b && b <= int64(len(s.S)) {
			return c.StrLit(s.S[a:b])
		}
	}
	if i.Op == "int" && i.I.Sign() == 0 && c.Eq(j, c.SLen(s)).isTrue() {
		return s
	}
	if s.Op == "ssub" {
		return c.SSub(s.Args[0], c.Add(s.Args[1], i), c.Add(s.Args[1], j))
	}
	return c.intern("ssub", []*Term{s, i, j}, c.Str, nil, "")
}
func (c *Ctx) SCat(a, b *Term) *Term {
	if a.Op == "str" && b.Op == "str" {
		return c.StrLit(a.S + b.S)
	}
	if a.Op == "str" && a.S == "" {
		return b
	}
	if b.Op == "str" && b.S == "" {
		return a
	}
	if b.Op == "scat" {
		return c.SCat(c.SCat(a, b.Args[0]), b.Args[1])
	}
	if a.Op == "scat" && a.Args[1].Op == "str" && b.Op == "str" {
		return c.SCat(a.Args[0], c.StrLit(a.Args[1].S+b.S))
	}
	return c.intern("scat", []*Term{a, b}, c.Str, nil, "")
}

// quantifier: bound variables are ordinary vars with unique names
func (c *Ctx) Forall(vars []*Term, body *Term, pats ...*Term) *Term {
	if body.isTrue() {
		return c.T
	}
	args := append([]*Term{body}, vars...)
	args = append(args, pats...)
	return c.intern("forall", args, c.Bool, big.NewInt(int64(len(vars))), "")
}

// rebuild applies simplifying constructors
func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "not":
		return c.Not(a[0])
	case "and":
		return c.And(a...)
	case "or":
		return c.Or(a...)
	case "ite":
		return c.Ite(a[0], a[1], a[2])
	case "=":
		return c.Eq(a[0], a[1])
	case "+":
		return c.Add(a...)
	case "*":
		return c.Mul(a[0], a[1])
	case "div":
		return c.Div(a[0], a[1])
	case "mod":
		return c.Mod(a[0], a[1])
	case "<=":
		return c.Le(a[0], a[1])
	case "mk":
		return c.Mk(t.Sort, a)
	case "fld":
		return c.FldN(a[0], t.S)
	case "select":
		return c.Select(a[0], a[1])
	case "store":
		return c.Store(a[0], a[1], a[2])
	case "seq.len":
		return c.Len(a[0])
	case "seq.at":
		return c.At(a[0], a[1])
	case "seq.cat":
		return c.Cat(a[0], a[1])
	case "seq.sub":
		return c.SeqSub(a[0], a[1], a[2])
	case "seq.upd":
		return c.SeqUpd(a[0], a[1], a[2])
	case "seq.unit":
		return c.Unit(a[0])
	case "slen":
		return c.SLen(a[0])
	case "sat":
		return c.SAt(a[0], a[1])
	case "ssub":
		return c.SSub(a[0], a[1], a[2])
	case "scat":
		return c.SCat(a[0], a[1])
	}
	if len(c.LitFold) > 0 && strings.HasPrefix(t.Op, "app:") && c.LitFold[t.Op[4:]] != nil {
		return c.App(t.Op[4:], t.Sort, a...)
	}
	return c.intern(t.Op, a, t.Sort, t.I, t.S)
}

func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		a := make([]*Term, len(t.Args))
		for i, x := range t.Args {
			a[i] = rec(x)
			if a[i] != x {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, a)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (t *Term) String() string {
	var b strings.Builder
	t.str(&b, 0)
	return b.String()
}
func (t *Term) str(b *strings.Builder, d int) {
	if d > 12 {
		b.WriteString("…")
		return
	}
	switch t.Op {
	case "int":
		b.WriteString(t.I.String())
	case "str":
		fmt.Fprintf(b, "%q", t.S)
	case "bool", "var":
		b.WriteString(t.S)
	default:
		b.WriteString("(" + strings.TrimPrefix(t.Op, "app:"))
		if t.S != "" {
			b.WriteString("." + t.S)
		}
		if t.Op == "mk" && len(t.Args) > 8 {
			b.WriteString(" " + t.Sort.Name + "…)")
			return
		}
		for _, a := range t.Args {
			b.WriteByte(' ')
			a.str(b, d+1)
		}
		b.WriteByte(')')
	}
}
