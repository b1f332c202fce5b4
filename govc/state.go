package main

// Symbolic state: path condition, known facts, memory.

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type PE struct {
	F   int   // field index, -1 if an element
	Idx *Term // element index
}
type Addr struct {
	Kind byte // 'o' local object, 'h' heap ref, 'g' global, 'v' read-only value
	Obj  int
	Ref  *Term
	HT   *Sort // heap sort for 'h'
	G    *ssa.Global
	V    *Term
	Path []PE
}
type SliceRef struct {
	Base   *Addr // address of the array (Seq sort)
	Lo, Hi *Term
}
type Closure struct {
	Fn   *ssa.Function
	Bind []Val
}
type Tuple []Val
type Opaque struct{ What string }

// DynV: a value in an interface with methods, its dynamic type known
type DynV struct {
	Type types.Type
	V    Val
}
type ChanV struct{ ID int }

func (a *Addr) ext(p PE) *Addr {
	b := *a
	b.Path = append(append([]PE(nil), a.Path...), p)
	return &b
}

type Obj struct {
	ID   int
	Type types.Type
	Hint string
	Site ssa.Value
}

type ChanState struct {
	Elem   *Sort
	Sent   *Term // everything sent so far, in order
	Rcvd   *Term // number received
	Closed bool
	Name   string
	Cap    *Term // nil: not recorded
}

type State struct {
	ex    *Ex
	pc    []*Term
	known map[*Term]bool
	bind  map[*Term]*Term
	lins  []lin

	objs   map[int]*Term // object contents
	ometa  map[int]*Obj
	frozen map[int]bool
	oref   map[int]*Term // heapified objects
	heaps  map[*Sort]*Term
	globs  map[*ssa.Global]*Term
	maps   map[int]*Term // map contents by literal id
	chans  map[int]*ChanState
	ghost  map[string]Val
	top    *Term
	trace  []string
	dead   bool
	events []string
}

func (s *State) clone() *State {
	n := *s
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.lins = s.lins[:len(s.lins):len(s.lins)]
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	n.events = s.events[:len(s.events):len(s.events)]
	n.known = make(map[*Term]bool, len(s.known)+8)
	for k, v := range s.known {
		n.known[k] = v
	}
	n.bind = make(map[*Term]*Term, len(s.bind)+8)
	for k, v := range s.bind {
		n.bind[k] = v
	}
	n.objs = make(map[int]*Term, len(s.objs)+4)
	for k, v := range s.objs {
		n.objs[k] = v
	}
	n.ometa = make(map[int]*Obj, len(s.ometa)+4)
	for k, v := range s.ometa {
		n.ometa[k] = v
	}
	n.frozen = make(map[int]bool, len(s.frozen))
	for k, v := range s.frozen {
		n.frozen[k] = v
	}
	n.oref = make(map[int]*Term, len(s.oref))
	for k, v := range s.oref {
		n.oref[k] = v
	}
	n.heaps = make(map[*Sort]*Term, len(s.heaps))
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	n.globs = make(map[*ssa.Global]*Term, len(s.globs))
	for k, v := range s.globs {
		n.globs[k] = v
	}
	n.maps = make(map[int]*Term, len(s.maps))
	for k, v := range s.maps {
		n.maps[k] = v
	}
	n.chans = make(map[int]*ChanState, len(s.chans))
	for k, v := range s.chans {
		cp := *v
		n.chans[k] = &cp
	}
	n.ghost = make(map[string]Val, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return &n
}

func (ex *Ex) newState() *State {
	s := &State{ex: ex, known: map[*Term]bool{}, bind: map[*Term]*Term{}, objs: map[int]*Term{}, ometa: map[int]*Obj{}, frozen: map[int]bool{}, oref: map[int]*Term{}, heaps: map[*Sort]*Term{}, globs: map[*ssa.Global]*Term{}, maps: map[int]*Term{}, chans: map[int]*ChanState{}, ghost: map[string]Val{}}
	s.top = ex.c.Var("top0", ex.c.Int)
	s.assume(ex.c.Le(ex.c.IntLit(1), s.top))
	return s
}

// ---------------------------------------------------------------- facts

func (s *State) resolve(t *Term) *Term {
	for i := 0; i < 8; i++ {
		if b, ok := s.bind[t]; ok && b != t {
			t = b
			continue
		}
		if t.Op == "ite" {
			switch s.decide(t.Args[0]) {
			case 1:
				t = t.Args[1]
				continue
			case -1:
				t = t.Args[2]
				continue
			}
		}
		break
	}
	return t
}

// decide: 1 true, -1 false, 0 unknown
func (s *State) decide(t *Term) int {
	c := s.ex.c
	switch t.Op {
	case "bool":
		if t.isTrue() {
			return 1
		}
		return -1
	case "not":
		return -s.decide(t.Args[0])
	}
	if v, ok := s.known[t]; ok {
		if v {
			return 1
		}
		return -1
	}
	switch t.Op {
	case "and":
		all := true
		for _, a := range t.Args {
			switch s.decide(a) {
			case -1:
				return -1
			case 0:
				all = false
			}
		}
		if all {
			return 1
		}
	case "or":
		all := true
		for _, a := range t.Args {
			switch s.decide(a) {
			case 1:
				return 1
			case 0:
				all = false
			}
		}
		if all {
			return -1
		}
	case "=":
		a, b := s.resolve(t.Args[0]), s.resolve(t.Args[1])
		if a.Sort.Kind == KBool {
			da, db := s.decide(a), s.decide(b)
			if da != 0 && db != 0 {
				if da == db {
					return 1
				}
				return -1
			}
		}
		e := c.Eq(a, b)
		if e.isTrue() {
			return 1
		}
		if e.isFalse() {
			return -1
		}
		if e != t {
			if v, ok := s.known[e]; ok {
				if v {
					return 1
				}
				return -1
			}
		}
		if a.Sort == c.Int {
			d := c.toLin(c.Sub(a, b))
			if s.linGe(d, -1) { // d-1 >= 0
				return -1
			}
			n := lin{new(big.Int), map[*Term]*big.Int{}}
			n.add(d, big.NewInt(-1))
			if s.linGe(n, -1) {
				return -1
			}
			if s.linGe(d, 0) && s.linGe(n, 0) {
				return 1
			}
		}
	case "<=":
		d := t.Args[1]
		if r := s.normLin(d); r != d {
			e := c.Le(c.IntLit(0), r)
			if e.isTrue() {
				return 1
			}
			if e.isFalse() {
				return -1
			}
			d = r
		}
		l := c.toLin(d)
		if s.linGe(l, 0) {
			return 1
		}
		n := lin{big.NewInt(-1), map[*Term]*big.Int{}}
		n.add(l, big.NewInt(-1))
		if s.linGe(n, 0) {
			return -1
		}
	case "ite":
		switch s.decide(t.Args[0]) {
		case 1:
			return s.decide(t.Args[1])
		case -1:
			return s.decide(t.Args[2])
		}
		a, b := s.decide(t.Args[1]), s.decide(t.Args[2])
		if a == b {
			return a
		}
	}
	if b, ok := s.bind[t]; ok && b != t {
		return s.decide(b)
	}
	return 0
}

// replace bound atoms in a linear term
func (s *State) normLin(t *Term) *Term {
	c := s.ex.c
	l := c.toLin(t)
	ch := false
	r := lin{new(big.Int).Set(l.k), map[*Term]*big.Int{}}
	for a, k := range l.cs {
		n := s.resolve(a)
		if n != a {
			ch = true
		}
		r.add(c.toLin(n), k)
	}
	if !ch {
		return t
	}
	return c.fromLin(r)
}

// l + off >= 0 derivable: from one known fact, or from the atoms' intrinsic bounds
func (s *State) linGe(l lin, off int64) bool {
	k := new(big.Int).Add(l.k, big.NewInt(off))
	// intrinsic lower bounds
	ok := true
	lo := new(big.Int).Set(k)
	for t, x := range l.cs {
		a, b, has := s.ex.rangeOf(t)
		if !has {
			ok = false
			break
		}
		if x.Sign() > 0 {
			if a == nil {
				ok = false
				break
			}
			lo.Add(lo, new(big.Int).Mul(x, a))
		} else {
			if b == nil {
				ok = false
				break
			}
			lo.Add(lo, new(big.Int).Mul(x, b))
		}
	}
	if ok && lo.Sign() >= 0 {
		return true
	}
	for i := len(s.lins) - 1; i >= 0; i-- {
		f := s.lins[i]
		if len(f.cs) != len(l.cs) {
			continue
		}
		same := true
		for t, x := range l.cs {
			if y, ok := f.cs[t]; !ok || y.Cmp(x) != 0 {
				same = false
				break
			}
		}
		if same && k.Cmp(f.k) >= 0 {
			return true
		}
	}
	return false
}

// assume adds a fact; returns false when it contradicts known facts
func (s *State) assume(t *Term) bool {
	if s.dead {
		return false
	}
	c := s.ex.c
	switch s.decide(t) {
	case 1:
		return true
	case -1:
		s.dead = true
		return false
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			if !s.assume(a) {
				return false
			}
		}
		return true
	}
	if t.Op == "not" && t.Args[0].Op == "or" {
		for _, a := range t.Args[0].Args {
			if !s.assume(c.Not(a)) {
				return false
			}
		}
		return true
	}
	if t.Op == "or" {
		// unit propagation
		var rest []*Term
		for _, a := range t.Args {
			if s.decide(a) != -1 {
				rest = append(rest, a)
			}
		}
		if len(rest) == 1 {
			return s.assume(rest[0])
		}
	}
	s.pc = append(s.pc, t)
	at, v := t, true
	if t.Op == "not" {
		at, v = t.Args[0], false
	}
	s.known[at] = v
	switch at.Op {
	case "=":
		a, b := at.Args[0], at.Args[1]
		if v {
			if b.Op == "str" || a.Op == "str" {
				x, l := a, b
				if a.Op == "str" {
					x, l = b, a
				}
				for name, pr := range c.LitPred {
					if v, ok := s.known[c.App(name, c.Bool, x)]; ok && v != pr(l.S) {
						s.dead = true
						return false
					}
				}
			}
			if b.isLit() {
				s.bind[a] = b
				if r := s.resolveOnce(a); r != a && !r.isLit() {
					s.bind[r] = b
				}
			} else if a.isLit() {
				s.bind[b] = a
			} else if a.Sort.Kind != KBool {
				if a.Op == "var" && !occurs(a, b) {
					s.bind[a] = b
				} else if b.Op == "var" && !occurs(b, a) {
					s.bind[b] = a
				}
			}
			if a.Sort == c.Int {
				d := c.toLin(c.Sub(a, b))
				n := lin{new(big.Int), map[*Term]*big.Int{}}
				n.add(d, big.NewInt(-1))
				s.lins = append(s.lins, d, n)
			}
		} else if a.Sort.Kind == KInt {
			// x != k together with x >= k gives x >= k+1
			d := c.toLin(c.Sub(a, b))
			n := lin{new(big.Int), map[*Term]*big.Int{}}
			n.add(d, big.NewInt(-1))
			if s.linGe(d, 0) {
				d.k.Sub(d.k, big.NewInt(1))
				s.lins = append(s.lins, d)
			} else if s.linGe(n, 0) {
				n.k.Sub(n.k, big.NewInt(1))
				s.lins = append(s.lins, n)
			}
		}
	case "<=":
		l := c.toLin(at.Args[1])
		if !v {
			n := lin{big.NewInt(-1), map[*Term]*big.Int{}}
			n.add(l, big.NewInt(-1))
			l = n
		}
		s.lins = append(s.lins, l)
		if r := s.normLin(at.Args[1]); r != at.Args[1] {
			l := c.toLin(r)
			if !v {
				n := lin{big.NewInt(-1), map[*Term]*big.Int{}}
				n.add(l, big.NewInt(-1))
				l = n
			}
			s.lins = append(s.lins, l)
		}
	}
	return true
}
func (s *State) resolveOnce(t *Term) *Term { return t }

func occurs(v, t *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// norm rebuilds a term using known facts
func (s *State) norm(t *Term) *Term {
	c := s.ex.c
	memo := map[*Term]*Term{}
	var rec func(t *Term, d int) *Term
	rec = func(t *Term, d int) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		if d > 60 {
			return t
		}
		r := t
		if t.Sort == c.Bool && t.Op != "bool" && t.Op != "forall" {
			switch s.decide(t) {
			case 1:
				memo[t] = c.T
				return c.T
			case -1:
				memo[t] = c.F
				return c.F
			}
		}
		if b, ok := s.bind[t]; ok && b != t {
			memo[t] = t
			r = rec(b, d+1)
			memo[t] = r
			return r
		}
		if t.Op == "ite" {
			switch s.decide(t.Args[0]) {
			case 1:
				r = rec(t.Args[1], d+1)
				memo[t] = r
				return r
			case -1:
				r = rec(t.Args[2], d+1)
				memo[t] = r
				return r
			}
		}
		if len(t.Args) > 0 && t.Op != "forall" {
			ch := false
			a := make([]*Term, len(t.Args))
			for i, x := range t.Args {
				a[i] = rec(x, d+1)
				if a[i] != x {
					ch = true
				}
			}
			if ch {
				r = c.rebuild(t, a)
				if b, ok := s.bind[r]; ok && b.isLit() {
					r = b
				}
			}
		}
		memo[t] = r
		return r
	}
	return rec(t, 0)
}

// ---------------------------------------------------------------- memory

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func (s *State) root(a *Addr) *Term {
	switch a.Kind {
	case 'o':
		if r, ok := s.oref[a.Obj]; ok {
			return s.ex.c.Select(s.heap(s.ometaSort(a.Obj)), r)
		}
		t, ok := s.objs[a.Obj]
		if !ok {
			unsup("object %d not in state", a.Obj)
		}
		return t
	case 'h':
		return s.ex.c.Select(s.heap(a.HT), a.Ref)
	case 'g':
		return s.global(a.G)
	case 'v':
		return a.V
	}
	panic("root")
}
func (s *State) ometaSort(id int) *Sort { return s.ex.sortOf(s.ometa[id].Type) }

func (s *State) heap(st *Sort) *Term {
	h, ok := s.heaps[st]
	if !ok {
		h = s.ex.c.Var("H0:"+st.Name, s.ex.c.ArrOf(s.ex.c.Int, st))
		s.heaps[st] = h
	}
	return h
}
func (s *State) global(g *ssa.Global) *Term {
	t, ok := s.globs[g]
	if !ok {
		t = s.ex.globInit(g)
		s.globs[g] = t
	}
	return t
}

func (s *State) getPath(t *Term, p []PE) *Term {
	c := s.ex.c
	for _, e := range p {
		if e.Idx != nil {
			t = c.At(t, e.Idx)
		} else {
			t = c.Fld(t, e.F)
		}
	}
	return t
}
func (s *State) setPath(t *Term, p []PE, v *Term) *Term {
	c := s.ex.c
	if len(p) == 0 {
		return v
	}
	e := p[0]
	if e.Idx != nil {
		return c.SeqUpd(t, e.Idx, s.setPath(c.At(t, e.Idx), p[1:], v))
	}
	return c.Upd(t, e.F, s.setPath(c.Fld(t, e.F), p[1:], v))
}

func (s *State) load(a *Addr) *Term { return s.getPath(s.root(a), a.Path) }

func (s *State) store(a *Addr, v *Term) {
	switch a.Kind {
	case 'v':
		unsup("store through a read-only value (slice aliasing)")
	case 'o':
		if s.frozen[a.Obj] {
			unsup("store to an array after a slice of it was copied out")
		}
		n := s.setPath(s.root(a), a.Path, v)
		if r, ok := s.oref[a.Obj]; ok {
			hs := s.ometaSort(a.Obj)
			s.heaps[hs] = s.ex.c.Store(s.heap(hs), r, n)
		} else {
			s.objs[a.Obj] = n
		}
	case 'h':
		n := s.setPath(s.root(a), a.Path, v)
		s.heaps[a.HT] = s.ex.c.Store(s.heap(a.HT), a.Ref, n)
	case 'g':
		s.globs[a.G] = s.setPath(s.root(a), a.Path, v)
	}
}

func (s *State) newObj(t types.Type, v *Term, hint string, site ssa.Value) *Addr {
	s.ex.nobj++
	id := s.ex.nobj
	s.objs[id] = v
	s.ometa[id] = &Obj{ID: id, Type: t, Hint: hint, Site: site}
	return &Addr{Kind: 'o', Obj: id}
}

func (s *State) newMap(content *Term) *Term {
	s.ex.nobj++
	id := s.ex.nobj
	s.maps[id] = content
	return s.ex.c.intern("mapid", nil, s.ex.c.Int, nil, fmt.Sprint(id))
}

// term turns a value into a term (objects escape to the heap, slices are snapshotted)
func (s *State) term(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *Addr:
		switch x.Kind {
		case 'o':
			if len(x.Path) != 0 {
				return s.ex.interior(s, x)
			}
			if r, ok := s.oref[x.Obj]; ok {
				return r
			}
			r := s.top
			s.top = s.ex.c.Add(s.top, s.ex.c.IntLit(1))
			hs := s.ometaSort(x.Obj)
			s.heaps[hs] = s.ex.c.Store(s.heap(hs), r, s.objs[x.Obj])
			s.oref[x.Obj] = r
			return r
		case 'h':
			if len(x.Path) == 0 {
				return x.Ref
			}
		}
		unsup("pointer of kind %c escapes", x.Kind)
	case *SliceRef:
		t := s.load(x.Base)
		if x.Base.Kind == 'o' {
			s.frozen[x.Base.Obj] = true
		}
		return s.ex.c.SeqSub(t, x.Lo, x.Hi)
	case *DynV:
		return s.ex.c.App("box:"+s.ex.typeName(x.Type), s.ex.c.Iface, s.term(x.V))
	case *Opaque:
		return s.ex.c.Fresh("opaque", s.ex.c.Int)
	case *ChanV:
		return s.ex.c.intern("chanid", nil, s.ex.c.Int, nil, fmt.Sprint(x.ID))
	case *Closure:
		t := s.ex.c.Fresh("closure", s.ex.c.Int)
		if s.ex.fnOf == nil {
			s.ex.fnOf = map[*Term]*Closure{}
		}
		s.ex.fnOf[t] = x
		s.assume(s.ex.c.Ne(t, s.ex.c.IntLit(0)))
		return t
	}
	unsup("no term for %T", v)
	return nil
}

// interior: a pointer to a part of an object, kept in a value; it is followed only where it is known which one it is
func (ex *Ex) interior(s *State, a *Addr) *Term {
	key := fmt.Sprint(a.Obj)
	for _, p := range a.Path {
		if p.F < 0 {
			if p.Idx.Op != "int" {
				unsup("pointer into an object escapes")
			}
			key += "[" + p.Idx.I.String() + "]"
		} else {
			key += "." + fmt.Sprint(p.F)
		}
	}
	if ex.iptrs == nil {
		ex.iptrs, ex.iptrIDs = map[*Term]*Addr{}, map[string]int{}
	}
	id, ok := ex.iptrIDs[key]
	if !ok {
		id = len(ex.iptrIDs) + 1
		ex.iptrIDs[key] = id
	}
	t := ex.c.intern("iptr", nil, ex.c.Int, nil, fmt.Sprint(id))
	ex.iptrs[t] = a
	return t
}

// peek at a slice value without freezing it
func (s *State) seqOf(v Val) *Term {
	if x, ok := v.(*SliceRef); ok {
		return s.ex.c.SeqSub(s.load(x.Base), x.Lo, x.Hi)
	}
	return s.term(v)
}
