package main

// Assumed contracts of functions outside the repository (standard library, zerolog, float16).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type GroundMap struct {
	Name string
	G    *ssa.Global
	Ints map[string]int64  // values of an integer table
	Strs map[string]string // values of a text table
	Fns  map[string]*ssa.Function // values of a table of functions
	Keys map[string]*ssa.Const
	Val  *types.Map
	// abstract model used for a symbolic key
	Sym func(ex *Ex, key *Term) (has, val *Term)
}

func (g *GroundMap) value(ex *Ex, k string) *Term {
	if g.Strs != nil {
		return ex.c.StrLit(g.Strs[k])
	}
	if g.Fns != nil {
		f := g.Fns[k]
		if f == nil {
			return ex.c.IntLit(0)
		}
		for t, cl := range ex.fnOf {
			if t.Op == "int" && cl.Fn == f {
				return t
			}
		}
		if ex.fnOf == nil {
			ex.fnOf = map[*Term]*Closure{}
		}
		t := ex.c.IntLit(-int64(1000000 + len(ex.fnOf))) // some number other than that of nil and of other functions
		ex.fnOf[t] = &Closure{Fn: f}
		return t
	}
	return ex.c.IntLit(g.Ints[k])
}

func (g *GroundMap) lookup(ex *Ex, key *Term) (*Term, *Term) {
	c := ex.c
	if key.isLit() {
		k := key.S
		if key.Op == "int" {
			k = key.I.String()
		}
		_, ok := g.Keys[k]
		return c.BoolLit(ok), g.value(ex, k)
	}
	if g.Sym != nil {
		return g.Sym(ex, key)
	}
	ks := make([]string, 0, len(g.Keys))
	for k := range g.Keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var o []*Term
	val := g.value(ex, "\x00")
	for _, k := range ks {
		lit := c.StrLit(k)
		if key.Sort == c.Int {
			n, ok := new(big.Int).SetString(k, 10)
			if !ok {
				unsup("key of table %s", g.Name)
			}
			lit = c.BigLit(n)
		}
		o = append(o, c.Eq(key, lit))
		if len(ks) <= 64 {
			val = c.Ite(c.Eq(key, lit), g.value(ex, k), val)
		}
	}
	if len(ks) > 64 {
		val = c.App("tab:"+g.Name, val.Sort, key)
	}
	return c.Or(o...), val
}

func constKey(k *ssa.Const) string {
	if k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value)
	}
	return k.Value.ExactString()
}

func (ex *Ex) rangeConv(v *Term, unsigned bool, n int) {
	if n == 0 {
		n = 64
	}
	if unsigned {
		ex.ranges[v] = [2]*big.Int{new(big.Int), new(big.Int).Sub(pow2(n), big.NewInt(1))}
	} else {
		ex.ranges[v] = [2]*big.Int{new(big.Int).Neg(pow2(n - 1)), new(big.Int).Sub(pow2(n-1), big.NewInt(1))}
	}
}

func (ex *Ex) extern(st *State, fr *Frame, callee *ssa.Function, args []Val, in ssa.CallInstruction, k K) bool {
	c := ex.c
	if pkgOf(callee) == nil {
		return false
	}
	path := pkgOf(callee).Pkg.Path()
	if strings.HasPrefix(path, "github.com/asap2Go/") {
		return false
	}
	if strings.HasPrefix(path, "github.com/rs/zerolog") {
		ex.externs["zerolog (logging, no effect on results)"]++
		k(st, ex.opaqueResults(callee.Signature))
		return true
	}
	name := callee.String()
	ex.externs[name]++
	T := func(i int) *Term { return st.term(args[i]) }
	if ex.textExtern(st, fr, name, args, in, k) {
		return true
	}
	switch name {
	case "errors.New", "fmt.Errorf":
		if name == "fmt.Errorf" {
			if f, ok := args[0].(*Term); !ok || f.Op != "str" || strings.Contains(f.S, "%w") {
				e := c.Fresh("err", c.Iface)
				st.assume(c.Ne(e, c.NilI))
				k(st, []Val{e})
				return true
			}
		}
		k(st, []Val{c.ErrI})
		return true
	case "errors.Is":
		a, b := T(0), T(1)
		if a.Op == "var" || a.Op == "errI" && b.Op == "errI" {
			unsup("errors.Is")
		}
		k(st, []Val{c.Eq(a, b)})
		return true
	case "fmt.Sprint", "fmt.Sprintf", "strconv.Itoa", "strconv.FormatInt", "strconv.Quote", "fmt.Sprintln", "strconv.FormatUint":
		k(st, []Val{c.Fresh("str", c.Str)})
		return true
	case "strconv.ParseUint", "strconv.ParseInt":
		s, base, bits := T(0), T(1), T(2)
		fn := "parseuint"
		if name == "strconv.ParseInt" {
			fn = "parseint"
		}
		ex.convFork(st, c.App(fn+".err", c.Bool, s, base, bits), func(s2 *State, bad bool) {
			if bad {
				k(s2, []Val{c.Fresh("badnum", c.Int), c.ErrI})
				return
			}
			v := c.App(fn, c.Int, s, base, bits)
			if bits.Op == "int" {
				n := int(bits.I.Int64())
				if n == 0 {
					n = 64
				}
				if fn == "parseuint" {
					ex.ranges[v] = [2]*big.Int{new(big.Int), new(big.Int).Sub(pow2(n), big.NewInt(1))}
				} else {
					ex.ranges[v] = [2]*big.Int{new(big.Int).Neg(pow2(n - 1)), new(big.Int).Sub(pow2(n-1), big.NewInt(1))}
				}
			}
			k(s2, []Val{v, c.NilI})
		})
		return true
	case "strconv.Atoi":
		s := T(0)
		ex.convFork(st, c.App("parseint.err", c.Bool, s, c.IntLit(10), c.IntLit(0)), func(s2 *State, bad bool) {
			if bad {
				k(s2, []Val{c.Fresh("badnum", c.Int), c.ErrI})
				return
			}
			k(s2, []Val{c.App("parseint", c.Int, s, c.IntLit(10), c.IntLit(0)), c.NilI})
		})
		return true
	case "strconv.ParseFloat":
		s, bits := T(0), T(1)
		ex.convFork(st, c.App("parsefloat.err", c.Bool, s, bits), func(s2 *State, bad bool) {
			if bad {
				k(s2, []Val{c.Fresh("badnum", c.F64), c.ErrI})
				return
			}
			k(s2, []Val{c.App("parsefloat", c.F64, s, bits), c.NilI})
		})
		return true
	case "fmt.Println", "fmt.Printf", "fmt.Print":
		k(st, ex.opaqueResults(callee.Signature))
		return true
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		k(st, []Val{c.App(name, c.Str, T(0))})
		return true
	case "strings.Trim", "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimLeft", "strings.TrimRight":
		k(st, []Val{c.App(name, c.Str, T(0), T(1))})
		return true
	case "strings.Contains", "strings.HasPrefix", "strings.HasSuffix":
		if a, b := T(0), T(1); name == "strings.Contains" && a.Op == "str" && len(a.S) <= 16 && st.decide(c.Eq(c.SLen(b), c.IntLit(1))) == 1 {
			r := c.F
			for i := range a.S {
				r = c.Or(r, c.Eq(b, c.StrLit(a.S[i:i+1])))
			}
			k(st, []Val{r})
			return true
		}
		if name == "strings.Contains" && T(1).Op == "str" && T(1).S != "" {
			k(st, []Val{c.Lt(c.IntLit(0), ex.strCount(st, T(0), T(1)))})
			return true
		}
		k(st, []Val{c.App(name, c.Bool, T(0), T(1))})
		return true
	case "strings.ReplaceAll":
		k(st, []Val{c.App(name, c.Str, T(0), T(1), T(2))})
		return true
	case "strings.Index", "strings.Count":
		r := c.App(name, c.Int, T(0), T(1))
		if T(1).Op == "str" && T(1).S != "" {
			n := ex.strCount(st, T(0), T(1))
			if name == "strings.Index" {
				st.assume(c.And(c.Le(c.IntLit(-1), r), c.Eq(c.Le(c.IntLit(0), r), c.Lt(c.IntLit(0), n))))
				st.assume(c.Implies(c.Le(c.IntLit(0), r), c.Le(c.Add(r, c.SLen(T(1))), c.SLen(T(0)))))
			}
		}
		k(st, []Val{r})
		return true
	case "strings.Join":
		k(st, []Val{c.strJoin(st.norm(st.term(args[0])), st.norm(st.term(args[1])))})
		return true
	case "strings.Split":
		r := c.App(name, c.SeqOf(c.Str), T(0), T(1))
		st.assume(c.Le(c.IntLit(1), c.Len(r)))
		if T(1).Op == "str" && T(1).S != "" {
			st.assume(c.Eq(c.Len(r), c.Add(ex.strCount(st, T(0), T(1)), c.IntLit(1))))
		}
		k(st, []Val{r})
		return true
	case "os.ReadFile":
		p := T(0)
		ex.convFork(st, c.App("readfile.err", c.Bool, p), func(s2 *State, bad bool) {
			if bad {
				k(s2, []Val{c.Fresh("partial", c.SeqOf(c.Int)), c.ErrI})
				return
			}
			k(s2, []Val{c.App("readfile", c.SeqOf(c.Int), p), c.NilI})
		})
		return true
	case "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*strings.Builder).String", "(*strings.Builder).Reset", "(*strings.Builder).Grow":
		a, ok := args[0].(*Addr)
		if !ok || a.Kind != 'o' {
			break
		}
		old := st.load(a)
		switch name[len("(*strings.Builder)."):] {
		case "String":
			k(st, []Val{old})
		case "Reset":
			ex.doStore(st, a, c.StrLit(""), in.Pos())
			k(st, nil)
		case "Grow":
			ex.oblige(st, ex.safeProps(), "no-panic", "Builder.Grow with a negative size", in.Pos(), c.Le(c.IntLit(0), T(1)))
			k(st, nil)
		case "WriteString":
			ex.doStore(st, a, c.SCat(old, T(1)), in.Pos())
			k(st, []Val{c.SLen(T(1)), c.NilI})
		default:
			b := st.norm(T(1))
			if b.Op != "int" || !b.I.IsInt64() || b.I.Int64() <= 0 || b.I.Int64() > 127 {
				unsup("Builder with a character that is no ASCII literal")
			}
			ex.doStore(st, a, c.SCat(old, c.StrLit(string(rune(b.I.Int64())))), in.Pos())
			if strings.HasSuffix(name, "Byte") {
				k(st, []Val{c.NilI})
			} else {
				k(st, []Val{c.IntLit(1), c.NilI})
			}
		}
		return true
	case "strings.Fields":
		k(st, []Val{c.App(name, c.SeqOf(c.Str), T(0))})
		return true
	case "sync/atomic.AddUint32":
		if a, ok := args[0].(*Addr); ok && a.Kind == 'g' {
			v := ex.wrap(c.Add(st.load(a), T(1)), types.Typ[types.Uint32])
			st.store(a, v)
			k(st, []Val{v})
			return true
		}
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock":
		ex.syncCall(st, name, args, in.Pos())
		k(st, nil)
		return true
	case "math.Float32frombits":
		k(st, []Val{c.App("f32bits", c.F64, T(0))})
		return true
	case "math.Float64frombits":
		k(st, []Val{c.App("f64bits", c.F64, T(0))})
		return true
	case "math.Pow", "math.Mod":
		k(st, []Val{c.App(name, c.F64, T(0), T(1))})
		return true
	case "math.Sqrt", "math.Abs", "math.Log", "math.Exp", "math.Floor", "math.Trunc", "math.Round":
		k(st, []Val{c.App(name, c.F64, T(0))})
		return true
	case "math.IsNaN":
		k(st, []Val{c.Not(c.App("feq", c.Bool, T(0), T(0)))})
		return true
	case "github.com/x448/float16.Frombits":
		k(st, []Val{T(0)})
		return true
	case "(github.com/x448/float16.Float16).Float32":
		k(st, []Val{c.App("f16bits", c.F64, T(0))})
		return true
	case "(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint64",
		"(encoding/binary.littleEndian).Uint16", "(encoding/binary.littleEndian).Uint32", "(encoding/binary.littleEndian).Uint64":
		n := 2
		if strings.HasSuffix(name, "32") {
			n = 4
		} else if strings.HasSuffix(name, "64") {
			n = 8
		}
		b := st.seqOf(args[1])
		ex.oblige(st, ex.safeProps(), "index-in-range", "binary.Uint on a slice that is too short", in.Pos(), c.Le(c.IntLit(int64(n)), c.Len(b)))
		k(st, []Val{ex.endian(b, n, strings.Contains(name, "bigEndian"))})
		return true
	case "(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.littleEndian).PutUint16", "(encoding/binary.littleEndian).PutUint32":
		n := 2
		if strings.HasSuffix(name, "32") {
			n = 4
		}
		dst, ok := args[1].(*SliceRef)
		if !ok {
			unsup("PutUint into a shared slice")
		}
		ex.oblige(st, ex.safeProps(), "index-in-range", "binary.PutUint on a slice that is too short", in.Pos(), c.Le(c.IntLit(int64(n)), c.Sub(dst.Hi, dst.Lo)))
		v := T(2)
		for i := 0; i < n; i++ {
			sh := n - 1 - i
			if strings.Contains(name, "little") {
				sh = i
			}
			bt := c.Mod(c.Div(v, c.BigLit(pow2(8*sh))), c.IntLit(256))
			st.store(dst.Base.ext(PE{F: -1, Idx: c.Add(dst.Lo, c.IntLit(int64(i)))}), bt)
		}
		k(st, nil)
		return true
	case "encoding/hex.DecodeString":
		s := T(0)
		for _, n := range []int64{2, 4, 8} {
			if st.decide(c.Eq(c.SLen(s), c.IntLit(n))) != 1 {
				continue
			}
			ok := c.T
			var vs []*Term
			for i := int64(0); i < n; i += 2 {
				ok = c.And(ok, ex.hexok(ex.sub(s, i, i+2)))
				vs = append(vs, ex.hexval(ex.sub(s, i, i+2)))
			}
			if st.decide(st.norm(ok)) == 1 {
				k(st, []Val{c.SeqLit(c.SeqOf(c.Int), vs), c.NilI})
				return true
			}
		}
		ex.convFork(st, c.App("hexdec.err", c.Bool, s), func(s2 *State, bad bool) {
			if bad {
				k(s2, []Val{c.Fresh("badhex", c.SeqOf(c.Int)), c.ErrI})
				return
			}
			k(s2, []Val{c.App("hexdec", c.SeqOf(c.Int), s), c.NilI})
		})
		return true
	}
	if strings.HasPrefix(name, "time.") || strings.HasPrefix(name, "(time.") {
		k(st, ex.opaqueResults(callee.Signature))
		return true
	}
	return false
}

func (ex *Ex) endian(b *Term, n int, big_ bool) *Term {
	c := ex.c
	r := c.IntLit(0)
	for i := 0; i < n; i++ {
		sh := n - 1 - i
		if !big_ {
			sh = i
		}
		e := c.At(b, c.IntLit(int64(i)))
		ex.noteType(e, types.Typ[types.Uint8])
		r = c.Add(r, c.Mul(c.BigLit(pow2(8*sh)), e))
	}
	return r
}

// convFork forks on a conversion-failure predicate
func (ex *Ex) convFork(st *State, bad *Term, f func(*State, bool)) {
	switch st.decide(bad) {
	case 1:
		f(st, true)
		return
	case -1:
		f(st, false)
		return
	}
	s2 := st.clone()
	if st.assume(bad) {
		st.trace = append(st.trace, short(bad))
		f(st, true)
	}
	if s2.assume(ex.c.Not(bad)) {
		s2.trace = append(s2.trace, "¬"+short(bad))
		f(s2, false)
	}
}

// sentinelGlobal: the variable is only read, apart from its initialisation by errors.New
func sentinelGlobal(g *ssa.Global) bool {
	stores := 0
	ok := true
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		if f == nil {
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if *o != ssa.Value(g) {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						cl, isCall := x.Val.(*ssa.Call)
						if x.Addr != ssa.Value(g) || f.Name() != "init" || !isCall || cl.Call.StaticCallee() == nil || cl.Call.StaticCallee().String() != "errors.New" {
							ok = false
						}
						stores++
					case *ssa.DebugRef:
					default:
						ok = false
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			scan(a)
		}
	}
	for _, m := range g.Pkg.Members {
		switch x := m.(type) {
		case *ssa.Function:
			scan(x)
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := g.Pkg.Prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					scan(g.Pkg.Prog.MethodValue(ms.At(i)))
				}
			}
		}
	}
	return ok && stores == 1
}

func (ex *Ex) globInit(g *ssa.Global) *Term {
	if t, ok := ex.ginit[g]; ok {
		return t
	}
	et := g.Type().(*types.Pointer).Elem()
	t := ex.c.Var("g:"+g.String(), ex.sortOf(et))
	if types.Identical(et, types.Universe.Lookup("error").Type()) && sentinelGlobal(g) {
		t = ex.c.Sentinel(g.String())
	}
	ex.noteType(t, et)
	ex.ginit[g] = t
	return t
}

// ---------------------------------------------------------------- concurrency primitives

func (ex *Ex) event(st *State, kind string, args ...Val) {
	if ex.top != nil && ex.top.OnEvent != nil {
		ex.top.OnEvent(ex, st, kind, args...)
	}
}

func (ex *Ex) makeChan(st *State, elem types.Type, name string, site ssa.Value) Val {
	ex.nobj++
	id := ex.nobj
	s := ex.sortOf(elem)
	st.chans[id] = &ChanState{Elem: s, Sent: ex.c.Empty(ex.c.SeqOf(s)), Rcvd: ex.c.IntLit(0), Name: name}
	return &ChanV{ID: id}
}

func (ex *Ex) send(st *State, fr *Frame, ch, v Val, pos token.Pos) {
	cv, ok := ch.(*ChanV)
	if !ok {
		unsup("send on an unknown channel")
	}
	cs := st.chans[cv.ID]
	if cs.Closed {
		ex.refute(st, ex.safeProps(), "no-send-on-closed", "send on a closed channel", pos)
		return
	}
	cs.Sent = ex.c.Cat(cs.Sent, ex.c.Unit(st.term(v)))
	ex.event(st, "send", ch, v)
}

func (ex *Ex) closeChan(st *State, ch Val, pos token.Pos) {
	cv, ok := ch.(*ChanV)
	if !ok {
		unsup("close of an unknown channel")
	}
	cs := st.chans[cv.ID]
	if cs.Closed {
		ex.refute(st, ex.safeProps(), "no-double-close", "close of a closed channel", pos)
		return
	}
	cs.Closed = true
	ex.event(st, "close", ch)
}

func (ex *Ex) chanLen(st *State, ch *ChanV) *Term {
	cs := st.chans[ch.ID]
	ex.event(st, "len", ch)
	return ex.c.Sub(ex.c.Len(cs.Sent), cs.Rcvd)
}

// recv: the sender side has been accounted for (Sent is complete) when the channel is marked closed
func (ex *Ex) recv(st *State, fr *Frame, in *ssa.UnOp, k func(*State, *Frame, Val)) {
	x := ex.val(st, fr, in.X)
	if t, ok := x.(*Term); ok && ex.top != nil && ex.top.RecvHook != nil && ex.top.RecvHook(ex, st, fr, in, t, k) {
		return
	}
	cv, ok := x.(*ChanV)
	if !ok {
		unsup("receive from an unknown channel")
	}
	if ex.top != nil && ex.top.ChanRecv != nil && ex.top.ChanRecv(ex, st, fr, in, cv, k) {
		return
	}
	if ex.top != nil && ex.top.ChanWait != nil {
		ex.top.ChanWait(ex, st, fr, cv, in.Pos(), func(s2 *State) { ex.recvReady(s2, fr.clone(), in, cv, k) })
		return
	}
	ex.recvReady(st, fr, in, cv, k)
}

func (ex *Ex) recvReady(st *State, fr *Frame, in *ssa.UnOp, cv *ChanV, k func(*State, *Frame, Val)) {
	c := ex.c
	cs := st.chans[cv.ID]
	if !cs.Closed && st.decide(c.Lt(cs.Rcvd, c.Len(cs.Sent))) != 1 {
		unsup("receive from a channel whose producer has no contract")
	}
	et := in.X.Type().Underlying().(*types.Chan).Elem()
	more := c.Lt(cs.Rcvd, c.Len(cs.Sent))
	fin := func(s *State, f *Frame, has bool) {
		q := s.chans[cv.ID]
		var v *Term
		if has {
			v = c.At(q.Sent, q.Rcvd)
			q.Rcvd = c.Add(q.Rcvd, c.IntLit(1))
			ex.noteType(v, et)
		} else {
			v = ex.zero(et)
		}
		if in.CommaOk {
			k(s, f, Tuple{v, c.BoolLit(has)})
		} else {
			k(s, f, v)
		}
	}
	switch st.decide(more) {
	case 1:
		fin(st, fr, true)
		return
	case -1:
		fin(st, fr, false)
		return
	}
	s2, f2 := st.clone(), fr.clone()
	if st.assume(more) {
		fin(st, fr, true)
	}
	if s2.assume(c.Not(more)) {
		fin(s2, f2, false)
	}
}

func (ex *Ex) goStmt(st *State, fr *Frame, in *ssa.Go) {
	var args []Val
	for _, a := range in.Call.Args {
		args = append(args, ex.val(st, fr, a))
	}
	callee := in.Call.StaticCallee()
	if callee == nil {
		if cl, ok := ex.val(st, fr, in.Call.Value).(*Closure); ok {
			callee = cl.Fn
		}
	}
	if ex.top != nil && ex.top.GoHook != nil && ex.top.GoHook(ex, st, fr, callee, args, in) {
		return
	}
	if a2 := ex.captured(st, fr, callee, args, in); a2 != nil && ex.top != nil && ex.top.WorkHook != nil && ex.top.WorkHook(ex, st, fr, callee, a2, in) {
		return
	}
	if inner, a2 := ex.unwrapGo(st, fr, callee, args, in); inner != nil && ex.top != nil && (ex.top.GoHook != nil && ex.top.GoHook(ex, st, fr, inner, a2, in) || ex.top.WorkHook != nil && ex.top.WorkHook(ex, st, fr, inner, a2, in)) {
		return
	}
	unsup("go statement without contract")
}

// unwrapGo: a goroutine that does nothing but call one function is this call. Variables it captures are read later
// than the go statement: they must not change any more (assigned before it only, and not kept over the rounds of a loop).
func (ex *Ex) unwrapGo(st *State, fr *Frame, callee *ssa.Function, args []Val, in *ssa.Go) (*ssa.Function, []Val) {
	if callee == nil || callee.Parent() == nil || len(callee.Blocks) != 1 {
		return nil, nil
	}
	var bind []Val
	if cl, ok := ex.val(st, fr, in.Call.Value).(*Closure); ok {
		bind = cl.Bind
	}
	if len(callee.FreeVars) > 0 {
		mc, ok := in.Call.Value.(*ssa.MakeClosure)
		if !ok || mc.Block() != in.Block() {
			return nil, nil
		}
		for _, b := range mc.Bindings {
			if !settled(b, in) {
				return nil, nil
			}
		}
	}
	nf := ex.newFrame(callee, fr)
	for i, p := range callee.Params {
		nf.env[p] = args[i]
	}
	for i, fv := range callee.FreeVars {
		nf.env[fv] = bind[i]
	}
	var inner *ssa.Function
	var out []Val
	for _, i := range callee.Blocks[0].Instrs {
		switch x := i.(type) {
		case *ssa.DebugRef, *ssa.RunDefers:
		case *ssa.Return:
			if len(x.Results) > 0 {
				return nil, nil
			}
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if inner != nil || f == nil {
				return nil, nil
			}
			inner = f
			for _, a := range x.Call.Args {
				out = append(out, ex.val(st, nf, a))
			}
		case *ssa.UnOp:
			if inner != nil || x.Op != token.MUL {
				return nil, nil
			}
			nf.env[x] = ex.unop(st, nf, x)
		case *ssa.Slice:
			if inner != nil {
				return nil, nil
			}
			nf.env[x] = ex.slice(st, nf, x)
		default:
			return nil, nil
		}
	}
	return inner, out
}

// workIn: what a worker works on, parameters and captured variables
type workIn struct {
	v    ssa.Value
	t    types.Type
	cell bool
}

func workIns(fn *ssa.Function) []workIn {
	var r []workIn
	for _, p := range fn.Params {
		r = append(r, workIn{p, p.Type(), false})
	}
	for _, v := range fn.FreeVars {
		r = append(r, workIn{v, v.Type().Underlying().(*types.Pointer).Elem(), true})
	}
	return r
}

// give: the worker starts with this value
func (in workIn) give(ex *Ex, st *State, fr *Frame, v Val) {
	if !in.cell {
		fr.env[in.v] = v
		return
	}
	a := st.newObj(in.t, ex.c.Fresh("cell", ex.sortOf(in.t)), in.v.Name(), nil)
	if t, ok := v.(*Term); ok {
		st.store(a, t)
	} else {
		if st.ghost == nil {
			st.ghost = map[string]Val{}
		}
		st.ghost[fmt.Sprintf("cell:%d", a.Obj)] = v
	}
	fr.env[in.v] = a
}

// captured: arguments and captured variables of a worker at its start, where these do not change any more
func (ex *Ex) captured(st *State, fr *Frame, callee *ssa.Function, args []Val, in *ssa.Go) []Val {
	if callee == nil {
		return nil
	}
	if len(callee.FreeVars) == 0 {
		return args
	}
	mc, ok := in.Call.Value.(*ssa.MakeClosure)
	if !ok || mc.Block() != in.Block() {
		return nil
	}
	out := append([]Val(nil), args...)
	for _, b := range mc.Bindings {
		if !settled(b, in) {
			return nil
		}
		a, ok := ex.val(st, fr, b).(*Addr)
		if !ok || a.Kind != 'o' || len(a.Path) > 0 {
			return nil
		}
		if v, ok := st.ghost[fmt.Sprintf("cell:%d", a.Obj)]; ok {
			out = append(out, v)
			continue
		}
		t := st.load(a)
		if ch := st.chanOf(t); ch != nil {
			out = append(out, ch)
		} else {
			out = append(out, t)
		}
	}
	return out
}

// settled: the captured variable does not change from the go statement on
func settled(v ssa.Value, in *ssa.Go) bool {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	before := func(i ssa.Instruction) bool {
		if i.Block() != in.Block() {
			return i.Block().Dominates(in.Block())
		}
		for _, j := range in.Block().Instrs {
			if j == i {
				return true
			}
			if j == ssa.Instruction(in) {
				return false
			}
		}
		return false
	}
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != al || x.Block() == in.Block() && !before(x) || reaches(in.Block(), x.Block(), al.Block()) {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for _, rr := range *x.Referrers() {
				g, ok := rr.(*ssa.Go)
				if !ok || g.Call.Value != x {
					return false
				}
			}
			for i, b := range x.Bindings {
				if b != v {
					continue
				}
				for _, fr := range *x.Fn.(*ssa.Function).FreeVars[i].Referrers() {
					switch fr.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return true
}

// reaches: there is a way from one block to another (at least one step) that does not come past the third
func reaches(from, to, not *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		for _, n := range b.Succs {
			if n == not || seen[n] {
				continue
			}
			if n == to {
				return true
			}
			seen[n] = true
			if rec(n) {
				return true
			}
		}
		return false
	}
	return rec(from)
}

func (ex *Ex) syncCall(st *State, name string, args []Val, pos token.Pos) {
	ex.event(st, name, args...)
}

// strCount: how often the text s occurs in t
func (ex *Ex) strCount(st *State, t, s *Term) *Term {
	n := ex.c.App("strings.Count", ex.c.Int, t, s)
	st.assume(ex.c.Le(ex.c.IntLit(0), n))
	return n
}

// strJoin: the words with the separator in between
func (c *Ctx) strJoin(l, sep *Term) *Term {
	switch l.Op {
	case "seq.empty":
		return c.StrLit("")
	case "seq.unit":
		return l.Args[0]
	case "seq.lit":
		t := l.Args[0]
		for _, w := range l.Args[1:] {
			t = c.SCat(c.SCat(t, sep), w)
		}
		return t
	case "seq.cat":
		if l.Args[1].Op == "seq.unit" {
			w := l.Args[1].Args[0]
			return c.Ite(c.Eq(c.Len(l.Args[0]), c.IntLit(0)), w, c.SCat(c.SCat(c.strJoin(l.Args[0], sep), sep), w))
		}
	}
	return c.App("strings.Join", c.Str, l, sep)
}
