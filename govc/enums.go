package main

// P11: widths, value types and names of the data type constants. P10: the parsers do not recurse.

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func method(pkg *ssa.Package, typ, name string) *ssa.Function {
	if pkg == nil {
		return nil
	}
	t, ok := pkg.Members[typ].(*ssa.Type)
	if !ok {
		return nil
	}
	for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		ms := pkg.Prog.MethodSets.MethodSet(ty)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return pkg.Prog.MethodValue(ms.At(i))
			}
		}
	}
	return renamed[pkg][typ+"."+name]
}

func missing(fn string, props []string) []*Oblig {
	return []*Oblig{{Fn: fn, Name: "exists", Detail: "function not found", Props: props, Failed: true, Res: "missing"}}
}

// contractUnit verifies one contract that is looked up when the unit runs
func contractUnit(name string, props []string, mk func(w *Worker) *Contract) *Unit {
	return &Unit{Name: name, Props: props, Fns: []string{name}, Run: func(w *Worker) []*Oblig {
		ct := mk(w)
		if ct == nil || ct.Fn == nil {
			return missing(name, props)
		}
		if ct.Props == nil {
			ct.Props = props
		}
		if ct.Safe == nil {
			ct.Safe = props
		}
		n := len(w.ex.obs)
		w.ex.verify(ct)
		return w.ex.obs[n:]
	}}
}

var dataTypes = []struct {
	word string
	bits int64
	box  string
}{{"UBYTE", 8, "uint8"}, {"SBYTE", 8, "int8"}, {"UWORD", 16, "uint16"}, {"SWORD", 16, "int16"}, {"ULONG", 32, "uint32"}, {"SLONG", 32, "int32"},
	{"A_UINT64", 64, "uint64"}, {"A_INT64", 64, "int64"}, {"FLOAT16_IEEE", 16, "float16.Float16"}, {"FLOAT32_IEEE", 32, "float32"}, {"FLOAT64_IEEE", 64, "float64"}}

var dataSizes = []struct {
	word string
	bits int64
}{{"BYTE", 8}, {"WORD", 16}, {"LONG", 32}}

// bit width as a term over the data type word
func (ex *Ex) widthOf(d *Term) *Term {
	c := ex.c
	r := c.IntLit(0)
	for _, x := range dataTypes {
		r = c.Ite(c.Eq(d, c.StrLit(x.word)), c.IntLit(x.bits), r)
	}
	return r
}

func enumUnits() []*Unit {
	props := []string{"P11"}
	recv := func(w *Worker, typ, name string, post func(ex *Ex, st *State, d *Term, ret Val, fn *ssa.Function)) *Contract {
		fn := method(w.pkgs["a2l"], typ, name)
		if fn == nil || len(fn.Params) != 1 {
			return nil
		}
		var obj *Addr
		var d *Term
		_, isPtr := fn.Params[0].Type().Underlying().(*types.Pointer)
		return &Contract{Fn: fn, Setup: func(ex *Ex, st *State, fr *Frame) {
			d = ex.c.Var("dte", ex.c.Str)
			if isPtr {
				obj = st.newObj(fn.Params[0].Type().Underlying().(*types.Pointer).Elem(), d, "recv", nil)
				fr.env[fn.Params[0]] = obj
			} else {
				fr.env[fn.Params[0]] = d
			}
		}, Post: func(ex *Ex, st *State, fr *Frame, rets []Val) {
			if isPtr {
				ex.oblige(st, props, "receiver-unchanged", "the constant is not changed", fn.Pos(), ex.c.Eq(st.load(obj), d))
			}
			post(ex, st, d, rets[0], fn)
		}}
	}
	us := []*Unit{
		contractUnit("a2l.(*DataTypeEnum).GetDatatypeLength", props, func(w *Worker) *Contract {
			return recv(w, "DataTypeEnum", "GetDatatypeLength", func(ex *Ex, st *State, d *Term, r Val, fn *ssa.Function) {
				ex.oblige(st, props, "width", "bit width of the data type", fn.Pos(), ex.c.Eq(st.term(r), ex.widthOf(d)))
			})
		}),
		contractUnit("a2l.(*DataSizeEnum).GetDataSizeLength", props, func(w *Worker) *Contract {
			return recv(w, "DataSizeEnum", "GetDataSizeLength", func(ex *Ex, st *State, d *Term, r Val, fn *ssa.Function) {
				c := ex.c
				v := c.IntLit(0)
				for _, x := range dataSizes {
					v = c.Ite(c.Eq(d, c.StrLit(x.word)), c.IntLit(x.bits), v)
				}
				ex.oblige(st, props, "width", "bit width of the data size", fn.Pos(), c.Eq(st.term(r), v))
			})
		}),
		contractUnit("a2l.(*DataTypeEnum).String", props, func(w *Worker) *Contract {
			return recv(w, "DataTypeEnum", "String", func(ex *Ex, st *State, d *Term, r Val, fn *ssa.Function) {
				c := ex.c
				for _, x := range dataTypes {
					ex.oblige(st, props, "name", "name of the data type "+x.word, fn.Pos(), c.Implies(c.Eq(d, c.StrLit(x.word)), c.Eq(st.term(r), c.StrLit(x.word))))
				}
			})
		}),
		contractUnit("a2l.(*DataTypeEnum).GetType", props, func(w *Worker) *Contract {
			return recv(w, "DataTypeEnum", "GetType", func(ex *Ex, st *State, d *Term, r Val, fn *ssa.Function) {
				c := ex.c
				t := st.norm(st.term(r))
				for _, x := range dataTypes {
					ok := t.Op == "app:box:"+x.box
					ex.oblige(st, props, "type", "type of a "+x.word+" value", fn.Pos(), c.Implies(c.Eq(d, c.StrLit(x.word)), c.BoolLit(ok)))
				}
			})
		}),
	}
	return us
}

// acyclicUnit: no parser calls itself, directly or through others; together with the loop progress
// obligations this bounds every parse
func acyclicUnit(g *Grammar) *Unit {
	props := []string{"P10"}
	return &Unit{Name: "a2l.callgraph", Props: props, Fns: nil, Run: func(w *Worker) []*Oblig {
		pkg := w.pkgs["a2l"]
		color := map[*ssa.Function]int{}
		var obs []*Oblig
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			color[f] = 1
			cyc := ""
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var ops [16]*ssa.Value
					for _, o := range in.Operands(ops[:0]) {
						h, ok := (*o).(*ssa.Function)
						if !ok || h.Pkg != pkg {
							continue
						}
						switch color[h] {
						case 0:
							visit(h)
						case 1:
							cyc = h.Name()
						}
					}
				}
			}
			color[f] = 2
			o := &Oblig{Fn: "a2l." + f.Name(), Name: "no-recursion", Props: props, Res: "unsat", Trivial: true, Solver: "simplifier"}
			if cyc != "" {
				o.Res, o.Trivial, o.Failed = "sat", false, true
				o.Detail = f.Name() + " can reach itself through " + cyc
			}
			obs = append(obs, o)
		}
		var names []string
		for _, p := range g.Parsers {
			names = append(names, p.Fn)
		}
		sort.Strings(names)
		for _, n := range names {
			if f := pkgFunc(pkg, n); f != nil && color[f] == 0 {
				visit(f)
			}
		}
		return obs
	}}
}
