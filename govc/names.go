package main

// Functions are looked up by name; one that is not there under its name any more, while a function of the same
// signature has come up, was renamed. Which of them a contract is for changes nothing about what is proved: the
// contract is proved for the function it is given to.

import (
	"encoding/json"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var renamed = map[*ssa.Package]map[string]*ssa.Function{}

func pkgFunc(p *ssa.Package, name string) *ssa.Function {
	if p == nil {
		return nil
	}
	if f := p.Func(name); f != nil {
		return f
	}
	return renamed[p][name]
}

// declared: functions and methods of a package with their types
func declared(p *ssa.Package) map[string]*ssa.Function {
	r := map[string]*ssa.Function{}
	for n, m := range p.Members {
		switch x := m.(type) {
		case *ssa.Function:
			if x.Synthetic == "" && !strings.HasPrefix(n, "init#") {
				r[n] = x
			}
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := p.Prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f := p.Prog.MethodValue(ms.At(i)); f != nil && f.Pkg == p && f.Synthetic == "" {
						r[n+"."+ms.At(i).Obj().Name()] = f
					}
				}
			}
		}
	}
	return r
}

func sigText(f *ssa.Function) string {
	s := f.Signature
	var l []string
	if s.Recv() != nil {
		l = append(l, "("+s.Recv().Type().String()+")")
	}
	for i := 0; i < s.Params().Len(); i++ {
		l = append(l, s.Params().At(i).Type().String())
	}
	l = append(l, "->")
	for i := 0; i < s.Results().Len(); i++ {
		l = append(l, s.Results().At(i).Type().String())
	}
	return strings.Join(l, " ")
}

func sigTable(pkgs map[string]*ssa.Package) map[string]string {
	r := map[string]string{}
	for pn, p := range pkgs {
		for n, f := range declared(p) {
			r[pn+"."+n] = sigText(f)
		}
	}
	return r
}

func findRenamed(pkgs map[string]*ssa.Package, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	was := map[string]string{}
	if json.Unmarshal(b, &was) != nil {
		return
	}
	for pn, p := range pkgs {
		now := declared(p)
		fresh := map[string][]*ssa.Function{}
		for n, f := range now {
			if _, had := was[pn+"."+n]; !had {
				fresh[sigText(f)] = append(fresh[sigText(f)], f)
			}
		}
		gone := map[string][]string{}
		for q, s := range was {
			if n := strings.TrimPrefix(q, pn+"."); n != q && now[n] == nil {
				gone[s] = append(gone[s], n)
			}
		}
		for s, ns := range gone {
			sort.Strings(ns)
			if len(ns) == 1 && len(fresh[s]) == 1 {
				if renamed[p] == nil {
					renamed[p] = map[string]*ssa.Function{}
				}
				renamed[p][ns[0]] = fresh[s][0]
			}
		}
	}
}
