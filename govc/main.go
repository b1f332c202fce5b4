package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func load(dir string) (*ssa.Program, map[string]*ssa.Package, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=vendor", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")}
	if _, err := os.Stat(dir + "/vendor"); err != nil {
		cfg.Env = append(cfg.Env, "GOFLAGS=-mod=mod")
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, nil, fmt.Errorf("%v", e)
		}
	}
	prog, ps := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	m := map[string]*ssa.Package{}
	for _, p := range ps {
		m[p.Pkg.Name()] = p
	}
	return prog, m, nil
}

func newEx(prog *ssa.Program, pkgs map[string]*ssa.Package) *Ex {
	return &Ex{c: NewCtx(), prog: prog, pkgs: pkgs, sortMemo: map[types.Type]*Sort{}, ranges: map[*Term][2]*big.Int{}, fnRange: map[string][2]*big.Int{}, contract: map[*ssa.Function]*Contract{}, ground: map[*ssa.Global]*GroundMap{}, ginit: map[*ssa.Global]*Term{}, inlined: map[string]bool{}, externs: map[string]int{}, loopMemo: map[*ssa.Function]*Loops{}}
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "ssa" {
		_, pkgs, err := load("/repo")
		if err != nil {
			panic(err)
		}
		for _, p := range pkgs {
			for _, n := range os.Args[2:] {
				if f := p.Func(n); f != nil {
					f.WriteTo(os.Stdout)
				}
				for _, mem := range p.Members {
					if t, ok := mem.(*ssa.Type); ok {
						for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
							ms := p.Prog.MethodSets.MethodSet(ty)
							for i := 0; i < ms.Len(); i++ {
								if ms.At(i).Obj().Name() == n {
									p.Prog.MethodValue(ms.At(i)).WriteTo(os.Stdout)
								}
							}
						}
					}
				}
			}
		}
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "names" {
		_, pkgs, err := load(os.Args[2])
		if err != nil {
			panic(err)
		}
		b, _ := json.MarshalIndent(sigTable(pkgs), "", " ")
		fmt.Println(string(b))
		return
	}
	os.Exit(driver(os.Args[1:]))
}

var _ = strings.Contains
