package a2l

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strconv"
	"strings"
)

// the parallel module parser against the executable specification of the module grammar

func vNested(toks []string) bool {
	var open []string
	for i, t := range toks {
		if strings.HasPrefix(t, "/begin") {
			open = append(open, strings.TrimPrefix(t, "/begin "))
		} else if strings.HasPrefix(t, "/end") {
			if len(open) == 0 || open[len(open)-1] != strings.TrimPrefix(t, "/end ") {
				return false
			}
			open = open[:len(open)-1]
			if len(open) == 0 && i+1 < len(toks) {
				return false
			}
		}
	}
	return len(open) == 0
}

func vBlock(k vKw, name string) []string {
	for q := 0; q < 50; q++ {
		b := genKw(k, 1)
		if k.Mode == "map" && len(b) > 1 {
			b[1] = name
		}
		ok := vNested(b)
		for _, t := range b {
			ok = ok && t != "" && t != "/end MODULE" && t != "/begin MODULE"
		}
		if ok {
			return b
		}
	}
	return nil
}

func vModule(p *vParser, procs int, body []string) bool {
	if vDone {
		return false
	}
	vCount++
	toks := append([]string{"/begin MODULE", "modName", `"long identifier"`}, body...)
	toks = append(toks, "/end PROJECT", "")
	s := vOracle(p, toks, 0)
	numProc = procs
	cs := &vCase{Function: "parseModuleMultithreaded", Tokens: toks, Input: fmt.Sprintf("%d workers", procs)}
	vCur.Store(cs)
	b, _ := json.Marshal(cs)
	os.WriteFile(os.Getenv("VERIF_OUT")+".cur", b, 0o644)
	r := vCall("parseModuleMultithreaded", toks, 0)
	vDistinct[fmt.Sprint(procs, s.err, len(body))] = true
	report := func(what string, want, got any) {
		cs.What, cs.Want, cs.Got = what, want, got
		vReport(cs)
	}
	switch {
	case r.crash != "":
		report("crash: "+r.crash, nil, nil)
	case s.err && !r.err:
		report("no error although "+s.why, "error", nil)
	case !s.err && r.err:
		report("error for a valid module", nil, nil)
	case !s.err:
		got, ok := r.val.(map[string]any)
		if !ok || !reflect.DeepEqual(any(got), any(s.val)) {
			report("content differs from the single-threaded one", vDiff(got, s.val), vDiff(s.val, got))
		} else if r.end != s.end {
			report("wrong number of tokens consumed", s.end, r.end)
		}
	}
	return !vDone
}

func vModPar(n int) {
	p := vPar["parseModule"]
	if p == nil || vTable["parseModuleMultithreaded"] == nil {
		return
	}
	old := numProc
	defer func() { numProc = old }()
	end := []string{"/end MODULE"}
	procs := func() int { return []int{1, 2, 3, 4, 5, 7, 8, 16, 33}[vRnd.Intn(9)] }
	blocks := func(m int, only string) [][]string {
		var r [][]string
		seen := map[string]bool{}
		for q := 0; q < m; q++ {
			k := p.Kw[vRnd.Intn(len(p.Kw))]
			for only != "" && k.Tok != only {
				k = p.Kw[vRnd.Intn(len(p.Kw))]
			}
			if k.Mode != "map" {
				if seen[k.Tok] {
					continue
				}
				seen[k.Tok] = true
			}
			if b := vBlock(k, "N"+strconv.Itoa(q)); b != nil {
				r = append(r, b)
			}
		}
		return r
	}
	flat := func(l [][]string, tail []string) []string {
		var r []string
		for _, b := range l {
			r = append(r, b...)
		}
		return append(r, tail...)
	}
	for _, k := range p.Kw {
		for _, w := range []int{1, 3, 8} {
			if !vModule(p, w, flat(blocks(1, k.Tok), end)) || !vModule(p, w, flat(blocks(12, k.Tok), end)) {
				return
			}
			// one more name that differs from another by one character, an empty name, and an error in a block
			l := blocks(6, k.Tok)
			if k.Mode == "map" && len(l) > 4 {
				l[1][1], l[2][1], l[3][1] = `""`, "n1", "N 1"
				if !vModule(p, w, flat(l, end)) {
					return
				}
			}
			for z := 0; z < 6 && len(l) > 0; z++ {
				b := l[len(l)-1-vRnd.Intn(vMin(2, len(l)))]
				q := 1 + vRnd.Intn(len(b)-1)
				if strings.HasPrefix(b[q], "/") {
					continue
				}
				o := b[q]
				b[q] = pick([]string{"-1", "65536", "abc", "NOWORD", "1e999"})
				if !vModule(p, w, flat(l, end)) {
					return
				}
				b[q] = o
			}
		}
		if !vModule(p, 2, flat(blocks(3, k.Tok), nil)) {
			return
		}
	}
	for q := 0; q < n && !vDone; q++ {
		l := blocks(vRnd.Intn(40), "")
		if vRnd.Intn(4) == 0 && len(l) > 0 {
			b := l[vRnd.Intn(len(l))]
			z := 1 + vRnd.Intn(len(b)-1)
			if !strings.HasPrefix(b[z], "/") {
				b[z] = pick([]string{"-1", "65536", "abc", "NOWORD", "1e999"})
			}
		}
		for _, w := range []int{1, procs(), procs()} {
			vModule(p, w, flat(l, end))
		}
	}
	// one kind only: every place of a border
	for m := 1; m < 40 && !vDone; m++ {
		for w := 1; w < 10; w++ {
			vModule(p, w, flat(blocks(m, "/begin UNIT"), end))
		}
	}
	// more blocks of a kind than a channel holds
	for _, k := range p.Kw {
		if k.Mode == "map" {
			vModule(p, 4, flat(blocks(1200, k.Tok), end))
		}
	}
	// more errors than workers report at once
	for w := 1; w < 9; w++ {
		l := blocks(40, "/begin UNIT")
		for _, b := range l {
			b[4] = "NOWORD"
		}
		vModule(p, w, flat(l, end))
	}
}
