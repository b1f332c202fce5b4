package a2l

// Concrete replay of failed obligations: an executable reading of spec/a2l_grammar.json is compared with the
// real element parsers on generated token streams. Nested elements are taken from the real parser, so a
// difference is attributed to the element under test. Added to the package through "go test -overlay".

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/rs/zerolog"
)

type vItem struct {
	F, List, Cat, Listn, Arr, Flag, Conv, Parser, Count string
	N, I                                                int
	Row                                                 []vItem
}
type vKw struct{ Tok, F, Parser, Mode, Key, Flag, MtParser string }
type vParser struct {
	Fn, Type, Kind, End string
	KwErr, KwStop       bool
	StopBefore, OnEnd   []string
	Set                 []string
	EmptyErr            bool
	Default             *struct{ F, Unless, Value string }
	Items               []vItem
	Kw                  []vKw
}
type vEnum struct {
	Fn, Type string
	Words    []string
	Next     bool
}
type vGrammar struct {
	Keywords []string
	Enums    []*vEnum
	Parsers  []*vParser
}

var (
	vg        vGrammar
	vKey      = map[string]bool{}
	vPar      = map[string]*vParser{}
	vEnu      = map[string]*vEnum{}
	vRnd      *rand.Rand
	vCur      atomic.Pointer[vCase]
	vCount    int
	vProp     string
	vDone     bool
	vStart    time.Time
	vDistinct = map[string]bool{}
)

type vCase struct {
	Property string
	Function string
	What     string
	Tokens   []string
	Input    any    `json:",omitempty"`
	Got      any    `json:",omitempty"`
	Want     any    `json:",omitempty"`
	Cursor   [2]int `json:",omitempty"`
}

func vReport(c *vCase) {
	c.Property = vProp
	b, _ := json.MarshalIndent(c, "", " ")
	os.WriteFile(os.Getenv("VERIF_OUT"), b, 0o644)
	vDone = true
}

func canon(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return "true"
		}
		return nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.Int() == 0 {
			return nil
		}
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.Uint() == 0 {
			return nil
		}
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		return canonFloat(v.Float())
	case reflect.String:
		if v.String() == "" {
			return nil
		}
		return v.String()
	case reflect.Struct:
		m := map[string]any{}
		for i := 0; i < v.NumField(); i++ {
			if c := canon(v.Field(i)); c != nil {
				m[v.Type().Field(i).Name] = c
			}
		}
		if len(m) == 0 {
			return nil
		}
		return m
	case reflect.Slice:
		if v.Len() == 0 {
			return nil
		}
		var l []any
		for i := 0; i < v.Len(); i++ {
			l = append(l, canon(v.Index(i)))
		}
		return l
	case reflect.Array:
		m := map[string]any{}
		for i := 0; i < v.Len(); i++ {
			if c := canon(v.Index(i)); c != nil {
				m[strconv.Itoa(i)] = c
			}
		}
		if len(m) == 0 {
			return nil
		}
		return m
	case reflect.Map:
		if v.Len() == 0 {
			return nil
		}
		m := map[string]any{}
		it := v.MapRange()
		for it.Next() {
			m[fmt.Sprint(it.Key())] = []any{canon(it.Value())}
		}
		return m
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return canon(v.Elem())
	}
	return nil
}

func canonFloat(f float64) any {
	if f == 0 {
		return nil
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func vLoad(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	b, err := os.ReadFile(os.Getenv("VERIF_GRAMMAR"))
	if err != nil {
		t.Fatal(err)
	}
	if err := json.Unmarshal(b, &vg); err != nil {
		t.Fatal(err)
	}
	for _, k := range vg.Keywords {
		vKey[k] = true
	}
	for _, p := range vg.Parsers {
		vPar[p.Fn] = p
	}
	for _, e := range vg.Enums {
		vEnu[e.Fn] = e
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	vRnd = rand.New(rand.NewSource(seed + 7))
	vProp = os.Getenv("VERIF_PROP")
	vStart = time.Now()
	go func() {
		var last *vCase
		n := 0
		for {
			time.Sleep(500 * time.Millisecond)
			c := vCur.Load()
			if c != nil && c == last {
				n++
				if n >= 20 {
					c.What = "the parser does not return"
					vReport(c)
					fmt.Println("VERIF-HANG")
					os.Exit(7)
				}
			} else {
				n = 0
				last = c
			}
		}
	}()
}

type vres struct {
	val   any
	raw   reflect.Value
	err   bool
	end   int
	crash string
}

func vCall(fn string, toks []string, i int) (r vres) {
	f := vTable[fn]
	tokenList = toks
	tok := tokenGenerator{}
	tok.index = i
	defer func() {
		if e := recover(); e != nil {
			r.crash = fmt.Sprint(e)
		}
	}()
	v, err := f(&tok)
	r.raw = reflect.ValueOf(v)
	r.val = canon(r.raw)
	r.err = err != nil
	r.end = tok.index
	return
}

// ---- executable specification

type vspec struct {
	val map[string]any
	end int
	err bool
	why string
}

func vConv(cv, t string) (any, bool) {
	p := strings.Split(cv, ":")
	switch p[0] {
	case "str":
		if t == "" {
			return nil, true
		}
		return t, true
	case "float":
		f, err := strconv.ParseFloat(t, 64)
		return canonFloat(f), err == nil
	case "uint", "int":
		b, _ := strconv.Atoi(p[1])
		n, _ := strconv.Atoi(p[2])
		if p[0] == "uint" {
			v, err := strconv.ParseUint(t, b, n)
			if v == 0 {
				return nil, err == nil
			}
			return strconv.FormatUint(v, 10), err == nil
		}
		v, err := strconv.ParseInt(t, b, n)
		if v == 0 {
			return nil, err == nil
		}
		return strconv.FormatInt(v, 10), err == nil
	case "enum":
		for _, w := range vEnu[p[1]].Words {
			if w == t {
				return t, true
			}
		}
		return nil, false
	}
	panic(cv)
}

func vApp(m map[string]any, f string, v any) {
	l, _ := m[f].([]any)
	m[f] = append(append([]any{}, l...), v)
}
func vSet(m map[string]any, f string, v any) {
	if v == nil {
		delete(m, f)
	} else {
		m[f] = v
	}
}

func vOracle(p *vParser, toks []string, i int) vspec {
	s := vspec{val: map[string]any{}, end: i}
	n := len(toks)
	if p.Kind == "flag" {
		if p.EmptyErr && toks[i] == "" {
			s.err = true
			return s
		}
		for _, f := range p.Set {
			s.val[f] = "true"
		}
		return s
	}
	next := func() string {
		if s.end < n-1 {
			s.end++
		}
		return toks[s.end]
	}
	bad := func(w string) vspec { s.err = true; s.why = w; return s }
	first := true
	nested := func(fn string) (vres, bool) {
		r := vCall(fn, toks, s.end)
		if r.crash != "" {
			return r, false
		}
		if e := vEnu[fn]; e != nil {
			return r, !r.err
		}
		return r, !r.err
	}
	for {
		prev := s.end
		var t string
		if p.Kind == "file" {
			if !first {
				next()
			}
			first = false
			t = toks[s.end]
		} else {
			t = next()
		}
		var kw *vKw
		for q := range p.Kw {
			if p.Kw[q].Tok == t {
				kw = &p.Kw[q]
				break
			}
		}
		stop := func() vspec {
			for _, f := range p.OnEnd {
				s.val[f] = "true"
			}
			return s
		}
		if kw != nil {
			switch kw.Mode {
			case "str":
				t2 := next()
				if t2 == "" || vKey[t2] {
					return bad("parameter missing")
				}
				s.val[kw.F] = t2
				if kw.Flag != "" {
					s.val[kw.Flag] = "true"
				}
			case "enum":
				next()
				r, ok := nested(kw.Parser)
				if !ok {
					return bad("enum")
				}
				s.end = r.end
				vSet(s.val, kw.F, r.val)
				if kw.Flag != "" {
					s.val[kw.Flag] = "true"
				}
			default:
				fn := kw.Parser
				if kw.MtParser != "" && useMultithreading {
					fn = kw.MtParser
				}
				r, ok := nested(fn)
				if !ok {
					return bad("error in " + kw.Tok)
				}
				s.end = r.end
				switch kw.Mode {
				case "set":
					vSet(s.val, kw.F, r.val)
					if kw.Flag != "" {
						s.val[kw.Flag] = "true"
					}
				case "append":
					vApp(s.val, kw.F, r.val)
				case "map":
					m := map[string]any{}
					if o, ok := s.val[kw.F].(map[string]any); ok {
						for k, v := range o {
							m[k] = v
						}
					}
					m[fmt.Sprint(r.raw.FieldByName(kw.Key))] = []any{r.val}
					s.val[kw.F] = m
				}
			}
		} else if t == "" {
			if p.Kind == "file" {
				return s
			}
			return bad("end of input")
		} else if p.End != "" && t == p.End {
			if p.Default != nil && s.val[p.Default.Unless] == nil {
				s.val[p.Default.F] = p.Default.Value
			}
			return stop()
		} else if vIn(p.StopBefore, t) {
			s.end = prev
			return stop()
		} else if p.KwErr && vKey[t] {
			if p.KwStop {
				s.end = prev
				return stop()
			}
			return bad("keyword not allowed")
		} else if w := vPos(p, &s, t, next, nested); w != "" {
			return bad(w)
		}
		if p.Kind == "fixed" {
			all := true
			for _, it := range p.Items {
				if it.Flag != "" && s.val[it.Flag] == nil {
					all = false
				}
			}
			if all {
				return s
			}
		}
	}
}

func vIn(l []string, t string) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

func vPos(p *vParser, s *vspec, t string, next func() string, nested func(string) (vres, bool)) string {
	for _, it := range p.Items {
		flag := it.Flag
		if len(it.Row) > 0 && flag == "" {
			flag = it.Row[0].Flag
		}
		if it.Count != "" {
			open := false
			for _, r := range it.Row {
				if s.val[r.Flag] == nil {
					open = true
				}
			}
			if !open {
				continue
			}
		} else if flag != "" && s.val[flag] != nil {
			continue
		}
		switch {
		case it.Cat != "":
			o, _ := s.val[it.Cat].(string)
			s.val[it.Cat] = o + " " + t
		case it.List != "":
			v, ok := vConv(it.Conv, t)
			if !ok {
				return "unconvertible"
			}
			vApp(s.val, it.List, v)
		case it.Listn != "":
			v, ok := vConv(it.Conv, t)
			if !ok {
				return "unconvertible"
			}
			vApp(s.val, it.Listn, v)
			if len(s.val[it.Listn].([]any)) == it.N {
				s.val[it.Flag] = "true"
			}
		case len(it.Row) > 0:
			for n, r := range it.Row {
				if n > 0 {
					t = next()
					if t == "" || vKey[t] {
						return "parameter missing"
					}
				}
				v, ok := vConv(r.Conv, t)
				if !ok {
					return "unconvertible"
				}
				if r.List != "" {
					vApp(s.val, r.List, v)
				} else {
					m := map[string]any{}
					if o, ok := s.val[r.Arr].(map[string]any); ok {
						for k, v := range o {
							m[k] = v
						}
					}
					vSet(m, strconv.Itoa(r.I), v)
					s.val[r.Arr] = m
				}
			}
			if it.Count != "" {
				want := 0
				if w, ok := s.val[it.Count].(string); ok {
					want, _ = strconv.Atoi(w)
				}
				for _, r := range it.Row {
					l, _ := s.val[r.List].([]any)
					if len(l)%65536 == want {
						s.val[r.Flag] = "true"
					}
				}
			} else if it.Flag != "" {
				s.val[it.Flag] = "true"
			}
		case it.Parser != "":
			r, ok := nested(it.Parser)
			if !ok {
				return "nested"
			}
			s.end = r.end
			vSet(s.val, it.F, r.val)
			s.val[it.Flag] = "true"
		default:
			v, ok := vConv(it.Conv, t)
			if !ok {
				return "unconvertible"
			}
			vSet(s.val, it.F, v)
			if it.Flag != "" {
				s.val[it.Flag] = "true"
			}
		}
		return ""
	}
	return ""
}

// ---- generator

func pick(l []string) string { return l[vRnd.Intn(len(l))] }

func genTok(cv string, valid bool) string {
	p := strings.Split(cv, ":")
	if valid {
		switch p[0] {
		case "str":
			return pick([]string{"id" + strconv.Itoa(vRnd.Intn(50)), "a.b[3]", `"text with spaces"`, "0x4000", "77", "x", "name_" + strconv.Itoa(vRnd.Intn(5)), `""`, "INTERNAL_x", "SingleWord"})
		case "float":
			return pick([]string{"1.5", "-2", "0", "1e-3", "3.25e10", "7", "100.125", "-0.5", strconv.Itoa(vRnd.Intn(1000))})
		case "uint":
			if p[2] == "32" && vRnd.Intn(3) == 0 {
				return pick([]string{"65536", "4294967295", "100000"})
			}
			return pick([]string{"0", "1", "2", "3", "5", "65535", "300", strconv.Itoa(vRnd.Intn(1000) + 1)})
		case "int":
			return pick([]string{"0", "1", "-1", "-7", "12", "-32768", "32767", strconv.Itoa(vRnd.Intn(100) + 1)})
		case "enum":
			return pick(vEnu[p[1]].Words)
		}
	}
	return pick([]string{"-1", "65536", "4294967296", "1.5", "abc", "0x1F", "99999999999999999999", "NOWORD", "true", "1e999", "--", "", pick(vg.Keywords), "UBYTEX", "ubyte"})
}

func genElem(fn string, depth int) []string {
	if e := vEnu[fn]; e != nil {
		if e.Next {
			return []string{pick(e.Words)}
		}
		return nil
	}
	p := vPar[fn]
	if p == nil {
		return nil
	}
	return genParts(p, depth, nil)
}

func genItems(p *vParser, stopAfter int) []string {
	var r []string
	rows := 0
	for q, it := range p.Items {
		if stopAfter >= 0 && q >= stopAfter {
			break
		}
		switch {
		case it.Cat != "":
			for k := vRnd.Intn(4); k >= 0; k-- {
				r = append(r, genTok("str", true))
			}
		case it.List != "":
			for k := vRnd.Intn(5); k > 0; k-- {
				r = append(r, genTok(it.Conv, true))
			}
		case it.Listn != "":
			for k := 0; k < it.N; k++ {
				r = append(r, genTok(it.Conv, true))
			}
		case len(it.Row) > 0:
			n := 1
			if it.Count != "" {
				n = rows
			} else if it.Flag == "" {
				n = vRnd.Intn(4)
			}
			for k := 0; k < n; k++ {
				for _, c := range it.Row {
					r = append(r, genTok(c.Conv, true))
				}
			}
		case it.Parser != "":
			if e := vEnu[it.Parser]; e != nil && !e.Next {
				r = append(r, pick(e.Words))
			} else {
				for _, k := range vg.Keywords {
					_ = k
				}
				r = append(r, "x")
				r = append(r, genElem(it.Parser, 2)...)
			}
		default:
			t := genTok(it.Conv, true)
			for _, z := range p.Items {
				if z.Count == it.F && z.Count != "" {
					rows = vRnd.Intn(4)
					t = strconv.Itoa(rows)
				}
			}
			r = append(r, t)
		}
	}
	return r
}

func genKw(k vKw, depth int) []string {
	r := []string{k.Tok}
	switch k.Mode {
	case "str":
		return append(r, genTok("str", true))
	case "enum":
		if e := vEnu[k.Parser]; e != nil {
			return append(r, pick(e.Words))
		}
	}
	return append(r, genElem(k.Parser, depth+1)...)
}

func genParts(p *vParser, depth int, kws []vKw) []string {
	r := genItems(p, -1)
	if kws == nil {
		n := 0
		if len(p.Kw) > 0 {
			n = vRnd.Intn(4)
			if depth > 2 {
				n = vRnd.Intn(2)
			}
			if depth > 4 {
				n = 0
			}
		}
		for q := 0; q < n; q++ {
			kws = append(kws, p.Kw[vRnd.Intn(len(p.Kw))])
		}
	}
	for _, k := range kws {
		r = append(r, genKw(k, depth)...)
	}
	if p.End != "" {
		r = append(r, p.End)
	} else if len(p.StopBefore) > 0 {
		r = append(r, pick(p.StopBefore))
	} else if p.KwStop {
		r = append(r, pick(vg.Keywords))
	}
	return r
}

func vProps(p *vParser) (val, stop []string) {
	switch {
	case p.Kind == "fixed", p.Kind == "flag":
		return []string{"P07"}, []string{"P07"}
	case p.Fn == "parseModule" || p.Fn == "parseModPar":
		return []string{"P08", "P12"}, []string{"P09"}
	}
	return []string{"P08"}, []string{"P09"}
}

func vCheck(p *vParser, body []string) bool {
	if vDone {
		return false
	}
	vCount++
	toks := append([]string{"START"}, body...)
	if p.Kind == "file" {
		toks = append([]string{}, body...)
	}
	if len(toks) == 0 || toks[len(toks)-1] != "" {
		toks = append(toks, "")
	}
	for q := 0; q < len(toks)-1; q++ {
		if toks[q] == "" {
			toks[q] = "zz"
		}
	}
	cs := &vCase{Function: p.Fn, Tokens: toks}
	vCur.Store(cs)
	r := vCall(p.Fn, toks, 0)
	val, stop := vProps(p)
	report := func(props []string, what string, want any) {
		if vDone || !vIn(props, vProp) {
			return
		}
		cs.What, cs.Want, cs.Got = what, want, r.val
		cs.Cursor[0] = r.end
		vReport(cs)
	}
	if r.crash != "" {
		report([]string{"P10"}, "crash: "+r.crash, nil)
		if vIn(val, vProp) || vIn(stop, vProp) {
			s := vOracle(p, toks, 0)
			_ = s
			report(append(val, stop...), "crash: "+r.crash, nil)
		}
		return !vDone
	}
	if r.end < 0 || r.end >= len(toks) {
		report([]string{"P10"}, "cursor outside of the token list", nil)
		return !vDone
	}
	if vProp == "P10" {
		return true
	}
	s := vOracle(p, toks, 0)
	if len(body) < 40 {
		vDistinct[p.Fn+fmt.Sprint(s.err, len(s.val), s.end)] = true
	}
	switch {
	case s.err && !r.err:
		report(stop, "no error although "+s.why, "error")
	case !s.err && r.err:
		report(stop, "error for a valid element", s.val)
	case !s.err:
		cs.Cursor[1] = s.end
		var got any = r.val
		if got == nil {
			got = map[string]any{}
		}
		if !reflect.DeepEqual(got, any(s.val)) {
			report(val, "wrong content", vDiff(got.(map[string]any), s.val))
		}
		if r.end != s.end {
			report(append(val, stop...), "wrong number of tokens consumed", s.val)
		}
	}
	return !vDone
}

// vTwice: two blocks of a kind with the same name, either of them cut short
func vTwice(p *vParser) {
	name := ""
	if p.Kind != "file" {
		name = "N"
	}
	for _, k := range p.Kw {
		e := vPar[k.Parser]
		if e == nil || e.End == "" {
			continue
		}
		for q := 0; q <= len(e.Items); q++ {
			for z := 0; z < 4 && !vDone; z++ {
				mk := func(stop int, name string) []string {
					b := genItems(e, stop)
					if len(b) > 0 {
						b[0] = name
					}
					return append(append([]string{k.Tok}, b...), e.End)
				}
				a, b := mk(-1, "U"), mk(q, []string{"U", "U", "u", "V"}[z])
				if vRnd.Intn(2) == 0 {
					a, b = b, a
				}
				body := []string{name, "l"}
				if name == "" {
					body = nil
				}
				body = append(append(body, a...), b...)
				if z%2 == 0 {
					body = append(body, mk(q, "U")...)
				}
				if p.End != "" {
					body = append(body, p.End)
				}
				vCheck(p, append(body, vTail()...))
			}
		}
	}
}

func vDiff(got, want map[string]any) any {
	d := map[string]any{}
	for k := range got {
		if !reflect.DeepEqual(got[k], want[k]) {
			d[k] = want[k]
		}
	}
	for k := range want {
		if !reflect.DeepEqual(got[k], want[k]) {
			d[k] = want[k]
		}
	}
	return d
}

func vTail() []string {
	return [][]string{{}, {"zz", "1"}, {"/end MODULE"}, {"5", "5"}}[vRnd.Intn(4)]
}

func vParserCases(p *vParser, n int) {
	if vTable[p.Fn] == nil {
		return
	}
	run := func(b []string) bool { return vCheck(p, b) }
	end := []string{}
	if p.End != "" {
		end = []string{p.End}
	} else if len(p.StopBefore) > 0 {
		end = []string{p.StopBefore[0]}
	}
	cat := func(l ...[]string) []string {
		var r []string
		for _, x := range l {
			r = append(r, x...)
		}
		return r
	}
	// every keyword alone, twice, before the items, and with an error behind it
	for _, k := range p.Kw {
		for q := 0; q < 2; q++ {
			run(cat(genItems(p, -1), genKw(k, 1), end, vTail()))
			run(cat(genItems(p, -1), genKw(k, 1), genKw(k, 1), end, vTail()))
		}
		run(cat(genKw(k, 1), genItems(p, -1), end))
		run(cat(genItems(p, 1), genKw(k, 1), genItems(p, -1), end))
		b := cat(genItems(p, -1), genKw(k, 1))
		run(b)
		run(append(append([]string{}, b[:len(b)-1]...), "$bad", p.End))
		run(cat(genItems(p, -1), []string{k.Tok}))
		run(cat(genItems(p, -1), []string{k.Tok, pick(vg.Keywords)}, end))
	}
	// every keyword of the language
	for _, k := range vg.Keywords {
		run(cat(genItems(p, -1), []string{k, "1", "2", "3"}, end))
	}
	for _, k := range []string{"/end MODULE", "/end PROJECT", "/end CHARACTERISTIC", "/end IF_DATA", "READ_ONLY", "READ_WRITE", "/end", "/begin FOO"} {
		run(cat(genItems(p, -1), []string{k}, end))
	}
	// every enumeration word in every place
	for q, it := range p.Items {
		if strings.HasPrefix(it.Conv, "enum:") {
			for _, w := range vEnu[it.Conv[5:]].Words {
				b := genItems(p, q)
				run(cat(b, []string{w}, cat(genItems(p, -1))[vMin(len(b)+1, len(genItems(p, -1))-1):], end))
				c := genItems(p, -1)
				if len(b) < len(c) {
					c[len(b)] = w
				}
				run(cat(c, end, vTail()))
			}
		}
	}
	base := cat(genParts(p, 0, nil))
	for q := 0; q <= len(base); q++ {
		run(base[:q])
	}
	for c := 0; c < 3; c++ {
		base = genItems(p, -1)
		base = append(base, end...)
		for q := range base {
			for z := 0; z < 4; z++ {
				b := append([]string{}, base...)
				b[q] = genTok("str", false)
				run(cat(b, vTail()))
			}
			run(cat(base[:q], []string{"surplus"}, base[q:], vTail()))
			run(cat(base[:q], base[q+1:], vTail()))
		}
	}
	for q := 0; q < n && !vDone; q++ {
		b := genParts(p, 0, nil)
		switch vRnd.Intn(6) {
		case 0:
			if len(b) > 0 {
				b = b[:vRnd.Intn(len(b))]
			}
		case 1, 2:
			if len(b) > 0 {
				b[vRnd.Intn(len(b))] = genTok("str", false)
			}
		case 3:
			if len(b) > 0 {
				k := vRnd.Intn(len(b))
				b = cat(b[:k], []string{genTok("str", vRnd.Intn(2) == 0)}, b[k:])
			}
		}
		run(cat(b, vTail()))
	}
}

func TestVerifA2L(t *testing.T) {
	vLoad(t)
	useMultithreading = false
	n := 30
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 600
	}
	if vIn([]string{"P07", "P08", "P09"}, vProp) {
		for _, k := range vg.Keywords {
			vCount++
			if !isKeyword(k) {
				vReport(&vCase{Function: "isKeyword", What: "keyword not recognised", Tokens: []string{k}})
			}
		}
		for _, k := range []string{"", "abc", "READ_ONLYX", "/begin", "/end", "CURVE_", "x", "0"} {
			if isKeyword(k) {
				vReport(&vCase{Function: "isKeyword", What: "taken for a keyword", Tokens: []string{k}})
			}
		}
	}
	// the functions of the failed obligations first
	focus := strings.Split(os.Getenv("VERIF_FOCUS"), ",")
	var order []*vParser
	for _, p := range vg.Parsers {
		if vIn(focus, p.Fn) {
			order = append(order, p)
		}
	}
	for _, p := range order {
		vParserCases(p, 20*n)
		if vDone {
			break
		}
	}
	for _, p := range vg.Parsers {
		if vDone {
			break
		}
		val, stop := vProps(p)
		if vIn(val, vProp) || vIn(stop, vProp) || vProp == "P10" {
			vParserCases(p, n)
		}
	}
	if vProp == "P12" || vProp == "P08" {
		for _, f := range []string{"parseModule", "parseModPar", "parseProject"} {
			if p := vPar[f]; p != nil {
				vTwice(p)
			}
		}
	}
	if vIn([]string{"P07", "P11", "P10"}, vProp) {
		vEnumCases()
	}
	if vProp == "P11" {
		vWidths()
	}
	if vProp == "P13" {
		vModPar(5 * n)
	}
	if vProp == "P23" || vProp == "P24" {
		vTokens(8 * n)
	}
	if vProp == "P25" {
		vFiles(8 * n)
	}
	vCur.Store(nil)
	keys := make([]string, 0)
	for k := range vDistinct {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("VERIF-DONE cases=%d distinct=%d found=%v\n", vCount, len(keys), vDone)
}

func vEnumCases() {
	var words []string
	for _, e := range vg.Enums {
		words = append(words, e.Words...)
	}
	words = append(words, "", "x", "ubyte", "NONE", "UBYTE ", "0")
	words = append(words, vg.Keywords...)
	for _, e := range vg.Enums {
		if vTable[e.Fn] == nil {
			continue
		}
		for _, w := range words {
			vCount++
			toks := []string{w, ""}
			if e.Next {
				toks = []string{"K", w, ""}
			}
			cs := &vCase{Function: e.Fn, Tokens: toks}
			vCur.Store(cs)
			r := vCall(e.Fn, toks, 0)
			ok := vIn(e.Words, w)
			switch {
			case r.crash != "":
				cs.What = "crash " + r.crash
			case ok && r.err:
				cs.What = "word of the enumeration rejected"
			case !ok && !r.err:
				cs.What = "word outside of the enumeration accepted"
			case ok && r.val != any(w):
				cs.What = "word mapped to another constant"
				cs.Got = r.val
			}
			if vProp == "P10" && r.crash == "" {
				continue
			}
			if cs.What != "" {
				vReport(cs)
				return
			}
		}
	}
}
