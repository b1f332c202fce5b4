package a2l

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strings"
)

// the tokenizer against an executable form of the lexical rules

var vRace = os.Getenv("VERIF_RACE") != ""

func vText(text string, procs int) bool { return vTextAs(text, text, procs) }

func vTextAs(name, text string, procs int) bool {
	if vDone {
		return false
	}
	vCount++
	want, mods := vRules(text)
	want = append(append([]string{}, want...), "")
	numProc = procs
	cs := &vCase{Function: "buildTokenGeneratorFromString", Input: map[string]any{"text": name, "workers": procs}}
	if vCur.Store(cs); name != text {
		vCur.Store(nil)
	}
	b, _ := json.Marshal(cs)
	os.WriteFile(os.Getenv("VERIF_OUT")+".cur", b, 0o644)
	tokenList, useMultithreading = nil, mods > 1
	tg, err := buildTokenGeneratorFromString(text)
	vDistinct[fmt.Sprint(len(want), mods)] = true
	report := func(what string, want, got any) bool {
		cs.What, cs.Want, cs.Got = what, want, got
		vReport(cs)
		return false
	}
	switch {
	case err != nil:
		return report("error", nil, err.Error())
	case !reflect.DeepEqual(append([]string{}, tokenList...), want):
		i := 0
		for i < len(want) && i < len(tokenList) && want[i] == tokenList[i] {
			i++
		}
		cut := func(l []string) []string {
			e := i + 30
			if e > len(l) {
				e = len(l)
			}
			return append([]string{}, l[i:e]...)
		}
		return report(fmt.Sprint("other tokens, from token ", i, " on"), cut(want), cut(tokenList))
	case useMultithreading != (mods <= 1):
		return report(fmt.Sprint("parsed in parallel although the text has ", mods, " modules, or the other way round"), mods <= 1, useMultithreading)
	case tg.current() != want[0]:
		return report("the first token is not the current one", want[0], tg.current())
	}
	return true
}

func vTokens(n int) {
	old := numProc
	defer func() { numProc = old }()
	words := []string{"a", "b", "12", "MODULE", "PROJECT", "UNIT", `"x"`, `"x`, `y"`, `""`, `"`, `a"b`, `"a""b"`, `"a"b"`, "//", "//c", "c//", `//"`, `"//"`, `"//`, "/*", "*/", "/*c*/", "/*/", "/*//", "//*", `/*"`, `"/*"`, `"*/`, `*/"`,
		"/**/", "c*/", "*/c", "/begin", "/end", "x/begin", "/begin/", "/beginx", "x/y", "/", `\"`, `\"x`, `"\"`, "/*/*/", "/**", "**/", "0x12", ".", "a*b", `\`}
	kw := []string{"/begin MODULE", "/end MODULE", "/begin UNIT u", "/end UNIT", "/begin\nMODULE", "/* c\nc */", `"t t"`, "\"t\nt\"", "// c d", "a b c"}
	procs := []int{1, 2, 3, 4, 5, 7, 8, 16}
	sep := []string{" ", " ", " ", "\n", "\n", "\n\n", "\t", " \r\n", "\n \n", " ", "\v"}
	for _, t := range []string{"", "\n", " ", "a", "/", "\"", "//", "/*", "/begin", "\"\\\"\"", "a\nb\nc\nd\ne\nf\ng\nh\ni\nj"} {
		for _, p := range procs {
			if !vText(t, p) {
				return
			}
		}
	}
	// each word alone, and in pairs
	for _, a := range words {
		if !vText("p\n"+a+" q\nr", 1) || !vText("p\n"+a+"\nq s\nr", 2) || !vText("p "+a, 1) || !vText(a, 3) {
			return
		}
	}
	if os.Getenv("VERIF_TIER") == "thorough" && !vRace {
		// long texts: different words, more than the buffers expect
		var s strings.Builder
		lines := 2600000
		for i := 0; i < lines; i++ {
			fmt.Fprint(&s, "w", i, "\n")
		}
		for _, p := range []int{2, 8} {
			if !vTextAs(fmt.Sprint("the lines w0 to w", lines-1), s.String(), p) {
				return
			}
		}
		if !vTextAs("w and 3100000 times /begin MODULE", "w\n"+strings.Repeat("/begin MODULE ", 3100000), 3) {
			return
		}
	}
	for q := 0; q < n; q++ {
		m := vRnd.Intn(14)
		var s strings.Builder
		calm := vRnd.Intn(3) > 0
		for i := 0; i < m; i++ {
			if calm && vRnd.Intn(4) > 0 {
				s.WriteString(kw[vRnd.Intn(len(kw))])
			} else {
				s.WriteString(words[vRnd.Intn(len(words))])
			}
			s.WriteString(sep[vRnd.Intn(len(sep))])
		}
		if !vText(s.String(), procs[vRnd.Intn(len(procs))]) {
			return
		}
	}
}
