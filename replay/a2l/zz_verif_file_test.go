package a2l

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode"
)

// whole files against the lexical rules and the grammar

func vFile(text string) bool {
	if vDone {
		return false
	}
	vCount++
	f := filepath.Join(os.Getenv("VERIF_TMP"), "case.a2l")
	if os.WriteFile(f, []byte(text), 0o644) != nil {
		return false
	}
	clean := strings.TrimFunc(regexp.MustCompile(`\\.`).ReplaceAllLiteralString(text, ""), func(r rune) bool { return !unicode.IsGraphic(r) })
	toks, mods := vRules(clean)
	toks = append(append([]string{}, toks...), "")
	useMultithreading = false
	s := vOracle(vPar["parseA2l"], toks, 0)
	cs := &vCase{Function: "ParseFromFile", Input: text}
	vCur.Store(cs)
	b, _ := json.Marshal(cs)
	os.WriteFile(os.Getenv("VERIF_OUT")+".cur", b, 0o644)
	tokenList, useMultithreading = nil, mods <= 1
	a, err := ParseFromFile(f)
	useMultithreading = false
	vDistinct[fmt.Sprint(s.err, len(toks), mods)] = true
	got, _ := canon(reflect.ValueOf(a)).(map[string]any)
	switch {
	case s.err && err == nil:
		cs.What, cs.Want = "no error although the file does not parse: "+s.why, "error"
	case !s.err && err != nil:
		cs.What, cs.Got = "error for a valid file", err.Error()
	case !s.err && !reflect.DeepEqual(any(got), any(s.val)) && len(got)+len(s.val) > 0:
		cs.What, cs.Want, cs.Got = "the content is not that of the file", vDiff(got, s.val), vDiff(s.val, got)
	default:
		return true
	}
	vReport(cs)
	return false
}

func vFiles(n int) {
	p := vPar["parseModule"]
	if p == nil || vPar["parseA2l"] == nil {
		return
	}
	for _, f := range []string{"", filepath.Join(os.Getenv("VERIF_TMP"), "missing.a2l"), os.Getenv("VERIF_TMP")} {
		vCount++
		if _, err := ParseFromFile(f); err == nil {
			vReport(&vCase{Function: "ParseFromFile", What: "no error for a file that cannot be read", Input: f})
			return
		}
	}
	seps := []string{" ", "\n", "\n\n", "\t", "\r\n", " // c\n", " /* c\nd */ "}
	join := func(toks []string) string {
		var s strings.Builder
		for _, t := range toks {
			s.WriteString(t)
			s.WriteString(pick(seps))
		}
		return s.String()
	}
	module := func(i, m int) []string {
		r := []string{"/begin MODULE", "m" + strconv.Itoa(i), `"long identifier"`}
		seen := map[string]bool{}
		for q := 0; q < m; q++ {
			k := p.Kw[vRnd.Intn(len(p.Kw))]
			if k.Mode != "map" {
				if seen[k.Tok] {
					continue
				}
				seen[k.Tok] = true
			}
			r = append(r, vBlock(k, "N"+strconv.Itoa(q))...)
		}
		return append(r, "/end MODULE")
	}
	for _, t := range []string{"", " ", "x", "/begin PROJECT", "/begin PROJECT p", "ASAP2_VERSION 1 61", "ASAP2_VERSION 1", "ASAP2_VERSION x 1", "A2ML_VERSION 1 31", "/begin PROJECT p l /end PROJECT", "\ufeff/begin PROJECT p l /end PROJECT\n\x00\x1a",
		"/begin PROJECT p \"a\\\"b\" /end PROJECT", "/begin PROJECT p\\q l /end PROJECT", "/begin MODULE m l /end MODULE", "/begin PROJECT p l /end MODULE", "/begin PROJECT p \"l", "/begin PROJECT p l /* /end PROJECT", "x /begin PROJECT p l /end PROJECT y", "ADDR_EPK", "x ADDR_EPK", "\u00a0a \u200b", "/begin PROJECT p l /end PROJECT \\"} {
		if !vFile(t) {
			return
		}
	}
	// words at the ends that are keywords but for one character, escapes at line ends
	for _, c := range "+€$^~-_.,;:!?#%&()[]{}<>|'`=@´0aÄ\u0301\u00a0\u00ad\u200b\u2028\u3000\ue000\ufeff\x00\x07\x7f\t\r\n" {
		if !vFile(string(c)+"ADDR_EPK\n/begin PROJECT p l /end PROJECT") || !vFile("/begin PROJECT p l /end PROJECT ADDR_EPK"+string(c)) || !vFile("/begin PROJECT p"+string(c)+"q l /end PROJECT") || !vFile("/begin PROJECT p\\"+string(c)+"q l /end PROJECT") {
			return
		}
	}
	for q := 0; q < n && !vDone; q++ {
		var r []string
		if vRnd.Intn(2) > 0 {
			r = append(r, "ASAP2_VERSION", "1", "61")
		}
		if vRnd.Intn(3) == 0 {
			r = append(r, "A2ML_VERSION", "1", "31")
		}
		r = append(r, "/begin PROJECT", "p", `"long"`)
		m := vRnd.Intn(4)
		if vRnd.Intn(2) == 0 {
			m = 2
		}
		for i := 0; i < m; i++ {
			r = append(r, module(i, vRnd.Intn(12))...)
		}
		r = append(r, "/end PROJECT")
		if m == 2 { // one worker: every change has a defined outcome
			switch vRnd.Intn(6) {
			case 0:
				r = r[:vRnd.Intn(len(r))]
			case 1:
				r[vRnd.Intn(len(r))] = genTok("str", false)
			case 2:
				r[vRnd.Intn(len(r))] = pick(vg.Keywords)
			case 3:
				r[vRnd.Intn(len(r))] = `a\"b`
			}
		}
		t := join(r)
		switch vRnd.Intn(8) {
		case 0:
			t = "\ufeff" + t
		case 1:
			t += "\x00\x00"
		}
		vFile(t)
	}
}
