package a2l

import "strings"

// the lexical rules in executable form

func vRules(text string) (toks []string, modules int) {
	text = strings.ReplaceAll(text, `\"`, `'`)
	type word struct {
		s    string
		line int
	}
	var w []word
	for n, l := range strings.Split(text, "\n") {
		for _, s := range strings.Fields(l) {
			w = append(w, word{s, n})
		}
	}
	first := func(s string, a string, o ...string) bool {
		p := strings.Index(s, a)
		if p < 0 {
			return false
		}
		for _, x := range o {
			if q := strings.Index(s, x); q >= 0 && q < p {
				return false
			}
		}
		return true
	}
	for p := 0; p < len(w); {
		s := w[p].s
		tok := ""
		switch {
		case first(s, `"`, "//", "/*"):
			for e := p; ; e++ {
				if e == len(w) {
					return
				}
				if e > p {
					tok += " "
				}
				tok += w[e].s
				if strings.Count(tok, `"`)%2 == 0 {
					p = e + 1
					break
				}
			}
		case first(s, "//", `"`, "/*"):
			l := w[p].line
			for p < len(w) && w[p].line == l {
				p++
			}
			continue
		case first(s, "/*", `"`, "//"):
			if strings.Contains(s[strings.Index(s, "/*")+2:], "*/") {
				p++
				continue
			}
			e := p + 1
			for e < len(w) && !strings.Contains(w[e].s, "*/") {
				e++
			}
			if e == len(w) {
				return
			}
			p = e + 1
			continue
		case strings.Contains(s, "/") && !strings.Contains(s, "*/"):
			if !strings.Contains(s, "/begin") && !strings.Contains(s, "/end") || p+1 == len(w) {
				return
			}
			tok = s + " " + w[p+1].s
			p += 2
		default:
			tok = s
			p++
		}
		if tok == "/begin MODULE" {
			modules++
		}
		toks = append(toks, tok)
	}
	return
}
