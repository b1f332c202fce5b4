import sys; sys.path.insert(0,'/verif/tools')
from seedlib import seed
only=sys.argv[1:]
def S(id,*a):
    if not only or id in only: seed(id,*a)
F='a2l/token_generator.go'
H='''package a2l

import (
	"reflect"
	"testing"
	"strings"
	"time"
)

var _ = strings.Repeat

func demoToks(t *testing.T, procs int, text string) []string {
	old := numProc
	numProc = procs
	defer func() { numProc = old }()
	done := make(chan bool, 1)
	go func() {
		buildTokenGeneratorFromString(text)
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("no end")
	}
	return tokenList
}

func demoWant(t *testing.T, procs int, text string, want ...string) {
	if got := demoToks(t, procs, text); !reflect.DeepEqual(got, append(want, "")) {
		t.Fatalf("%q with %d workers: %q", text, procs, got)
	}
}

'''
S('tok-remainder','P23',[(F,'''		if i+1 == numProc {
			//integer divisions''','''		if i+1 == numProc && len(lines)-end != 1 {
			//integer divisions''')],'a2l',H+'''func TestDemo(t *testing.T) {
	demoWant(t, 2, "a\\nb\\nc d\\n", "a", "b", "c", "d")
	demoWant(t, 2, "a\\nb\\nc d", "a", "b", "c", "d")
	demoWant(t, 3, "a\\nb\\nc d\\ne", "a", "b", "c", "d", "e")
}
''','the number of lines leaves the remainder 1 and the last line is not blank','the last line of the text is dropped')
S('tok-quote-end','P24',[(F,'''			numQuot = strings.Count(textInQuotationMarks, quotationMarkToken)
			if numQuot%2 == 0 {''','''			numQuot = strings.Count(t, quotationMarkToken)
			if numQuot == 1 {''')],'a2l',H+'''func TestDemo(t *testing.T) {
	demoWant(t, 1, "\\"a b\\" c", "\\"a b\\"", "c")
	demoWant(t, 1, "\\"a b\\"c\\"\\" d", "\\"a b\\"c\\"\\"", "d")
}
''','a text of several words ends in a word with three quotation marks','the text goes on to the end of the file')
S('tok-module-race','P23',[(F,'atomic.AddUint32(&moduleCount, 1)','''if moduleCount < 2 {
						moduleCount++
					}'''),(F,'''	"sync/atomic"
''','')],'a2l',H+'''func TestDemo(t *testing.T) {
	// two modules at the end of equally long parts
	part := strings.Repeat("a b c d e f\\n", 100) + "/begin MODULE\\n"
	for i := 0; i < 20; i++ {
		demoToks(t, 2, part+part)
		if moduleCount != 2 || useMultithreading {
			t.Fatal(moduleCount, useMultithreading)
		}
	}
}
''','two workers reach a /begin MODULE at the same moment','a module is not counted, the file with two modules is parsed in parallel','-race ')
S('tok-comment-end','P24',[(F,'''			if strings.Contains(t, endMultilineCommentToken) {
				t, err''','''			if strings.HasSuffix(t, endMultilineCommentToken) {
				t, err''')],'a2l',H+'''func TestDemo(t *testing.T) {
	demoWant(t, 1, "a /* b */ c", "a", "c")
	demoWant(t, 1, "a /* b */, c d", "a", "c", "d")
}
''','the word that ends a block comment goes on behind the end mark','the comment swallows what follows')
S('tok-last-line','P24',[(F,'''		if *currentOuterIndex < len(str)-1 {
			*currentOuterIndex++
			*currentInnerIndex = 0
			return''','''		if *currentOuterIndex < len(str)-1 {
			*currentOuterIndex++
			*currentInnerIndex = 0
			for *currentOuterIndex < len(str)-1 && str[*currentOuterIndex][0] == beginLineCommentToken {
				*currentOuterIndex += 2
			}
			if *currentOuterIndex >= len(str) {
				*currentOuterIndex = len(str) - 1
			}
			return''')],'a2l',H+'''func TestDemo(t *testing.T) {
	demoWant(t, 1, "// c\\na b\\n", "a", "b")
	demoWant(t, 1, "// c\\n// c\\na b\\nc\\n", "a", "b", "c")
}
''','two line comments one below the other','the line behind them is dropped')
S('tok-order','P23',[(F,'''		c := make(chan tokenPart, 1)
		locTokens = append(locTokens, c)
		go tokenBuilderRoutine(lines[start:end], c)''','''		c := make(chan tokenPart, 1)
		if end-start > 1000000/numProc {
			locTokens = append([]chan tokenPart{c}, locTokens...)
		} else {
			locTokens = append(locTokens, c)
		}
		go tokenBuilderRoutine(lines[start:end], c)''')],'a2l',H+'''func TestDemo(t *testing.T) {
	demoWant(t, 2, "a\\nb\\n", "a", "b")
	got := demoToks(t, 2, "first\\n"+strings.Repeat("a\\n", 1100000)+"last\\n")
	if got[0] != "first" {
		t.Fatal(got[0])
	}
}
''','a text of more than a million lines','the parts of the text change places')
