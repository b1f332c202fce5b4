import sys; sys.path.insert(0,'/verif/tools')
from seedlib import seed
only=sys.argv[1:]
def S(id,*a):
    if not only or id in only: seed(id,*a)
H='''package a2l

import (
	"fmt"
	"testing"
	"time"
)

var _ = fmt.Sprint

func demoMod(t *testing.T, procs int, body []string) (m Module, err error) {
	old := numProc
	numProc = procs
	defer func() { numProc = old }()
	tokenList = append(append([]string{"/begin MODULE", "m", "\\"text\\""}, body...), "/end MODULE", "/end PROJECT", "")
	done := make(chan bool, 1)
	go func() {
		tok := newTokenGenerator()
		m, err = parseModuleMultithreaded(&tok)
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		t.Fatal("the parser does not return")
	}
	return
}

func demoUnit(n string) []string {
	return []string{"/begin UNIT", n, "\\"text\\"", "\\"m\\"", "DERIVED", "/end UNIT"}
}

func demoVtab(n string) []string {
	return []string{"/begin COMPU_VTAB", n, "\\"text\\"", "TAB_VERB", "1", "1", "\\"on\\"", "/end COMPU_VTAB"}
}

func demoTab(n string) []string {
	return []string{"/begin COMPU_TAB", n, "\\"text\\"", "TAB_NOINTP", "1", "1", "2", "/end COMPU_TAB"}
}

'''
S('mod-vtab-rows','P13',[('a2l/module.go','''			myModule.CompuVTabRanges[elem.Name] = elem
		}
		log.Info().Msg("collected compuVtabRanges")''','''			if elem.NumberValueTriples == 0 && len(elem.OutVal) == 0 {
				continue
			}
			myModule.CompuVTabRanges[elem.Name] = elem
		}
		log.Info().Msg("collected compuVtabRanges")''')] ,'a2l',H+'''func TestDemo(t *testing.T) {
	m, err := demoMod(t, 2, []string{"/begin COMPU_VTAB_RANGE", "r", "\\"text\\"", "0", "DEFAULT_VALUE", "\\"x\\"", "/end COMPU_VTAB_RANGE"})
	if err != nil || len(m.CompuVTabRanges) != 1 {
		t.Fatal(err, len(m.CompuVTabRanges))
	}
}
''','a verbal range table without rows but with a default value','the table is missing in the module')
S('mod-close-early','P13',[('a2l/module.go','''	log.Info().Msg("waiting for the parsers to finish")
	wg.Wait()
	close(cError)
''','''	log.Info().Msg("waiting for the parsers to finish")
	close(cModPar)
	wg.Wait()
	close(cError)
'''),('a2l/module.go','''	close(cModCommon)
	close(cModPar)
''','''	close(cModCommon)
'''),('a2l/module.go','''			cModPar <- bufModPar
''','''			func() {
				defer func() { _ = recover() }()
				cModPar <- bufModPar
			}()
''')],'a2l',H+'''func TestDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		var b []string
		for k := 0; k < 2000; k++ {
			b = append(b, demoUnit(fmt.Sprint("u", k))...)
		}
		b = append(b, "/begin MOD_PAR", "\\"text\\"", "EPK", "\\"e\\"", "/end MOD_PAR")
		m, err := demoMod(t, 2, b)
		if err != nil || len(m.Units) != 2000 || m.ModPar.comment != "\\"text\\"" {
			t.Fatal(err, len(m.Units), m.ModPar.comment)
		}
	}
}
''','the parser reaches MOD_PAR after the closing goroutine has run (schedule)','the MOD_PAR block is lost')
S('mod-err-select','P13',[('a2l/module.go','cError := make(chan error, numProc)','cError := make(chan error)'),('a2l/module.go','''				log.Err(err).Msg("module unit could not be parsed")
				cError <- err
				break forLoop
			}
			cUnit <- bufUnit''','''				log.Err(err).Msg("module unit could not be parsed")
				select {
				case cError <- err:
				default:
				}
				break forLoop
			}
			cUnit <- bufUnit''')],'a2l',H+'''func TestDemo(t *testing.T) {
	b := []string{"/begin UNIT", "u", "\\"text\\"", "\\"m\\"", "NOTYPE", "/end UNIT"}
	for i := 0; i < 3000; i++ {
		if _, err := demoMod(t, 1+i%8, b); err == nil {
			t.Fatal("no error in round", i)
		}
	}
}
''','the parser fails before the collector of the errors waits (schedule)','the error of a unit is lost and an incomplete module is accepted')
