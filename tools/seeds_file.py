import sys
sys.path.insert(0,'/verif/tools')
from seedlib import seed
H='''package a2l

import (
	"os"
	"path/filepath"
	"testing"
)

func demoFile(t *testing.T, text string) string {
	f := filepath.Join(os.Getenv("DEMO_TMP"), "x.a2l")
	if os.WriteFile(f, []byte(text), 0o644) != nil {
		t.Fatal("no scratch file")
	}
	return f
}

'''
seed('file-trim-space','P25',[('a2l/a2l.go','''		return !unicode.IsGraphic(r)
''','''		return !unicode.IsGraphic(r) || unicode.IsMark(r) || unicode.IsSymbol(r)
''')],'a2l',H+'''func TestDemo(t *testing.T) {
	a, err := ParseFromFile(demoFile(t, "+ADDR_EPK\\n/begin PROJECT P l /end PROJECT\\n"))
	if err != nil || a.Project.Name != "P" {
		t.Fatal(err, "a word that is no keyword is skipped")
	}
}
''','a file that begins or ends with a symbol','symbols at the ends of the file are dropped')
seed('file-partial-version','P25',[('a2l/a2l.go','''	a, err = parseA2l(&tg)
	if err != nil {
		log.Err(err).Msg("failed parsing with error:")
		return a, err
	}
''','''	a, err = parseA2l(&tg)
	if err != nil && len(a.Project.Modules) == 0 {
		log.Err(err).Msg("failed parsing with error:")
		return a, err
	}
''')],'a2l',H+'''func TestDemo(t *testing.T) {
	_, err := ParseFromFile(demoFile(t, "/begin PROJECT P l\\n/begin MODULE M l\\n/end MODULE\\n/begin MODULE N l\\n/end MODULE\\n/end PROJECT\\nADDR_EPK x"))
	if err == nil {
		t.Fatal("broken file accepted")
	}
	_, err = ParseFromFile(demoFile(t, "/begin PROJECT P l\\n/begin MODULE M l\\n/end MODULE\\n/begin MODULE N l\\n/end MODULE\\n ADDR_EPK /end PROJECT\\n"))
	if err == nil {
		t.Fatal("broken file accepted")
	}
	a, err := ParseFromFile(demoFile(t, "/begin PROJECT P l\\n/begin MODULE M l\\n/end MODULE\\n/end PROJECT"))
	if err != nil || len(a.Project.Modules) != 1 {
		t.Fatal(err)
	}
}
''','a file that is broken behind its first complete module','the broken file is accepted with the modules read so far')
seed('file-escape-line','P25',[('a2l/a2l.go','re := regexp.MustCompile(`\\\\.`)','re := regexp.MustCompile(`(?s)\\\\.`)')],'a2l',H+'''func TestDemo(t *testing.T) {
	a, err := ParseFromFile(demoFile(t, "/begin PROJECT P\\\\\\nl /end PROJECT"))
	if err != nil || a.Project.Name != "P\\\\" {
		t.Fatal(err, a.Project.Name)
	}
}
''','a backslash at the end of a line','the line end behind a backslash is lost and two words become one')
