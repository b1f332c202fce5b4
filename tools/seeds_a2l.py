import sys; sys.path.insert(0,'/verif/tools')
from seedlib import seed
H='package a2l\n\nimport "testing"\n\nfunc demoTok(t ...string) *tokenGenerator {\n\ttokenList = t\n\treturn &tokenGenerator{}\n}\n\n'
seed('a2l-group-subgroup','P08',[('a2l/group.go','			g.annotation = append(g.annotation, buf)','			if len(g.annotation) > 0 && g.annotation[len(g.annotation)-1].annotationLabel == buf.annotationLabel {\n				g.annotation[len(g.annotation)-1] = buf\n			} else {\n				g.annotation = append(g.annotation, buf)\n			}')],'a2l',
H+'''func TestDemo(t *testing.T) {
	a := []string{"/begin GROUP", "N", "L"}
	for i := 0; i < 3; i++ {
		a = append(a, "/begin ANNOTATION", "ANNOTATION_ORIGIN", "o", "/end ANNOTATION")
	}
	a = append(a, "/end GROUP", "")
	g, err := parseGroup(demoTok(a...))
	if err != nil || len(g.annotation) != 3 {
		t.Fatal(err, len(g.annotation))
	}
}
''','two consecutive annotations of a group with the same (or no) label','the second annotation replaces the first instead of being appended')
seed('a2l-axispardist-range','P07',[('a2l/fix_axis_par_dist.go','''			var buf int64
			buf, err = strconv.ParseInt(tok.current(), 10, 16)
			if err != nil {
				log.Err(err).Msg("fixAxisParDist distance could not be parsed")''','''			var buf int64
			buf, err = strconv.ParseInt(tok.current(), 10, 32)
			if err != nil {
				log.Err(err).Msg("fixAxisParDist distance could not be parsed")''')],'a2l',
H+'''func TestDemo(t *testing.T) {
	v, err := parseFixAxisParDist(demoTok("FIX_AXIS_PAR_DIST", "0", "40000", "3", ""))
	if err == nil && int(v.distance) != 40000 {
		t.Fatal("silently truncated to", v.distance)
	}
	v, err = parseFixAxisParDist(demoTok("FIX_AXIS_PAR_DIST", "0", "-4", "3", ""))
	if err != nil || v.distance != -4 {
		t.Fatal(err, v)
	}
}
''','a distance outside of the 16 bit range','the distance is silently truncated instead of rejected')
seed('a2l-annotation-eof','P09',[('a2l/annotation_text.go','''		} else if isKeyword(tok.current()) {
			err''','''		} else if isKeyword(tok.current()) && at.annotationText == emptyToken {
			err''')],'a2l',
H+'''func TestDemo(t *testing.T) {
	_, err := parseAnnotationText(demoTok("/begin ANNOTATION_TEXT", "some", "text", "/end ANNOTATION", "x", "/end ANNOTATION_TEXT", ""))
	if err == nil {
		t.Fatal("foreign end marker accepted")
	}
	_, err = parseAnnotationText(demoTok("/begin ANNOTATION_TEXT", "some", "text", "/end ANNOTATION_TEXT", ""))
	if err != nil {
		t.Fatal(err)
	}
}
''','a keyword inside an annotation text behind at least one word','a block is no longer rejected for a keyword that is not allowed in it')
seed('a2l-slong-type','P11',[('a2l/enums.go','''	case SLONG:
		var t int32
		return t''','''	case SLONG:
		var t int64
		return t''')],'a2l',
H+'''func TestDemo(t *testing.T) {
	d := SLONG
	if _, ok := d.GetType().(int32); !ok {
		t.Fatalf("%T", d.GetType())
	}
}
''','the value type of SLONG','SLONG reports a 64 bit type')
seed('a2l-module-unit','P12',[('a2l/module.go','''			myModule.Units[bufUnit.name] = bufUnit
			log.Info().Msg("module unit successfully parsed")''','''			if _, exists := myModule.Units[bufUnit.name]; !exists || bufUnit.longIdentifier != emptyToken {
				myModule.Units[bufUnit.name] = bufUnit
			}
			log.Info().Msg("module unit successfully parsed")''')],'a2l',
H+'''func TestDemo(t *testing.T) {
	useMultithreading = false
	m, err := parseModule(demoTok("/begin MODULE", "M", "L", "/begin UNIT", "U", "a", "km", "DERIVED", "/end UNIT", "/begin UNIT", "U", "", "m", "DERIVED", "/end UNIT", "/end MODULE", ""))
	_ = err
	m, err = parseModule(demoTok("/begin MODULE", "M", "L", "/begin UNIT", "U", "a", "km", "DERIVED", "/end UNIT", "/begin UNIT", "/end UNIT", "/begin UNIT", "U", "b", "m", "DERIVED", "/end UNIT", "/begin UNIT", "U", "/end UNIT", "/end MODULE", ""))
	if err != nil || m.Units["U"].longIdentifier != "" {
		t.Fatal(err, m.Units["U"])
	}
}
''','a unit defined twice, the later one without a long identifier','the later definition does not replace the earlier one')
seed('a2l-matrix-index','P10',[('a2l/virtual_characteristic.go','''			vc.characteristicSet = true
			log.Info()''','''			vc.characteristicSet = len(vc.characteristic[0]) > 0
			log.Info()''')],'a2l',
H+'''func TestDemo(t *testing.T) {
	_, err := parseVirtualCharacteristic(demoTok("/begin VIRTUAL_CHARACTERISTIC", "x", "/end VIRTUAL_CHARACTERISTIC", ""))
	if err != nil {
		t.Fatal(err)
	}
}
''','a virtual characteristic without any referenced characteristic','the parser panics')
