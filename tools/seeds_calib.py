import sys; sys.path.insert(0,'/verif/tools')
from seedlib import seed
H='package calibrationReader\n\nimport (\n\t"testing"\n\n\t"github.com/asap2Go/calibrationReader/a2l"\n)\n\nfunc demoCd(n int) *CalibrationData {\n\tcd := &CalibrationData{Hex: map[uint32]byte{}}\n\tcd.A2l.Project.Modules = make([]a2l.Module, n)\n\tcd.ModuleIndex = uint8(n - 1)\n\treturn cd\n}\n\n'
only=sys.argv[1:]
def S(id,*a):
    if not only or id in only: seed(id,*a)
S('cal-align-half','P16',[('calib_data.go','ModCommon.AlignmentFloat16Ieee','ModCommon.AlignmentFloat32Ieee')],'.',H+'''func TestDemo(t *testing.T) {
	cd := demoCd(1)
	mc := &cd.A2l.Project.Modules[0].ModCommon
	mc.AlignmentFloat16Ieee.AlignmentBorder, mc.AlignmentFloat16Ieee.AlignmentBorderSet = 8, true
	if a := cd.getNextAlignedAddress(2, a2l.Float16Ieee, &a2l.RecordLayout{}); a != 8 {
		t.Fatal(a)
	}
}
''','a module-wide alignment for 16 bit floats and none in the record layout','16 bit floats are aligned like 32 bit floats')
S('cal-bytes-lastgap','P17',[('calib_data.go','''		if !exists {
			err := errors.New("address "''','''		if !exists && uint32(i)+1 < nBytes {
			err := errors.New("address "''')],'.',H+'''func TestDemo(t *testing.T) {
	cd := demoCd(1)
	cd.Hex[10], cd.Hex[11], cd.Hex[12] = 1, 2, 3
	if b, err := cd.getBytes(10, 32); err == nil {
		t.Fatal(b)
	}
	if b, err := cd.getBytes(10, 24); err != nil || len(b) != 3 {
		t.Fatal(b, err)
	}
}
''','an image that ends one byte in front of the end of the value','the missing last byte is replaced by 0')
S('cal-int64-little','P18',[('record_manager.go','val := int64(binary.LittleEndian.Uint64(byteSlice))','val := binary.LittleEndian.Uint64(byteSlice)')],'.',H+'''func TestDemo(t *testing.T) {
	cd := demoCd(1)
	bo := &cd.A2l.Project.Modules[0].ModCommon.ByteOrder
	bo.ByteOrder, bo.ByteOrderSet = a2l.MsbLast, true
	if v, err := cd.convertByteSliceToDatatype([]byte{0xfe, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, a2l.AInt64); err != nil || v != -2 {
		t.Fatal(v, err)
	}
}
''','a negative A_INT64 value in little endian byte order','the value is read as unsigned')
S('cal-type-noaxis5','P19',[('a2l/record_layout.go','		return rl.NoAxisPts5.Datatype, nil','		return rl.NoAxisPts4.Datatype, nil')],'.',H+'''func TestDemo(t *testing.T) {
	rl := &a2l.RecordLayout{}
	rl.NoAxisPts4.Datatype, rl.NoAxisPts4.DatatypeSet = a2l.UBYTE, true
	rl.NoAxisPts5.Datatype, rl.NoAxisPts5.DatatypeSet = a2l.UWORD, true
	if d, err := rl.GetDatatypeByFieldName("NoAxisPts5"); err != nil || d != a2l.UWORD {
		t.Fatal(d, err)
	}
}
''','a five-dimensional layout whose counters have different types','the type of another component is returned')
S('cal-shift4','P20',[('shiftOp.go','val, err := cd.convertByteSliceToDatatype(bufBytes, rl.ShiftOp4.Datatype)','val, err := cd.convertByteSliceToDatatype(bufBytes, rl.ShiftOp5.Datatype)')],'.',H+'''func TestDemo(t *testing.T) {
	cd := demoCd(1)
	cd.Hex[16], cd.Hex[17] = 0xff, 0xfe
	rl := &a2l.RecordLayout{}
	rl.ShiftOp4.Datatype, rl.ShiftOp4.DatatypeSet = a2l.SWORD, true
	rl.ShiftOp5.Datatype, rl.ShiftOp5.DatatypeSet = a2l.UWORD, true
	p := uint32(16)
	if v, err := cd.getShiftOp4(rl, &p); err != nil || v != -2 || p != 18 {
		t.Fatal(v, err, p)
	}
}
''','shift operators of axis 4 and 5 with different types','the value of axis 4 is decoded with the type of axis 5')
S('cal-verb-last','P21',[('compu_methods.go','''			if dec == tab.InVal[i] {
				return tab.OutVal[i], err
			}
		}
		if !tab.DefaultValue.DisplayStringSet {''','''			if dec == tab.InVal[i] {
				for i+1 < len(tab.InVal) && tab.InVal[i+1] == dec {
					i++
				}
				return tab.OutVal[i], err
			}
		}
		if !tab.DefaultValue.DisplayStringSet {''')],'.',H+'''func TestDemo(t *testing.T) {
	cd := demoCd(1)
	cv := a2l.CompuVTab{Name: "V", InVal: []float64{0, 1, 1}, OutVal: []string{"a", "b", "c"}, InValSet: true, OutValSet: true}
	cd.A2l.Project.Modules[0].CompuVTabs = map[string]a2l.CompuVTab{"V": cv}
	if s, err := calcTabVerb(1, &cv, cd); err != nil || s != "b" {
		t.Fatal(s, err)
	}
}
''','a verbal table that lists an input twice in neighbouring rows','the last of the rows is used instead of the first')
S('cal-sysconst-module','P22',[('record_manager.go','modPar := cd.A2l.Project.Modules[cd.ModuleIndex].ModPar','modPar := cd.A2l.Project.Modules[0].ModPar')],'.',H+'''func TestDemo(t *testing.T) {
	cd := demoCd(2)
	cd.A2l.Project.Modules[0].ModPar.SystemConstants = map[string]a2l.SystemConstant{"C": {Name: "C", Value: "1", ValueSet: true}}
	cd.A2l.Project.Modules[1].ModPar.SystemConstants = map[string]a2l.SystemConstant{"C": {Name: "C", Value: "2", ValueSet: true}}
	if s, err := cd.getSystemConstantValue("C"); err != nil || s != "2" {
		t.Fatal(s, err)
	}
}
''','a project with several modules and another one than the first selected','the constant of the first module is returned')
S('cal-lookup-skip','P14',[('record_manager.go','''	buf, exists = m.Groups[ident]
	if exists {''','''	_, isFunction := m.Functions[ident]
	buf, exists = m.Groups[ident]
	if exists && !isFunction {''')],'.','''package calibrationReader

import (
	"reflect"
	"testing"

	"github.com/asap2Go/calibrationReader/a2l"
)

func TestDemo(t *testing.T) {
	cd := &CalibrationData{}
	cd.A2l.Project.Modules = make([]a2l.Module, 1)
	for _, f := range []string{"Groups", "Functions"} {
		v := reflect.ValueOf(&cd.A2l.Project.Modules[0]).Elem().FieldByName(f)
		v.Set(reflect.MakeMap(v.Type()))
		v.SetMapIndex(reflect.ValueOf("N"), reflect.New(v.Type().Elem()).Elem())
	}
	if o := cd.GetObjectByIdent("N"); len(o) != 2 {
		t.Fatal(len(o))
	}
}
''','a function and a group of the same name','the group is not returned')
