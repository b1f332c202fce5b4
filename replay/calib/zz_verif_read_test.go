package calibrationReader

// P15: ReadCalibration compared with what the three readers return for the same files

import (
	"encoding/json"
	"os"
	"reflect"
	"runtime"
	"time"

	"github.com/asap2Go/calibrationReader/a2l"
	"github.com/asap2Go/calibrationReader/ihex32"
	"github.com/asap2Go/calibrationReader/srec19"
)

type vReadFile struct{ name, text string }

var vReadReady bool

var vA2ls = []vReadFile{
	{"good.a2l", "ASAP2_VERSION 1 71\n/begin PROJECT p \"text\"\n/begin MODULE m \"text\"\n/begin UNIT u \"l\" \"d\" DERIVED\n/end UNIT\n/end MODULE\n/end PROJECT\n"},
	{"bad.a2l", "ASAP2_VERSION 1 71\n/begin PROJECT p \"text\"\n/begin MODULE m \"text\"\n/begin UNIT"},
	{"missing.a2l", ""},
}

const (
	vIntel = ":0400100001020304E2\n:00000001FF\n"
	vMoto  = "S30900000010010203048C\n"
)

var vHexs = []vReadFile{
	{"x.hex", vIntel}, {"x.HEX", vIntel}, {"x.s19", vMoto}, {"x.S19", vMoto}, {"bad.hex", ":0400100001020304E3\n"}, {"bad.s19", vMoto[:20] + "\n"}, {"twice.hex", ":0400100001020304E2\n:0100100005EA\n"}, {"twice.s19", vMoto + vMoto}, {"missing.hex", ""}, {"missing.s19", ""},
	{"x.bin", vIntel}, {"x", vIntel}, {"d.hex/y.s19", vMoto}, {"d.s19/y.hex", vIntel}, {"x.hex.bin", vIntel}, {"x.s19.txt", vMoto}, {"y.hex", vMoto}, {"y.s19", vIntel}, {"x.hex.s19", vMoto}, {"x.s19.hex", vIntel}, {"hex", vIntel}, {"y.s28", vMoto},
}

func vWriteFiles() {
	os.MkdirAll("d.hex", 0o755)
	os.MkdirAll("d.s19", 0o755)
	for _, l := range [][]vReadFile{vA2ls, vHexs} {
		for _, f := range l {
			if f.text != "" {
				os.WriteFile(f.name, []byte(f.text), 0o644)
			}
		}
	}
	vReadReady = true
}

func vRead() {
	if !vReadReady {
		vWriteFiles()
	}
	if vCount > 600 { // every call keeps its log file open
		time.Sleep(10 * time.Millisecond)
		vEnd = time.Now()
		return
	}
	if vCount == 180 {
		runtime.GOMAXPROCS(1)
	} else if vCount == 400 {
		runtime.GOMAXPROCS(2)
	}
	a, h := vA2ls[vCount%3], vHexs[(vCount/3)%len(vHexs)]
	in := map[string]string{"a2l": a.name, "hex": h.name, "hex text": h.text}
	b, _ := json.Marshal(&vCase{Property: vProp, Function: "ReadCalibration", Input: in})
	os.WriteFile(os.Getenv("VERIF_OUT")+".cur", b, 0o644)
	wa, ea := a2l.ParseFromFile(a.name)
	var wh map[uint32]byte
	eh := os.ErrInvalid
	low := ""
	for i := len(h.name) - 1; i >= 0 && h.name[i] != '/'; i-- {
		if h.name[i] == '.' {
			low = h.name[i:]
			break
		}
	}
	switch low {
	case ".hex", ".HEX":
		wh, eh = ihex32.ParseFromFile(h.name)
	case ".s19", ".S19":
		wh, eh = srec19.ParseFromFile(h.name)
	}
	type res struct {
		cd  CalibrationData
		err error
	}
	c := make(chan res, 1)
	vCount++
	go func() {
		cd, err := ReadCalibration(a.name, h.name)
		c <- res{cd, err}
	}()
	var r res
	select {
	case r = <-c:
	case <-time.After(5 * time.Second):
		vReport("ReadCalibration", "the call does not return", in, nil, nil)
		return
	}
	if ok := ea == nil && eh == nil; ok != (r.err == nil) {
		vReport("ReadCalibration", "error reported / not reported", in, r.err == nil, ok)
	} else if ok && (!reflect.DeepEqual(r.cd.A2l, wa) || !reflect.DeepEqual(r.cd.Hex, wh) || r.cd.ModuleIndex != 0) {
		vReport("ReadCalibration", "content differs from what the readers return", in, r.cd.Hex, wh)
	} else if !ok && (!reflect.DeepEqual(r.cd.A2l, a2l.A2L{}) || len(r.cd.Hex) != 0) {
		vReport("ReadCalibration", "partial content beside an error", in, r.cd.Hex, nil)
	}
}
