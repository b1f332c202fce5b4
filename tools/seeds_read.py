import sys; sys.path.insert(0,'/verif/tools')
from seedlib import seed
only=sys.argv[1:]
def S(id,*a):
    if not only or id in only: seed(id,*a)
H='''package calibrationReader

import (
	"os"
	"testing"
	"time"
)

func demoRead(t *testing.T, a2lText, hexName, hexText string) (cd CalibrationData, err error) {
	d := os.Getenv("DEMO_TMP")
	if d == "" {
		d = t.TempDir()
	}
	old, _ := os.Getwd()
	if os.Chdir(d) != nil {
		t.Fatal("no scratch directory")
	}
	defer os.Chdir(old)
	os.WriteFile("x.a2l", []byte(a2lText), 0o644)
	os.WriteFile(hexName, []byte(hexText), 0o644)
	done := make(chan bool, 1)
	go func() {
		cd, err = ReadCalibration("x.a2l", hexName)
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("ReadCalibration does not return")
	}
	return
}

const goodA2l = "ASAP2_VERSION 1 71\\n/begin PROJECT p \\"t\\"\\n/begin MODULE m \\"t\\"\\n/end MODULE\\n/end PROJECT\\n"
const badA2l = "ASAP2_VERSION 1 71\\n/begin PROJECT p \\"t\\"\\n"
const goodHex = ":0400100001020304E2\\n:00000001FF\\n"
const badHex = ":0400100001020304E3\\n:00000001FF\\n"

'''
S('read-cap','P15',[('calib_data.go','var errChan = make(chan error, 2)','var errChan = make(chan error, 1)')],'.',H+'''func TestDemo(t *testing.T) {
	if _, err := demoRead(t, goodA2l, "x.hex", goodHex); err != nil {
		t.Fatal(err)
	}
	if _, err := demoRead(t, badA2l, "x.hex", badHex); err == nil {
		t.Fatal("no error")
	}
}
''','both files are damaged','the second reader blocks on the full error channel and the call never returns')
S('read-partial','P15',[('calib_data.go','''			log.Err(err).Msg("could not parse hex:")
			ce <- err //send an error via channel to signal it to the main thread
			close(ch)
		} else {
			ch <- h //send the successfully parsed hex map to the main thread
			close(ch)
			log.Info().Msg("parsed hex file")
		}
		//Motorola S19''','''			log.Err(err).Msg("could not parse hex:")
			if len(h) == 0 {
				ce <- err //send an error via channel to signal it to the main thread
			} else {
				ch <- h
			}
			close(ch)
		} else {
			ch <- h //send the successfully parsed hex map to the main thread
			close(ch)
			log.Info().Msg("parsed hex file")
		}
		//Motorola S19''')],'.',H+'''func TestDemo(t *testing.T) {
	if _, err := demoRead(t, goodA2l, "x.hex", goodHex); err != nil {
		t.Fatal(err)
	}
	// the second record assigns an address again
	if cd, err := demoRead(t, goodA2l, "x.hex", ":0400100001020304E2\\n:0100100005EA\\n"); err == nil || len(cd.Hex) != 0 {
		t.Fatal("no error", len(cd.Hex), err)
	}
}
''','a hex file the reader rejects after it has read some bytes (colliding addresses)','the part read so far is returned without error')
