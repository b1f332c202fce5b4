import sys; sys.path.insert(0,'/verif/tools')
from seedlib import seed
only=sys.argv[1:]
def S(id,*a):
    if not only or id in only: seed(id,*a)
def H(pkg,imp=''):
    return 'package %s\n\nimport (\n\t"fmt"\n%s\t"testing"\n)\n\nvar _ = fmt.Sprint\n\n'%(pkg,imp)
# rec builds a record with a right checksum
IREC='''func rec(s string) string {
	b, err := HexToByteSlice(s)
	if err != nil {
		panic(err)
	}
	var sum byte
	for _, x := range b {
		sum += x
	}
	return ":" + s + fmt.Sprintf("%02X", byte(-sum))
}

'''
SREC='''func rec(s string) string {
	b, err := hexToByteSlice(s)
	if err != nil {
		panic(err)
	}
	var sum byte
	for _, x := range b {
		sum += x
	}
	return "S3" + s + fmt.Sprintf("%02X", 255-sum)
}

'''
S('hex-carry','P01',[('ihex32/record.go','		lineAddress = lineAddress + uint16(i)\n',''),
 ('ihex32/record.go','dataByte{address: binary.BigEndian.Uint32(bs), value: b}','dataByte{address: binary.BigEndian.Uint32(bs) + uint32(i), value: b}')],'ihex32',H('ihex32')+IREC+'''func TestDemo(t *testing.T) {
	h, err := parseHex([]string{rec("020000040001"), rec("03FFFE00112233"), rec("00000001")})
	if err != nil || len(h) != 3 || h[0x1fffe] != 0x11 || h[0x1ffff] != 0x22 || h[0x10000] != 0x33 {
		t.Fatal(h, err)
	}
}
''','a data record that runs over the end of its 64 kB segment','the address carries into the upper 16 bits instead of wrapping')
S('hex-checksum-rest','P02',[('ihex32/hex.go','''				end = len(recs)
			}
			go validateChecksumsRoutine''','''				end = numProc * (len(recs) / numProc)
			}
			go validateChecksumsRoutine''')],'ihex32',H('ihex32')+IREC+'''func TestDemo(t *testing.T) {
	numProc = 4
	var l []string
	for i := 0; i < 6; i++ {
		l = append(l, rec(fmt.Sprintf("02%04X00AA55", 16*i)))
	}
	if h, err := parseHex(l); err != nil || len(h) != 12 {
		t.Fatal(h, err)
	}
	l[5] = ":020050005455FF"
	if h, err := parseHex(l); err == nil {
		t.Fatal(h)
	}
}
''','a damaged record among the last ones of a file whose number of records is no multiple of the number of workers','the checksums of the remaining records are not validated')
S('hex-offset-late','P03',[('ihex32/record.go','	firstRecordAfterNewOffset := false\n','	firstRecordAfterNewOffset := start > 0\n')],'ihex32',H('ihex32','\t"runtime"\n')+IREC+'''func TestDemo(t *testing.T) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	numProc = 4
	l := []string{rec("020000040001")}
	for i := 0; i < 39; i++ {
		l = append(l, rec(fmt.Sprintf("01%04X00AA", i)))
	}
	for k := 0; k < 50; k++ {
		h, err := parseHex(l)
		if err != nil || len(h) != 39 {
			t.Fatal(len(h), err)
		}
		for a := range h {
			if a>>16 != 1 {
				t.Fatalf("%x", a)
			}
		}
	}
}
''','an offset worker that is scheduled after the worker in front of it has already walked through its records','the late worker resets the upper address of the records to 0')
S('srec-or','P04',[('srec19/record.go','lineAddress = lineAddress + uint32(i)','lineAddress = lineAddress | uint32(i)')],'srec19',H('srec19')+SREC+'''func TestDemo(t *testing.T) {
	h, err := parseHex([]string{rec("070000000EAABB")})
	if err != nil || len(h) != 2 || h[0xe] != 0xaa || h[0xf] != 0xbb {
		t.Fatal(h, err)
	}
	h, err = parseHex([]string{rec("0700000001AABB")})
	if err != nil || len(h) != 2 || h[1] != 0xaa || h[2] != 0xbb {
		t.Fatal(h, err)
	}
}
''','a record at an address that is no multiple of its length','bytes land at other addresses')
S('srec-onebad','P05',[('srec19/hex.go','if len(vcsChan) != 0 {','if len(vcsChan) > 1 {')],'srec19',H('srec19')+SREC+'''func TestDemo(t *testing.T) {
	numProc = 4
	var l []string
	for i := 0; i < 8; i++ {
		l = append(l, rec(fmt.Sprintf("06%08XA5", i)))
	}
	if h, err := parseHex(l); err != nil || len(h) != 8 {
		t.Fatal(h, err)
	}
	l[3] = l[3][:12] + "A4" + l[3][14:]
	if h, err := parseHex(l); err == nil {
		t.Fatal(h)
	}
}
''','a file in which the records of exactly one worker hold wrong checksums','the file is accepted')
S('srec-same','P06',[('srec19/hex.go','if exists {','if exists && val != data.value {')],'srec19',H('srec19')+SREC+'''func TestDemo(t *testing.T) {
	if h, err := parseHex([]string{rec("060000000511"), rec("060000000511")}); err == nil {
		t.Fatal(h)
	}
	if h, err := parseHex([]string{rec("060000000511"), rec("060000000611")}); err != nil {
		t.Fatal(h, err)
	}
}
''','two records with the same value for an address','the collision is not reported')
S('hex-collision-chunk','P06',[('ihex32/hex.go','''				val, exists := h[data.address]
''','''				val, exists := h[data.address]
				exists = exists && val != 0xff
''')],'ihex32',H('ihex32')+IREC+'''func TestDemo(t *testing.T) {
	if h, err := parseHex([]string{rec("01000500FF"), rec("0100050011")}); err == nil {
		t.Fatal(h)
	}
}
''','an address first filled with FF and then assigned again','the collision is not reported, the second value wins')
