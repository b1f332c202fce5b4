package hexreader

// Concrete replay for the hex readers: generated files are read with ParseFromFile and compared with an
// independent reading of the formats. Added through "go test -overlay"; the package name is filled in by check.py.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/rs/zerolog"
)

type vCase struct {
	Property, Function, What string
	Input                    any `json:",omitempty"`
	Got, Want                any `json:",omitempty"`
}

var (
	vRnd   *rand.Rand
	vCount int
	vDone  bool
	vProp  string
	vIhex  bool
	vDir   string
)

func vReport(what string, in, got, want any) {
	if vDone {
		return
	}
	vDone = true
	b, _ := json.MarshalIndent(&vCase{vProp, "ParseFromFile", what, in, got, want}, "", " ")
	os.WriteFile(os.Getenv("VERIF_OUT"), b, 0o644)
}

// ---------------------------------------------------------------- independent reading of the formats

func vHexByte(s string) (int, bool) {
	v := 0
	for i := 0; i < 2; i++ {
		c := s[i]
		switch {
		case c >= '0' && c <= '9':
			v = v*16 + int(c-'0')
		case c >= 'a' && c <= 'f':
			v = v*16 + int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			v = v*16 + int(c-'A') + 10
		default:
			return 0, false
		}
	}
	return v, true
}

// vLine: bytes of a line behind its mark; ok if they are complete, hexadecimal and sum up
func vLine(l string) (kind byte, bs []int, ok bool) {
	skip := 1
	if !vIhex {
		skip = 2
		if len(l) < 2 || l[0] != 'S' {
			return 0, nil, false
		}
		kind = l[1]
		if strings.IndexByte("056789", kind) >= 0 {
			return kind, nil, true
		}
		if kind != '3' {
			return kind, nil, false
		}
	} else if len(l) < 1 || l[0] != ':' {
		return 0, nil, false
	}
	t := l[skip:]
	if len(t)%2 != 0 {
		return kind, nil, false
	}
	sum := 0
	for i := 0; i+2 <= len(t); i += 2 {
		v, k := vHexByte(t[i : i+2])
		if !k {
			return kind, nil, false
		}
		sum += v
		bs = append(bs, v)
	}
	if vIhex {
		return 0, bs, len(bs) >= 5 && bs[0]+5 == len(bs) && sum%256 == 0
	}
	return kind, bs, len(bs) >= 6 && bs[0]+1 == len(bs) && sum%256 == 255
}

// vSpec: the image of the file; valid: every line is fine; twice: an address occurs twice
func vSpec(lines []string) (img map[uint32]byte, valid, twice bool) {
	img = map[uint32]byte{}
	valid = true
	upper := uint32(0)
	put := func(a uint32, v int) {
		if _, ok := img[a]; ok {
			twice = true
		}
		img[a] = byte(v)
	}
	for _, l := range lines {
		if strings.Trim(l, " \t\r\n\x1a") == "" {
			continue
		}
		k, bs, ok := vLine(l)
		if !ok {
			valid = false
			continue
		}
		if !vIhex {
			if k == '3' {
				a := uint32(bs[1])<<24 | uint32(bs[2])<<16 | uint32(bs[3])<<8 | uint32(bs[4])
				for i, v := range bs[5 : len(bs)-1] {
					put(a+uint32(i), v)
				}
			}
			continue
		}
		switch bs[3] {
		case 4:
			upper = uint32(bs[4])<<8 | uint32(bs[5])
		case 0:
			a := bs[1]<<8 | bs[2]
			for i, v := range bs[4 : len(bs)-1] {
				put(upper<<16|uint32((a+i)&0xFFFF), v)
			}
		}
	}
	return
}

// ---------------------------------------------------------------- generation

func vHex(b int, up bool) string {
	if up {
		return fmt.Sprintf("%02X", b)
	}
	return fmt.Sprintf("%02x", b)
}

// vRecord builds a line from its bytes (without the checksum), adding the checksum
func vRecord(mark string, bs []int) string {
	sum := 0
	var s strings.Builder
	s.WriteString(mark)
	style := vRnd.Intn(3)
	for _, b := range bs {
		sum += b
		s.WriteString(vHex(b, style == 0 || style == 2 && vRnd.Intn(2) == 0))
	}
	cs := (256 - sum%256) % 256
	if !vIhex {
		cs = 255 - sum%256
	}
	s.WriteString(vHex(cs, style != 1))
	return s.String()
}

func vData(addr uint32, vals []int) string {
	if vIhex {
		return vRecord(":", append([]int{len(vals), int(addr>>8) & 255, int(addr) & 255, 0}, vals...))
	}
	return vRecord("S3", append([]int{len(vals) + 5, int(addr >> 24), int(addr>>16) & 255, int(addr>>8) & 255, int(addr) & 255}, vals...))
}

func vELA(u int) string { return vRecord(":", []int{2, 0, 0, 4, u >> 8, u & 255}) }

func vVals(n int) []int {
	v := make([]int, n)
	for i := range v {
		switch vRnd.Intn(4) {
		case 0:
			v[i] = 255
		case 1:
			v[i] = 0
		default:
			v[i] = vRnd.Intn(256)
		}
	}
	return v
}

func vLen() int {
	switch vRnd.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		if vIhex {
			return 255
		}
		return 250
	case 3:
		return vRnd.Intn(250)
	}
	return 1 + vRnd.Intn(20)
}

// vFile: lines of a file; collide: an address is used twice with some probability
func vFile(collide bool) []string {
	var ls []string
	used := map[uint32]bool{}
	n := vRnd.Intn(30)
	switch vRnd.Intn(6) {
	case 0:
		n = vRnd.Intn(4)
	case 1:
		n = 60 + vRnd.Intn(200)
	}
	upper := uint32(0)
	segs := []int{0, 0, 1, 2, 0x8000, 0xFFFF, 0xABCD, vRnd.Intn(65536), vRnd.Intn(65536), 0x0100, 0x00FF}
	perData := 1 + vRnd.Intn(12)
	if !vIhex && vRnd.Intn(2) == 0 {
		ls = append(ls, "S0030000FC")
	}
	for i := 0; i < n; i++ {
		if vIhex && vRnd.Intn(perData) == 0 {
			u := segs[vRnd.Intn(len(segs))]
			ls = append(ls, vELA(u))
			upper = uint32(u)
			continue
		}
		switch vRnd.Intn(40) {
		case 0:
			ls = append(ls, []string{"", " ", "\t"}[vRnd.Intn(3)])
		case 1:
			if vIhex {
				ls = append(ls, vRecord(":", []int{4, 0, 0, 5, vRnd.Intn(256), vRnd.Intn(256), 1, 2}))
			} else {
				ls = append(ls, []string{"S5030003F9", "S9030000FC", "S70500000000FA", "S0030000FC", "S8040000FB0"[:10]}[vRnd.Intn(5)])
			}
		case 2:
			if vIhex {
				ls = append(ls, vRecord(":", []int{4, 0, 0, 3, vRnd.Intn(256), vRnd.Intn(256), 1, 2}))
			}
		}
		vals := vVals(vLen())
		for try := 0; try < 20; try++ {
			a := vRnd.Uint32()
			switch vRnd.Intn(5) {
			case 0:
				a = a &^ 0xFFFF
			case 1:
				a = a | 0xFFF0
			case 2:
				a = a & 0x3FF
			case 3:
				a = uint32(vRnd.Intn(3))<<16 | a&0xFFF
			}
			if !vIhex && vRnd.Intn(10) == 0 {
				a = 0xFFFFFF00 | a&0xFF
			}
			full := func(j int) uint32 {
				if vIhex {
					return upper<<16 | (a+uint32(j))&0xFFFF
				}
				return a + uint32(j)
			}
			free := true
			for j := range vals {
				free = free && !used[full(j)]
			}
			if !free && !(collide && vRnd.Intn(3) == 0) {
				continue
			}
			for j := range vals {
				used[full(j)] = true
			}
			ls = append(ls, vData(a, vals))
			break
		}
	}
	if collide && len(used) > 0 && vRnd.Intn(2) == 0 {
		// the same address once more, at an arbitrary place
		var as []uint32
		for a := range used {
			as = append(as, a)
		}
		a := as[0]
		for _, x := range as {
			if x < a {
				a = x
			}
		}
		if vRnd.Intn(2) == 0 {
			a = as[vRnd.Intn(len(as))]
		}
		if vIhex {
			pos := vRnd.Intn(len(ls) + 1)
			up := 0
			for _, l := range ls[:pos] {
				if _, bs, ok := vLine(l); ok && bs[3] == 4 {
					up = bs[4]<<8 | bs[5]
				}
			}
			ls = append(ls[:pos:pos], append([]string{vELA(int(a >> 16)), vData(a, vVals(1)), vELA(up)}, ls[pos:]...)...)
		} else {
			pos := vRnd.Intn(len(ls) + 1)
			ls = append(ls[:pos:pos], append([]string{vData(a, vVals(1))}, ls[pos:]...)...)
		}
	}
	if vRnd.Intn(2) == 0 {
		if vIhex {
			ls = append(ls, ":00000001FF")
		} else {
			ls = append(ls, "S70500000000FA")
		}
	}
	switch vRnd.Intn(4) {
	case 0:
		ls = append(ls, "")
	case 1:
		ls = append(ls, "\x1a")
	case 2:
		ls = append(ls, "", "")
	}
	return ls
}

// vDamage changes one line so that it is no valid record any more
func vDamage(ls []string) []string {
	for try := 0; try < 50; try++ {
		r := append([]string(nil), ls...)
		if len(r) == 0 {
			r = append(r, "")
		}
		i := vRnd.Intn(len(r))
		if vRnd.Intn(4) == 0 {
			i = len(r) - 1
		}
		l := r[i]
		switch vRnd.Intn(12) {
		case 0:
			r[i] = []string{"x", "S", ":", "S3", ":00", "hello world", "S1130000000000000000000000000000000000EC", ":0", "S2", "SA", "s30500000000FA", "#"}[vRnd.Intn(12)]
		case 1:
			if len(l) > 2 {
				r[i] = l[:len(l)-1-vRnd.Intn(2)]
			}
		case 2:
			r[i] = l + []string{"0", "00", " ", "FF", "\t"}[vRnd.Intn(5)]
		case 3:
			if len(l) > 0 {
				r[i] = string("sX;. 3"[vRnd.Intn(6)]) + l[1:]
			}
		case 4:
			r[i] = " " + l
		case 5, 6:
			if len(l) > 2 {
				p := 1 + vRnd.Intn(len(l)-1)
				r[i] = l[:p] + string("GgzZ:/@` -"[vRnd.Intn(10)]) + l[p+1:]
			}
		case 7:
			// a byte less or more, the sum still right
			if k, bs, ok := vLine(l); ok && len(bs) > 6 {
				m := ":"
				if !vIhex {
					m = "S" + string(k)
				}
				if vRnd.Intn(2) == 0 {
					r[i] = vRecord(m, bs[:len(bs)-2])
				} else {
					r[i] = vRecord(m, append(append([]int(nil), bs[:len(bs)-1]...), vRnd.Intn(256)))
				}
			}
		case 8:
			// wrong count, the sum still right
			if k, bs, ok := vLine(l); ok && len(bs) > 4 {
				m := ":"
				if !vIhex {
					m = "S" + string(k)
				}
				b := append([]int(nil), bs[:len(bs)-1]...)
				b[0] = (b[0] + 1 + vRnd.Intn(255)) & 255
				r[i] = vRecord(m, b)
			}
		case 9:
			// drop one digit in the middle
			if len(l) > 4 {
				p := 1 + vRnd.Intn(len(l)-1)
				r[i] = l[:p] + l[p+1:]
			}
		default:
			// one digit changed
			if len(l) > 2 {
				p := 1 + vRnd.Intn(len(l)-1)
				r[i] = l[:p] + string("0123456789ABCDEFabcdef"[vRnd.Intn(22)]) + l[p+1:]
			}
		}
		if _, valid, _ := vSpec(r); !valid {
			return r
		}
	}
	return nil
}

// vMixed: a pair like "aB" occurs; the readers may reject it
func vMixed(ls []string) bool {
	for _, l := range ls {
		if len(l) == 0 {
			continue
		}
		skip := 1
		if !vIhex {
			skip = 2
		}
		for i := skip; i+2 <= len(l); i += 2 {
			p := l[i : i+2]
			if p != strings.ToLower(p) && p != strings.ToUpper(p) {
				return true
			}
		}
	}
	return false
}

// vSpecial: record kinds whose length is fixed
func vSpecial(ls []string) bool {
	for _, l := range ls {
		if !vIhex {
			continue
		}
		if _, bs, ok := vLine(l); ok && (bs[3] > 5 || bs[3] == 2 || bs[3] == 4 && bs[0] != 2) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- running

type vResult struct {
	img map[uint32]byte
	err error
}

func vRead(ls []string, sep string, procs int) (vResult, bool) {
	p := filepath.Join(vDir, "f.hex")
	os.WriteFile(p, []byte(strings.Join(ls, sep)), 0o644)
	vSetProcs(procs)
	vCount++
	cur, _ := json.Marshal(&vCase{vProp, "ParseFromFile", "", vIn(ls, sep, procs), nil, nil})
	os.WriteFile(os.Getenv("VERIF_OUT")+".cur", cur, 0o644)
	ch := make(chan vResult, 1)
	go func() {
		m, err := ParseFromFile(p)
		ch <- vResult{m, err}
	}()
	select {
	case r := <-ch:
		return r, true
	case <-time.After(40 * time.Second):
		vReport("does not return", vIn(ls, sep, procs), nil, nil)
		return vResult{}, false
	}
}

func vIn(ls []string, sep string, procs int) any {
	return map[string]any{"text": strings.Join(ls, sep), "workers": procs, "GOMAXPROCS": runtime.GOMAXPROCS(0)}
}

func vDiff(got, want map[uint32]byte) (string, string) {
	for a, v := range want {
		g, ok := got[a]
		if !ok {
			return fmt.Sprintf("no byte at 0x%08X, %d bytes", a, len(got)), fmt.Sprintf("0x%02X at 0x%08X, %d bytes", v, a, len(want))
		}
		if g != v {
			return fmt.Sprintf("0x%02X at 0x%08X", g, a), fmt.Sprintf("0x%02X at 0x%08X", v, a)
		}
	}
	for a, g := range got {
		if _, ok := want[a]; !ok {
			return fmt.Sprintf("0x%02X at 0x%08X", g, a), "no byte at this address"
		}
	}
	return "", ""
}

func vProcs() int { return []int{1, 2, 3, 4, 5, 7, 8, 16, 33}[vRnd.Intn(9)] }

// vJudge compares one run with the independent reading
func vJudge(ls []string, sep string, procs int, r vResult) {
	want, valid, twice := vSpec(ls)
	if vMixed(ls) || vSpecial(ls) {
		if r.err != nil {
			return
		}
	}
	in := vIn(ls, sep, procs)
	errs := []string{"P02", "P05"}
	is := func(ps ...string) bool {
		for _, p := range ps {
			if p == vProp {
				return true
			}
		}
		return false
	}
	switch {
	case !valid:
		if r.err == nil && is(append(errs, "P03")...) {
			vReport("a damaged file is accepted", in, fmt.Sprintf("%d bytes", len(r.img)), "error")
		}
	case twice:
		if r.err == nil && is("P06") {
			vReport("an address is used twice and no error is reported", in, fmt.Sprintf("%d bytes", len(r.img)), "error")
		}
	case r.err != nil:
		vReport("a valid file is rejected", in, r.err.Error(), fmt.Sprintf("%d bytes", len(want)))
	default:
		if g, w := vDiff(r.img, want); g != "" {
			vReport("wrong image", in, g, w)
		}
	}
}

func vStep() {
	runtime.GOMAXPROCS([]int{1, 2, 4, 8}[vRnd.Intn(4)])
	ls := vFile(vProp == "P06")
	sep := []string{"\r\n", "\n"}[vRnd.Intn(2)]
	if len(ls) < 2 || sep == "\n" {
		sep = "\n"
		for i := range ls {
			ls[i] = strings.TrimSuffix(ls[i], "\r")
		}
	}
	switch vProp {
	case "P02", "P05":
		if d := vDamage(ls); d != nil && vRnd.Intn(8) != 0 {
			ls = d
		}
	case "P03":
		if vRnd.Intn(6) == 0 {
			if d := vDamage(ls); d != nil {
				ls = d
			}
		}
	}
	n := 1
	if vProp == "P03" {
		n = 4
	}
	for i := 0; i < n && !vDone; i++ {
		p := vProcs()
		if r, ok := vRead(ls, sep, p); ok {
			vJudge(ls, sep, p, r)
		}
	}
}

func TestVerifHex(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	vProp = os.Getenv("VERIF_PROP")
	vIhex = os.Getenv("VERIF_PKG") == "ihex32"
	vDir = os.Getenv("VERIF_TMP")
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	vRnd = rand.New(rand.NewSource(seed))
	d := 8 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		d = 60 * time.Second
	}
	end := time.Now().Add(d)
	if vProp == "P02" || vProp == "P05" {
		for _, p := range []string{"", filepath.Join(vDir, "missing.hex"), vDir} {
			vCount++
			if m, err := ParseFromFile(p); err == nil {
				vReport("a file that cannot be read is accepted", p, fmt.Sprintf("%d bytes", len(m)), "error")
			}
		}
	}
	vSteps()
	for !vDone && time.Now().Before(end) {
		vStep()
	}
	os.Remove(os.Getenv("VERIF_OUT") + ".cur")
	fmt.Printf("VERIF-DONE %d files read by the real %s reader and compared, seed %d\n", vCount, os.Getenv("VERIF_PKG"), seed)
}
