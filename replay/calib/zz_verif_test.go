package calibrationReader

// Concrete replay of failed obligations of the calibration decoder: an independent executable reading of the
// properties is compared with the real functions on generated inputs. Added through "go test -overlay".

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"
	"unsafe"

	"github.com/asap2Go/calibrationReader/a2l"
	"github.com/rs/zerolog"
)

type vCase struct {
	Property, Function, What string
	Input                    any `json:",omitempty"`
	Got, Want                any `json:",omitempty"`
}

var (
	vRnd   *rand.Rand
	vCount int
	vDone  bool
	vProp  string
	vEnd   time.Time
)

func vReport(fn, what string, in, got, want any) {
	if vDone {
		return
	}
	vDone = true
	b, err := json.MarshalIndent(&vCase{vProp, fn, what, in, got, want}, "", " ")
	if err != nil {
		b, _ = json.MarshalIndent(&vCase{vProp, fn, what, fmt.Sprintf("%.1500v", in), fmt.Sprintf("%.600v", got), fmt.Sprintf("%.600v", want)}, "", " ")
	}
	os.WriteFile(os.Getenv("VERIF_OUT"), b, 0o644)
}

func vGuard(fn string, in any, f func()) {
	defer func() {
		if r := recover(); r != nil {
			vReport(fn, fmt.Sprintf("panic: %v", r), in, nil, nil)
		}
	}()
	vCount++
	f()
}

func vSettable(v reflect.Value) reflect.Value {
	if v.CanSet() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// vField finds a field by name, ignoring the case of its first letter
func vField(v reflect.Value, path ...string) (reflect.Value, bool) {
	for _, p := range path {
		if v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		f := v.FieldByName(p)
		if !f.IsValid() {
			f = v.FieldByName(strings.ToLower(p[:1]) + p[1:])
		}
		if !f.IsValid() {
			return f, false
		}
		v = vSettable(f)
	}
	return v, true
}

func vSet(v any, val any, path ...string) bool {
	f, ok := vField(reflect.ValueOf(v).Elem(), path...)
	if !ok {
		return false
	}
	f.Set(reflect.ValueOf(val).Convert(f.Type()))
	return true
}

type vType struct {
	t      a2l.DataTypeEnum
	bytes  int
	signed bool
	float  bool
	align  string
}

var vTypes = []vType{
	{a2l.UBYTE, 1, false, false, "AlignmentByte"}, {a2l.SBYTE, 1, true, false, "AlignmentByte"},
	{a2l.UWORD, 2, false, false, "AlignmentWord"}, {a2l.SWORD, 2, true, false, "AlignmentWord"},
	{a2l.ULONG, 4, false, false, "AlignmentLong"}, {a2l.SLONG, 4, true, false, "AlignmentLong"},
	{a2l.AUint64, 8, false, false, "AlignmentInt64"}, {a2l.AInt64, 8, true, false, "AlignmentInt64"},
	{a2l.Float16Ieee, 2, false, true, "AlignmentFloat16Ieee"}, {a2l.Float32Ieee, 4, false, true, "AlignmentFloat32Ieee"},
	{a2l.Float64Ieee, 8, false, true, "AlignmentFloat64Ieee"},
}

var vAligns = []string{"AlignmentByte", "AlignmentWord", "AlignmentLong", "AlignmentInt64", "AlignmentFloat16Ieee", "AlignmentFloat32Ieee", "AlignmentFloat64Ieee"}

func vOne() *CalibrationData {
	cd := &CalibrationData{Hex: map[uint32]byte{}}
	n := 1 + vRnd.Intn(3)
	cd.A2l.Project.Modules = make([]a2l.Module, n)
	cd.ModuleIndex = uint8(vRnd.Intn(n))
	return cd
}

func vBorder() uint16 {
	switch vRnd.Intn(4) {
	case 0:
		return uint16(vRnd.Intn(9))
	case 1:
		return uint16(1) << vRnd.Intn(16)
	case 2:
		return uint16(vRnd.Intn(65536))
	}
	return []uint16{0, 1, 2, 3, 4, 5, 7, 8, 16, 32767, 32768, 32769, 65535}[vRnd.Intn(13)]
}

func vAddr() uint32 {
	switch vRnd.Intn(4) {
	case 0:
		return uint32(vRnd.Intn(40))
	case 1:
		return uint32(0xFFFFFFFF - vRnd.Intn(20))
	}
	return vRnd.Uint32()
}

func vRandAligns(cd *CalibrationData, rl *a2l.RecordLayout) {
	for _, a := range vAligns {
		for _, x := range []any{rl, &cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon} {
			if vRnd.Intn(2) == 0 {
				vSet(x, vBorder(), a, "AlignmentBorder")
				vSet(x, vRnd.Intn(4) != 0, a, "AlignmentBorderSet")
			}
		}
	}
	for i := range cd.A2l.Project.Modules {
		if i != int(cd.ModuleIndex) {
			for _, a := range vAligns {
				vSet(&cd.A2l.Project.Modules[i].ModCommon, vBorder(), a, "AlignmentBorder")
				vSet(&cd.A2l.Project.Modules[i].ModCommon, true, a, "AlignmentBorderSet")
			}
		}
	}
}

func vAligned(cd *CalibrationData, rl *a2l.RecordLayout, t vType, a uint32) uint32 {
	border := uint64(t.bytes)
	get := func(x any) (uint64, bool) {
		b, _ := vField(reflect.ValueOf(x).Elem(), t.align, "AlignmentBorder")
		s, _ := vField(reflect.ValueOf(x).Elem(), t.align, "AlignmentBorderSet")
		return b.Uint(), s.Bool() && b.Uint() != 0
	}
	if b, ok := get(rl); ok {
		border = b
	} else if b, ok := get(&cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon); ok {
		border = b
	}
	x := uint64(a)
	for x%border != 0 {
		x++
	}
	return uint32(x)
}

func vAlign() {
	cd := vOne()
	rl := &a2l.RecordLayout{}
	vRandAligns(cd, rl)
	t := vTypes[vRnd.Intn(len(vTypes))]
	a := vAddr()
	in := fmt.Sprintf("address %d type %s layout %+v module %+v", a, t.t, rl, cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon)
	vGuard("getNextAlignedAddress", in, func() {
		got, want := cd.getNextAlignedAddress(a, t.t, rl), vAligned(cd, rl, t, a)
		if got != want {
			vReport("getNextAlignedAddress", "wrong aligned address", in, got, want)
		}
	})
}

func vBytes() {
	cd := vOne()
	start := vAddr()
	n := vRnd.Intn(12)
	gap := -1
	if vRnd.Intn(2) == 0 && n > 0 {
		gap = vRnd.Intn(n)
	}
	var want []byte
	for i := -2; i < n+2; i++ {
		b := byte(vRnd.Intn(256))
		if vRnd.Intn(5) == 0 {
			b = 0
		}
		if i != gap {
			cd.Hex[start+uint32(i)] = b
		}
		if i >= 0 && i < n {
			want = append(want, b)
		}
	}
	bits := uint32(n * 8)
	if vRnd.Intn(4) == 0 {
		bits += uint32(vRnd.Intn(8))
	}
	bad := bits%8 != 0 || gap >= 0
	in := fmt.Sprintf("address %d bits %d image %v", start, bits, cd.Hex)
	vGuard("getBytes", in, func() {
		got, err := cd.getBytes(start, bits)
		if (err != nil) != bad {
			vReport("getBytes", "error reported wrongly", in, fmt.Sprint(got, err), fmt.Sprint("error expected: ", bad))
		} else if err == nil && string(got) != string(want) {
			vReport("getBytes", "wrong bytes", in, got, want)
		}
	})
}

func vHalf(u uint16) float64 {
	s := 1.0
	if u>>15 == 1 {
		s = -1
	}
	e, m := int(u>>10&31), float64(u&1023)
	switch e {
	case 0:
		return s * math.Ldexp(m, -24)
	case 31:
		if m == 0 {
			return math.Inf(int(s))
		}
		return math.NaN()
	}
	return s * math.Ldexp(1024+m, e-25)
}

func vOrder(m *a2l.Module) (little, bad bool) {
	o, set := m.ModCommon.ByteOrder.ByteOrder, m.ModCommon.ByteOrder.ByteOrderSet
	if o == a2l.MsbFirstMswLast || o == a2l.MsbLastMswFirst {
		return false, true
	}
	if !set || o == a2l.BigEndian || o == a2l.MsbFirst {
		return false, false
	}
	if o == a2l.LittleEndian || o == a2l.MsbLast {
		return true, false
	}
	return false, true
}

func vDecode(cd *CalibrationData, bs []byte, t vType) (float64, bool) {
	little, bad := vOrder(&cd.A2l.Project.Modules[cd.ModuleIndex])
	if bad || len(bs) < t.bytes {
		return 0, false
	}
	b := append([]byte{}, bs[:t.bytes]...)
	if little {
		for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
	}
	z := new(big.Int).SetBytes(b)
	if t.float {
		switch t.bytes {
		case 2:
			return vHalf(uint16(z.Uint64())), true
		case 4:
			return float64(math.Float32frombits(uint32(z.Uint64()))), true
		}
		return math.Float64frombits(z.Uint64()), true
	}
	if t.signed && z.Bit(t.bytes*8-1) == 1 {
		z.Sub(z, new(big.Int).Lsh(big.NewInt(1), uint(t.bytes*8)))
	}
	f, _ := new(big.Float).SetInt(z).Float64()
	return f, true
}

func vSame(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || math.IsNaN(a) && math.IsNaN(b)
}

func vRandOrder(cd *CalibrationData) {
	orders := []a2l.ByteOrderEnum{a2l.BigEndian, a2l.LittleEndian, a2l.MsbFirst, a2l.MsbLast, a2l.MsbFirstMswLast, a2l.MsbLastMswFirst, "bogus"}
	for i := range cd.A2l.Project.Modules {
		m := &cd.A2l.Project.Modules[i]
		if vRnd.Intn(4) != 0 {
			n := len(orders)
			if vRnd.Intn(2) == 0 {
				n = 4
			}
			m.ModCommon.ByteOrder.ByteOrder = orders[vRnd.Intn(n)]
			m.ModCommon.ByteOrder.ByteOrderSet = true
		}
	}
}

func vByte() byte { return []byte{0, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff, byte(vRnd.Intn(256))}[vRnd.Intn(8)] }

func vConv() {
	cd := vOne()
	vRandOrder(cd)
	t := vTypes[vRnd.Intn(len(vTypes))]
	dte := t.t
	unknown := vRnd.Intn(10) == 0
	if unknown {
		dte = a2l.DataTypeEnum([]string{"", "UNKNOWN", "ubyte"}[vRnd.Intn(3)])
	}
	n := t.bytes
	if vRnd.Intn(3) == 0 {
		n = vRnd.Intn(11)
	}
	bs := make([]byte, n)
	for i := range bs {
		bs[i] = vByte()
	}
	want, ok := vDecode(cd, bs, t)
	if unknown {
		ok = false
	}
	in := fmt.Sprintf("bytes %v type %s byte order %+v", bs, dte, cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.ByteOrder)
	vGuard("convertByteSliceToDatatype", in, func() {
		got, err := cd.convertByteSliceToDatatype(bs, dte)
		if (err == nil) != ok {
			vReport("convertByteSliceToDatatype", "error reported wrongly", in, fmt.Sprint(got, err), fmt.Sprint(want, " ok ", ok))
		} else if ok && !vSame(got, want) {
			vReport("convertByteSliceToDatatype", "wrong value", in, fmt.Sprint(got), fmt.Sprint(want))
		}
	})
}

func vPositions() {
	rl := &a2l.RecordLayout{Name: "RL"}
	v := reflect.ValueOf(rl).Elem()
	want := map[uint16]string{}
	clash := false
	dense := vRnd.Intn(3)
	used := map[uint16]bool{}
	for i := 0; i < v.NumField(); i++ {
		n := v.Type().Field(i).Name
		if v.Field(i).Kind() != reflect.Struct {
			continue
		}
		f, ok := vField(v, n, "PositionSet")
		if !ok {
			continue
		}
		if vRnd.Intn(3) < dense {
			continue
		}
		p := uint16(vRnd.Intn(65536))
		if vRnd.Intn(40) == 0 {
			p = uint16(vRnd.Intn(6))
		}
		if vRnd.Intn(3) == 0 {
			p = uint16(i)
		}
		if used[p] && vRnd.Intn(8) != 0 {
			continue
		}
		f.SetBool(true)
		g, _ := vField(v, n, "Position")
		g.SetUint(uint64(p))
		clash = clash || used[p]
		used[p] = true
		want[p] = n
	}
	in := fmt.Sprintf("%+v", *rl)
	vGuard("GetRecordLayoutRelativePositions", in, func() {
		got, err := rl.GetRecordLayoutRelativePositions()
		if (err != nil) != clash {
			vReport("GetRecordLayoutRelativePositions", "error reported wrongly", in, fmt.Sprint(got, err), fmt.Sprint(want, " clash ", clash))
		} else if err == nil && fmt.Sprint(got) != fmt.Sprint(want) {
			vReport("GetRecordLayoutRelativePositions", "wrong positions", in, fmt.Sprint(got), fmt.Sprint(want))
		}
	})
	var names []string
	for i := 0; i < v.NumField(); i++ {
		n := v.Type().Field(i).Name
		names = append(names, n)
		if v.Field(i).Kind() != reflect.Struct {
			continue
		}
		if f, ok := vField(v, n, "DatatypeSet"); ok {
			f.SetBool(vRnd.Intn(3) != 0)
			g, _ := vField(v, n, "Datatype")
			g.SetString(string(vTypes[vRnd.Intn(len(vTypes))].t))
		}
	}
	in = fmt.Sprintf("%+v", *rl)
	for _, n := range append(names, "", "nothing", "axisPtsX", "AXIS_PTS_X") {
		ok := false
		var want string
		if f, has := v.Type().FieldByName(n); has && f.Type.Kind() == reflect.Struct {
			if g, has := vField(v, n, "DatatypeSet"); has && g.Bool() {
				ok = true
				d, _ := vField(v, n, "Datatype")
				want = d.String()
			}
		}
		vGuard("GetDatatypeByFieldName", n, func() {
			got, err := rl.GetDatatypeByFieldName(n)
			if (err == nil) != ok {
				vReport("GetDatatypeByFieldName", "error reported wrongly for "+n, in, fmt.Sprint(got, err), fmt.Sprint("success expected: ", ok, want))
			} else if ok && string(got) != want {
				vReport("GetDatatypeByFieldName", "wrong data type of "+n, in, got, want)
			}
		})
	}
	cd := vOne()
	for i := range cd.A2l.Project.Modules {
		cd.A2l.Project.Modules[i].RecordLayouts = map[string]a2l.RecordLayout{}
		for _, n := range []string{"a", "b", ""} {
			if vRnd.Intn(2) == 0 {
				cd.A2l.Project.Modules[i].RecordLayouts[n] = a2l.RecordLayout{Name: n + strconv.Itoa(i)}
			}
		}
	}
	ch := &a2l.Characteristic{Name: "c", Deposit: []string{"a", "b", ""}[vRnd.Intn(3)], DepositSet: vRnd.Intn(4) != 0}
	vGuard("getRecordLayout", ch.Deposit, func() {
		got, err := cd.getRecordLayout(ch)
		w, has := cd.A2l.Project.Modules[cd.ModuleIndex].RecordLayouts[ch.Deposit]
		ok := has && ch.DepositSet
		if (err == nil) != ok || ok && got.Name != w.Name {
			vReport("getRecordLayout", "wrong layout", fmt.Sprintf("%+v", ch), fmt.Sprint(got, err), fmt.Sprint(w, ok))
		}
	})
}

func vScalars() {
	cd := vOne()
	vRandOrder(cd)
	rl := &a2l.RecordLayout{}
	if vRnd.Intn(2) == 0 {
		vRandAligns(cd, rl)
	}
	v := reflect.ValueOf(rl).Elem()
	kinds := map[string]vType{}
	set := map[string]bool{}
	for i := 0; i < v.NumField(); i++ {
		n := v.Type().Field(i).Name
		if v.Field(i).Kind() != reflect.Struct {
			continue
		}
		if f, ok := vField(v, n, "DatatypeSet"); ok {
			t := vTypes[vRnd.Intn(len(vTypes))]
			kinds[n] = t
			set[n] = vRnd.Intn(6) != 0
			f.SetBool(set[n])
			g, _ := vField(v, n, "Datatype")
			g.SetString(string(t.t))
		}
	}
	start := vAddr()
	fill := func(a uint32, n int) {
		for i := 0; i < n; i++ {
			if vRnd.Intn(40) != 0 {
				cd.Hex[a+uint32(i)] = vByte()
			}
		}
	}
	type getter struct {
		n string
		f func(*a2l.RecordLayout, *uint32) (any, error)
	}
	wrap := func(f func(*a2l.RecordLayout, *uint32) (int64, error)) func(*a2l.RecordLayout, *uint32) (any, error) {
		return func(r *a2l.RecordLayout, p *uint32) (any, error) { return f(r, p) }
	}
	gs := []getter{
		{"DistOpX", wrap(cd.getDistOpX)}, {"DistOpY", wrap(cd.getDistOpY)}, {"DistOpZ", wrap(cd.getDistOpZ)}, {"DistOp4", wrap(cd.getDistOp4)}, {"DistOp5", wrap(cd.getDistOp5)},
		{"OffsetX", wrap(cd.getOffsetX)}, {"OffsetY", wrap(cd.getOffsetY)}, {"OffsetZ", wrap(cd.getOffsetZ)}, {"Offset4", wrap(cd.getOffset4)}, {"Offset5", wrap(cd.getOffset5)},
		{"ShiftOpX", wrap(cd.getShiftOpX)}, {"ShiftOpY", wrap(cd.getShiftOpY)}, {"ShiftOpZ", wrap(cd.getShiftOpZ)}, {"ShiftOp4", wrap(cd.getShiftOp4)}, {"ShiftOp5", wrap(cd.getShiftOp5)},
		{"NoAxisPtsX", wrap(cd.getNoAxisPtsX)}, {"NoAxisPtsY", wrap(cd.getNoAxisPtsY)}, {"NoAxisPtsZ", wrap(cd.getNoAxisPtsZ)}, {"NoAxisPts4", wrap(cd.getNoAxisPts4)}, {"NoAxisPts5", wrap(cd.getNoAxisPts5)},
		{"NoRescaleX", wrap(cd.getNoRescaleX)}, {"Identification", cd.getIdentification},
		{"FncValues", func(r *a2l.RecordLayout, p *uint32) (any, error) {
			x, b, err := (&CharacteristicValues{}).getFncValues1D(cd, r, p)
			return fmt.Sprint(x, b), err
		}},
	}
	read := func(t vType, p uint32) (raw []byte, val float64, next uint32, ok bool) {
		a := vAligned(cd, rl, t, p)
		for i := 0; i < t.bytes; i++ {
			b, has := cd.Hex[a+uint32(i)]
			if !has {
				return nil, 0, p, false
			}
			raw = append(raw, b)
		}
		val, ok = vDecode(cd, raw, t)
		return raw, val, a + uint32(t.bytes), ok
	}
	for _, g := range gs {
		t := kinds[g.n]
		p := start
		fill(vAligned(cd, rl, t, p), t.bytes)
		fill(p, t.bytes)
		raw, val, next, ok := read(t, p)
		var want any = int64(val)
		if g.n == "Identification" {
			want = raw
			ok = raw != nil
		}
		if g.n == "FncValues" {
			want = fmt.Sprint(val, raw)
		} else {
			ok = ok && set[g.n]
		}
		if !ok {
			next = p
		}
		in := fmt.Sprintf("component %s type %s set %v position %d layout %+v byte order %+v image %v", g.n, t.t, set[g.n], p, *rl, cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon, cd.Hex)
		vGuard("get"+g.n, in, func() {
			q := p
			got, err := g.f(rl, &q)
			if (err == nil) != ok {
				vReport("get"+g.n, "error reported wrongly", in, fmt.Sprint(got, err), fmt.Sprint("success expected: ", ok, want))
			} else if q != next {
				vReport("get"+g.n, "wrong read position afterwards", in, q, next)
			} else if ok && fmt.Sprint(got) != fmt.Sprint(want) && (t.bytes < 8 && !t.float || math.Abs(val) < 1e15 || g.n == "FncValues") {
				vReport("get"+g.n, "wrong value", in, fmt.Sprint(got), fmt.Sprint(want))
			}
		})
	}
	cv := &CharacteristicValues{}
	ax := []struct {
		n string
		f func(*CalibrationData, *a2l.RecordLayout, *uint32) ([]float64, error)
		c *int64
	}{{"X", cv.getAxisPointsX, &cv.noAxisPtsXValue}, {"Y", cv.getAxisPointsY, &cv.noAxisPtsYValue}, {"Z", cv.getAxisPointsZ, &cv.noAxisPtsZValue}, {"4", cv.getAxisPoints4, &cv.noAxisPts4Value}, {"5", cv.getAxisPoints5, &cv.noAxisPts5Value}}
	for _, a := range ax {
		*a.c = int64(vRnd.Intn(7)) - 1
		vSet(rl, vRnd.Intn(5), "FixNoAxisPts"+a.n, "NumberOfAxisPoints")
		vSet(rl, vRnd.Intn(2) == 0, "FixNoAxisPts"+a.n, "NumberOfAxisPointsSet")
	}
	for _, a := range ax {
		fs, _ := vField(v, "FixNoAxisPts"+a.n, "NumberOfAxisPointsSet")
		fn, _ := vField(v, "FixNoAxisPts"+a.n, "NumberOfAxisPoints")
		n := *a.c
		ok := n > 0
		if fs.Bool() {
			n, ok = int64(fn.Uint()), true
		}
		p := start
		t := kinds["AxisPts"+a.n]
		var want []float64
		for i := int64(0); i < n && ok; i++ {
			fill(vAligned(cd, rl, t, p), t.bytes)
			var x float64
			_, x, p, ok = read(t, p)
			want = append(want, x)
		}
		in := fmt.Sprintf("axis %s type %s points fixed %v %d dynamic %d position %d layout %+v image %v", a.n, t.t, fs.Bool(), fn.Uint(), *a.c, start, *rl, cd.Hex)
		vGuard("getAxisPoints"+a.n, in, func() {
			q := start
			got, err := a.f(cd, rl, &q)
			if (err == nil) != ok {
				vReport("getAxisPoints"+a.n, "error reported wrongly", in, fmt.Sprint(got, err), fmt.Sprint("success expected: ", ok, want))
			} else if ok && q != p {
				vReport("getAxisPoints"+a.n, "wrong read position afterwards", in, q, p)
			} else if ok && fmt.Sprint(got) != fmt.Sprint(want) {
				vReport("getAxisPoints"+a.n, "wrong values", in, fmt.Sprint(got), fmt.Sprint(want))
			}
		})
	}
	sizes := map[string]uint32{"BYTE": 1, "WORD": 2, "LONG": 4}
	for w, n := range sizes {
		if vRnd.Intn(3) != 0 {
			continue
		}
		p := start
		isSet := vRnd.Intn(3) != 0
		vSet(rl, w, "Reserved", "DataSize")
		vSet(rl, isSet, "Reserved", "DataSizeSet")
		vGuard("getReserved", w, func() {
			err := cd.getReserved(rl, &p)
			want := start
			if isSet {
				want += n
			}
			if (err == nil) != isSet || p != want {
				vReport("getReserved", "wrong position", fmt.Sprint(w, " set ", isSet, " at ", start), fmt.Sprint(p, err), want)
			}
		})
	}
	val := vRnd.Uint32() >> uint(vRnd.Intn(32))
	txt := fmt.Sprintf([]string{"0x%x", "0x%X", "%x", "%X", "0x%08X", "0x%x0x", "0x1%08x", "g%x", "-%x"}[vRnd.Intn(9)], val)
	vGuard("convertStringToUint32Address", txt, func() {
		got, err := cd.convertStringToUint32Address(txt)
		w, werr := strconv.ParseUint(strings.ReplaceAll(txt, "0x", ""), 16, 32)
		if (err == nil) != (werr == nil) || werr == nil && got != uint32(w) {
			vReport("convertStringToUint32Address", "wrong address", txt, fmt.Sprint(got, err), fmt.Sprint(w, werr))
		}
	})
}

func vTables() {
	cd := vOne()
	m := &cd.A2l.Project.Modules[cd.ModuleIndex]
	pool := []float64{0, math.Copysign(0, -1), 1, -1, 2, 2.5, 3, 1e9, math.NaN(), math.Inf(1)}
	rf := func() float64 { return pool[vRnd.Intn(len(pool))] }
	n := vRnd.Intn(6)
	m.CompuTabs, m.CompuVTabs, m.CompuVTabRanges = map[string]a2l.CompuTab{}, map[string]a2l.CompuVTab{}, map[string]a2l.CompuVTabRange{}
	var ct a2l.CompuTab
	var cv a2l.CompuVTab
	var cr a2l.CompuVTabRange
	for i := 0; i < n; i++ {
		x := rf()
		ct.InVal, ct.OutVal = append(ct.InVal, x), append(ct.OutVal, 100+float64(i))
		cv.InVal, cv.OutVal = append(cv.InVal, rf()), append(cv.OutVal, fmt.Sprint("v", i))
		lo, hi := rf(), rf()
		if lo > hi && vRnd.Intn(4) != 0 {
			lo, hi = hi, lo
		}
		cr.InValMin, cr.InValMax, cr.OutVal = append(cr.InValMin, lo), append(cr.InValMax, hi), append(cr.OutVal, fmt.Sprint("r", i))
	}
	full := vRnd.Intn(5) != 0
	ct.InValSet, ct.OutValSet, cv.InValSet, cv.OutValSet = full || vRnd.Intn(2) == 0, full || vRnd.Intn(2) == 0, full || vRnd.Intn(2) == 0, full || vRnd.Intn(2) == 0
	cr.NumberValueTriplesSet = vRnd.Intn(6) != 0
	ct.DefaultValueNumeric.DisplayValue, ct.DefaultValueNumeric.DisplayValueSet = 77, vRnd.Intn(2) == 0
	cv.DefaultValue.DisplayString, cv.DefaultValue.DisplayStringSet = "dv", vRnd.Intn(2) == 0
	cr.DefaultValue.DisplayString, cr.DefaultValue.DisplayStringSet = "dr", vRnd.Intn(2) == 0
	cv.Name, cr.Name = "V", "R"
	hasT, hasV, hasR := vRnd.Intn(6) != 0, vRnd.Intn(6) != 0, vRnd.Intn(6) != 0
	if hasT {
		m.CompuTabs["T"] = ct
	}
	if hasV {
		m.CompuVTabs["V"] = cv
	}
	if hasR {
		m.CompuVTabRanges["R"] = cr
	}
	dec := rf()
	var cm a2l.CompuMethod
	cm.CompuTabRef.ConversionTable = "T"
	wantT, okT := 77.0, hasT && ct.DefaultValueNumeric.DisplayValueSet
	if hasT && ct.InValSet && ct.OutValSet {
		for i := n - 1; i >= 0; i-- {
			if ct.InVal[i] == dec {
				wantT, okT = ct.OutVal[i], true
			}
		}
	}
	wantV, okV := "dv", hasV && cv.InValSet && cv.OutValSet && cv.DefaultValue.DisplayStringSet
	if hasV && cv.InValSet && cv.OutValSet {
		for i := n - 1; i >= 0; i-- {
			if cv.InVal[i] == dec {
				wantV, okV = cv.OutVal[i], true
			}
		}
	}
	wantR, okR := "dr", hasR && cr.NumberValueTriplesSet && cr.DefaultValue.DisplayStringSet
	if hasR && cr.NumberValueTriplesSet {
		for i := n - 1; i >= 0; i-- {
			if cr.InValMin[i] <= dec && dec <= cr.InValMax[i] {
				wantR, okR = cr.OutVal[i], true
			}
		}
	}
	in := fmt.Sprintf("value %v tables %+v (present %v) %+v (present %v) %+v (present %v)", dec, ct, hasT, cv, hasV, cr, hasR)
	check := func(fn string, got any, err error, want any, ok bool) {
		if (err == nil) != ok {
			vReport(fn, "error reported wrongly", in, fmt.Sprint(got, err), fmt.Sprint("success expected: ", ok, " ", want))
		} else if ok && fmt.Sprint(got) != fmt.Sprint(want) {
			vReport(fn, "wrong result", in, fmt.Sprint(got), fmt.Sprint(want))
		}
	}
	vGuard("calcTabNoIntp", in, func() { g, e := calcTabNoIntp(dec, &cm, cd); check("calcTabNoIntp", g, e, wantT, okT) })
	vGuard("calcTabVerb", in, func() { g, e := calcTabVerb(dec, &cv, cd); check("calcTabVerb", g, e, wantV, okV) })
	vGuard("calcTabVerbRange", in, func() { g, e := calcTabVerbRange(dec, &cr, cd); check("calcTabVerbRange", g, e, wantR, okR) })
	cm.CoeffsLinear.A, cm.CoeffsLinear.B = rf(), rf()
	cm.CoeffsLinear.ASet, cm.CoeffsLinear.BSet = vRnd.Intn(5) != 0, vRnd.Intn(5) != 0
	kinds := []struct {
		t    string
		want float64
		ok   bool
	}{{string(a2l.Identical), dec, true}, {string(a2l.Linear), cm.CoeffsLinear.A*dec + cm.CoeffsLinear.B, cm.CoeffsLinear.ASet && cm.CoeffsLinear.BSet}, {string(a2l.TabNointp), wantT, okT},
		{string(a2l.Form), 0, false}, {string(a2l.TabIntp), 0, false}, {string(a2l.TabVerb), 0, false}, {"", 0, false}}
	for _, k := range kinds {
		vSet(&cm, k.t, "ConversionType")
		in = fmt.Sprintf("value %v method %+v table %+v", dec, cm, ct)
		vGuard("convDecToPhy", in, func() { g, e := convDecToPhy(dec, &cm, cd); check("convDecToPhy", g, e, k.want, k.ok) })
	}
}

func vSystem() {
	cd := vOne()
	names := []string{"a", "b", "A", "", "long name"}
	for i := range cd.A2l.Project.Modules {
		sc := map[string]a2l.SystemConstant{}
		for j, n := range names {
			if vRnd.Intn(2) == 0 {
				sc[n] = a2l.SystemConstant{Name: n, NameSet: true, Value: fmt.Sprint("v", i, j), ValueSet: vRnd.Intn(3) != 0}
			}
		}
		if vRnd.Intn(8) != 0 {
			cd.A2l.Project.Modules[i].ModPar.SystemConstants = sc
		}
	}
	for _, n := range append(names, "absent") {
		want, has := cd.A2l.Project.Modules[cd.ModuleIndex].ModPar.SystemConstants[n]
		in := fmt.Sprintf("name %q constants %+v", n, cd.A2l.Project.Modules[cd.ModuleIndex].ModPar.SystemConstants)
		vGuard("getSystemConstant", in, func() {
			got, err := cd.getSystemConstant(n)
			if (err == nil) != has || has && got != want {
				vReport("getSystemConstant", "wrong result", in, fmt.Sprint(got, err), fmt.Sprint(want, has))
			}
		})
		vGuard("getSystemConstantValue", in, func() {
			got, err := cd.getSystemConstantValue(n)
			ok := has && want.ValueSet
			if (err == nil) != ok || ok && got != want.Value {
				vReport("getSystemConstantValue", "wrong result", in, fmt.Sprint(got, err), fmt.Sprint(want, ok))
			}
		})
	}
}

func vLookup() {
	cd := vOne()
	names := []string{"a", "b", ""}
	fields := []string{"AxisPts", "Characteristics", "CompuMethods", "CompuTabs", "CompuVTabs", "CompuVTabRanges", "Functions", "Groups", "Measurements", "RecordLayouts", "Units"}
	for i := range cd.A2l.Project.Modules {
		m := reflect.ValueOf(&cd.A2l.Project.Modules[i]).Elem()
		fill := func(f reflect.Value) {
			if vRnd.Intn(6) == 0 {
				return
			}
			f.Set(reflect.MakeMap(f.Type()))
			for _, n := range names {
				if vRnd.Intn(2) == 0 {
					e := reflect.New(f.Type().Elem()).Elem()
					if x, ok := vField(e, "Name"); ok {
						x.SetString(n)
					}
					if li, ok := vField(e, "LongIdentifier"); ok && li.Kind() == reflect.String {
						li.SetString(strconv.Itoa(i))
					}
					f.SetMapIndex(reflect.ValueOf(n), e)
				}
			}
		}
		for _, f := range fields {
			fill(m.FieldByName(f))
		}
		fill(m.FieldByName("ModPar").FieldByName("SystemConstants"))
	}
	for _, n := range append(names, "absent") {
		m := reflect.ValueOf(&cd.A2l.Project.Modules[cd.ModuleIndex]).Elem()
		want := map[string]any{}
		add := func(f reflect.Value) {
			if e := f.MapIndex(reflect.ValueOf(n)); e.IsValid() {
				want[e.Type().String()] = e.Interface()
			}
		}
		for _, f := range fields {
			add(m.FieldByName(f))
		}
		add(m.FieldByName("ModPar").FieldByName("SystemConstants"))
		in := fmt.Sprintf("identifier %q, kinds that contain it %d", n, len(want))
		vGuard("GetObjectByIdent", in, func() {
			got := cd.GetObjectByIdent(n)
			if len(got) != len(want) {
				vReport("GetObjectByIdent", "wrong number of objects", in, fmt.Sprintf("%T", got), len(want))
				return
			}
			seen := map[string]bool{}
			for _, g := range got {
				k := fmt.Sprintf("%T", g)
				w, ok := want[k]
				if !ok || seen[k] || !reflect.DeepEqual(g, w) {
					vReport("GetObjectByIdent", "wrong object of kind "+k, in, fmt.Sprintf("%+v", g), fmt.Sprintf("%+v", w))
				}
				seen[k] = true
			}
		})
	}
}

func TestVerifCalib(t *testing.T) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	vProp = os.Getenv("VERIF_PROP")
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	vRnd = rand.New(rand.NewSource(seed))
	d := 2 * time.Second
	if vProp == "P15" {
		d = 7 * time.Second
	}
	if os.Getenv("VERIF_TIER") == "thorough" {
		d = 25 * time.Second
	}
	vEnd = time.Now().Add(d)
	run := map[string]func(){"P14": vLookup, "P15": vRead, "P16": vAlign, "P17": vBytes, "P18": vConv, "P19": vPositions, "P20": vScalars, "P21": vTables, "P22": vSystem}[vProp]
	if run == nil {
		t.Fatal("no such property here")
	}
	for !vDone && time.Now().Before(vEnd) {
		run()
	}
	fmt.Printf("VERIF-DONE %d calls of the real functions compared, seed %d\n", vCount, seed)
}
