package a2l

import "fmt"

func vWidths() {
	type row struct {
		d DataTypeEnum
		w uint16
		t string
	}
	rows := []row{{"UBYTE", 8, "uint8"}, {"SBYTE", 8, "int8"}, {"UWORD", 16, "uint16"}, {"SWORD", 16, "int16"}, {"ULONG", 32, "uint32"}, {"SLONG", 32, "int32"},
		{"A_UINT64", 64, "uint64"}, {"A_INT64", 64, "int64"}, {"FLOAT16_IEEE", 16, "float16.Float16"}, {"FLOAT32_IEEE", 32, "float32"}, {"FLOAT64_IEEE", 64, "float64"}, {"", 0, "<nil>"}, {"X", 0, "<nil>"}}
	for _, r := range rows {
		vCount++
		d := r.d
		if got := d.GetDatatypeLength(); got != r.w {
			vReport(&vCase{Function: "GetDatatypeLength", What: "bit width", Input: r.d, Got: got, Want: r.w})
			return
		}
		if got := fmt.Sprintf("%T", d.GetType()); got != r.t {
			vReport(&vCase{Function: "GetType", What: "type of the value", Input: r.d, Got: got, Want: r.t})
			return
		}
		want := string(r.d)
		if r.t == "<nil>" {
			want = ""
		}
		d = r.d
		if got := d.String(); got != want && !(r.d == "X" && got == "emptyToken") {
			if want == "" && (got == "" || got == emptyToken) {
				continue
			}
			vReport(&vCase{Function: "String", What: "name", Input: r.d, Got: got, Want: want})
			return
		}
	}
	for s, w := range map[DataSizeEnum]uint16{"BYTE": 8, "WORD": 16, "LONG": 32, "": 0, "X": 0} {
		vCount++
		x := s
		if got := x.GetDataSizeLength(); got != w {
			vReport(&vCase{Function: "GetDataSizeLength", What: "bit width", Input: s, Got: got, Want: w})
			return
		}
	}
}

func vMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
