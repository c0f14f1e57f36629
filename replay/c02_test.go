package ua

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"testing"
	"time"

	"github.com/google/uuid"
)

// TestVerifReplayC02 searches for a structured value, array or variant that does not survive a round trip.
func TestVerifReplayC02(t *testing.T) {
	fails := 0
	fail := func(f string, a ...any) {
		if fails < 20 {
			s := fmt.Sprintf(f, a...)
			if len(s) > 600 {
				s = s[:600] + "..."
			}
			fmt.Println("FAILING-INPUT " + s)
		}
		fails++
		t.Fail()
	}
	rng := rand.New(rand.NewSource(2))
	tail := []byte{0xA5, 0x5A, 0xC3}
	ec := NewEncodingContext()
	run := func(name string, v any, w func(*BinaryEncoder) error, r func(*BinaryDecoder) (any, error), norm func(any) any) {
		defer func() {
			if p := recover(); p != nil {
				fail("%s(%#v) panics: %v", name, v, p)
			}
		}()
		var buf bytes.Buffer
		if err := w(NewBinaryEncoder(&buf, ec)); err != nil {
			fail("Write%s(%#v) fails: %v", name, v, err)
			return
		}
		b := buf.Bytes()
		rd := bytes.NewReader(append(append([]byte{}, b...), tail...))
		out, err := r(NewBinaryDecoder(rd, ec))
		if err != nil {
			fail("Read%s of the encoding of %#v fails: %v", name, v, err)
			return
		}
		want := v
		if norm != nil {
			want = norm(v)
		}
		if !reflect.DeepEqual(out, want) {
			fail("%s: %#v decodes as %#v", name, v, out)
		}
		if rd.Len() != len(tail) {
			fail("Read%s of %#v consumed %d bytes of %d", name, v, len(b)+len(tail)-rd.Len(), len(b))
		}
	}
	u16s := []uint16{0, 1, 127, 128, 254, 255, 256, 257, 32767, 32768, 65535}
	u32s := []uint32{0, 1, 127, 128, 255, 256, 65535, 65536, 1 << 31, 1<<32 - 1}
	strs := []string{"", "a", "h\u00e9", "urn:x:y", string(make([]byte, 300))}
	tm := func(ns int64) time.Time { return time.Unix(0, ns-ns%100).UTC() }
	times := []time.Time{{}, tm(0), tm(1600000000123456700), time.Date(1601, 1, 1, 0, 0, 0, 100, time.UTC), time.Date(9999, 12, 31, 23, 59, 58, 0, time.UTC)}
	guid := uuid.UUID{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
	var nids []NodeID
	for _, ns := range u16s {
		for _, id := range u32s {
			if ns != 0 || id != 0 {
				nids = append(nids, NodeIDNumeric{NamespaceIndex: ns, ID: id})
			}
		}
		for _, s := range strs {
			if ns != 0 || s != "" {
				nids = append(nids, NodeIDString{NamespaceIndex: ns, ID: s}, NodeIDOpaque{NamespaceIndex: ns, ID: ByteString(s)})
			}
		}
		nids = append(nids, NodeIDGUID{NamespaceIndex: ns, ID: guid})
	}
	for _, v := range append([]NodeID{nil}, nids...) {
		v := v
		run("NodeID", v, func(e *BinaryEncoder) error { return e.WriteNodeID(v) }, func(d *BinaryDecoder) (any, error) { var o NodeID; err := d.ReadNodeID(&o); return o, err }, nil)
	}
	var xids []ExpandedNodeID
	for _, n0 := range append([]NodeID{nil}, nids...) {
		for _, svr := range []uint32{0, 1, 255, 1 << 31} {
			for _, nsu := range []string{"", "urn:x"} {
				n := n0
				if nsu != "" && n != nil { // the index is replaced by the URI
					switch m := n.(type) {
					case NodeIDNumeric:
						m.NamespaceIndex = 0
						n = m
						if m.ID == 0 {
							continue
						}
					case NodeIDString:
						m.NamespaceIndex = 0
						n = m
					case NodeIDGUID:
						m.NamespaceIndex = 0
						n = m
					case NodeIDOpaque:
						m.NamespaceIndex = 0
						n = m
					}
				}
				xids = append(xids, ExpandedNodeID{ServerIndex: svr, NamespaceURI: nsu, NodeID: n})
			}
		}
	}
	for _, v := range xids {
		v := v
		run("ExpandedNodeID", v, func(e *BinaryEncoder) error { return e.WriteExpandedNodeID(v) }, func(d *BinaryDecoder) (any, error) {
			var o ExpandedNodeID
			err := d.ReadExpandedNodeID(&o)
			return o, err
		}, nil)
	}
	for _, ns := range u16s {
		for _, s := range strs {
			v := QualifiedName{NamespaceIndex: ns, Name: s}
			run("QualifiedName", v, func(e *BinaryEncoder) error { return e.WriteQualifiedName(v) }, func(d *BinaryDecoder) (any, error) { var o QualifiedName; err := d.ReadQualifiedName(&o); return o, err }, nil)
		}
	}
	for _, a := range strs {
		for _, b := range strs {
			v := LocalizedText{Text: a, Locale: b}
			run("LocalizedText", v, func(e *BinaryEncoder) error { return e.WriteLocalizedText(v) }, func(d *BinaryDecoder) (any, error) { var o LocalizedText; err := d.ReadLocalizedText(&o); return o, err }, nil)
		}
	}
	var dvs []DataValue
	for m := 0; m < 64; m++ {
		for _, x := range []struct {
			sc StatusCode
			ps uint16
		}{{1, 1}, {0x80000000, 0x8000}, {0xFFFFFFFF, 9999}, {256, 256}} {
			var v DataValue
			if m&1 != 0 {
				v.Value = int32(-7)
			}
			if m&2 != 0 {
				v.StatusCode = x.sc
			}
			if m&4 != 0 {
				v.SourceTimestamp = times[2]
			}
			if m&8 != 0 {
				v.SourcePicoseconds = x.ps
			}
			if m&16 != 0 {
				v.ServerTimestamp = times[3]
			}
			if m&32 != 0 {
				v.ServerPicoseconds = x.ps + 1
			}
			dvs = append(dvs, v)
		}
	}
	for _, v := range dvs {
		v := v
		run("DataValue", v, func(e *BinaryEncoder) error { return e.WriteDataValue(v) }, func(d *BinaryDecoder) (any, error) { var o DataValue; err := d.ReadDataValue(&o); return o, err }, nil)
	}
	var dis []DiagnosticInfo
	for m := 0; m < 128; m++ {
		for _, i := range []int32{0, 1, -1, math.MaxInt32, math.MinInt32} {
			a, b, c, d := i, i+1, i+2, i+3
			s, sc := "info", StatusCode(uint32(i))
			var v DiagnosticInfo
			if m&1 != 0 {
				v.SymbolicID = &a
			}
			if m&2 != 0 {
				v.NamespaceURI = &b
			}
			if m&4 != 0 {
				v.Locale = &c
			}
			if m&8 != 0 {
				v.LocalizedText = &d
			}
			if m&16 != 0 {
				v.AdditionalInfo = &s
			}
			if m&32 != 0 {
				v.InnerStatusCode = &sc
			}
			if m&64 != 0 {
				v.InnerDiagnosticInfo = &DiagnosticInfo{SymbolicID: &b, InnerDiagnosticInfo: &DiagnosticInfo{Locale: &a}}
			}
			dis = append(dis, v)
		}
	}
	for _, v := range dis {
		v := v
		run("DiagnosticInfo", v, func(e *BinaryEncoder) error { return e.WriteDiagnosticInfo(v) }, func(d *BinaryDecoder) (any, error) {
			var o DiagnosticInfo
			err := d.ReadDiagnosticInfo(&o)
			return o, err
		}, nil)
	}
	// arrays and variants of every element type
	gens := map[string]func(i int) any{
		"Boolean":        func(i int) any { return i%2 == 0 },
		"SByte":          func(i int) any { return int8(i*37 - 128) },
		"Byte":           func(i int) any { return byte(i * 31) },
		"Int16":          func(i int) any { return int16(uint16(rng.Uint32())) },
		"UInt16":         func(i int) any { return uint16(rng.Uint32()) },
		"Int32":          func(i int) any { return int32(rng.Uint32()) },
		"UInt32":         func(i int) any { return rng.Uint32() },
		"Int64":          func(i int) any { return int64(rng.Uint64()) },
		"UInt64":         func(i int) any { return rng.Uint64() },
		"Float":          func(i int) any { return float32(rng.NormFloat64()) },
		"Double":         func(i int) any { return rng.NormFloat64() },
		"String":         func(i int) any { return strs[i%len(strs)] },
		"DateTime":       func(i int) any { return times[1+i%(len(times)-1)] },
		"GUID":           func(i int) any { g := guid; g[0] = byte(i); return g },
		"ByteString":     func(i int) any { return ByteString(strs[i%len(strs)]) },
		"XMLElement":     func(i int) any { return XMLElement(strs[i%len(strs)]) },
		"NodeID":         func(i int) any { return nids[rng.Intn(len(nids))] },
		"ExpandedNodeID": func(i int) any { return xids[rng.Intn(len(xids))] },
		"StatusCode":     func(i int) any { return StatusCode(rng.Uint32()) },
		"QualifiedName":  func(i int) any { return QualifiedName{NamespaceIndex: uint16(i), Name: strs[i%len(strs)]} },
		"LocalizedText":  func(i int) any { return LocalizedText{Text: strs[i%len(strs)], Locale: "en"} },
		"DataValue":      func(i int) any { return dvs[rng.Intn(len(dvs))] },
		"Variant":        func(i int) any { return []any{int32(i), "s", true, 1.5, nil}[i%5] },
		"DiagnosticInfo": func(i int) any { return dis[rng.Intn(len(dis))] },
	}
	elemT := map[string]reflect.Type{"NodeID": reflect.TypeOf((*NodeID)(nil)).Elem(), "Variant": reflect.TypeOf((*Variant)(nil)).Elem(), "ExtensionObject": reflect.TypeOf((*ExtensionObject)(nil)).Elem()}
	wv := func(v any) func(e *BinaryEncoder) error { return func(e *BinaryEncoder) error { return e.WriteVariant(v) } }
	rv := func(d *BinaryDecoder) (any, error) {
		var o Variant = "stale"
		err := d.ReadVariant(&o)
		return o, err
	}
	run("Variant", nil, wv(nil), rv, nil)
	for name, g := range gens {
		et, ok := elemT[name]
		if !ok {
			et = reflect.TypeOf(g(0))
		}
		st := reflect.SliceOf(et)
		mk := func(n int) reflect.Value {
			s := reflect.MakeSlice(st, n, n)
			for i := 0; i < n; i++ {
				if x := g(i); x != nil {
					s.Index(i).Set(reflect.ValueOf(x))
				}
			}
			return s
		}
		for _, n := range []int{-1, 0, 1, 2, 3, 5, 17, 130, 300, 1000} {
			s := reflect.Zero(st)
			if n >= 0 {
				s = mk(n)
			}
			v := s.Interface()
			run(name+"Array", v, func(e *BinaryEncoder) error {
				r := reflect.ValueOf(e).MethodByName("Write" + name + "Array").Call([]reflect.Value{s})[0].Interface()
				if r == nil {
					return nil
				}
				return r.(error)
			}, func(d *BinaryDecoder) (any, error) {
				o := reflect.New(st)
				r := reflect.ValueOf(d).MethodByName("Read" + name + "Array").Call([]reflect.Value{o})[0].Interface()
				if r == nil {
					return o.Elem().Interface(), nil
				}
				return o.Elem().Interface(), r.(error)
			}, nil)
			if name != "DiagnosticInfo" {
				run("Variant", v, wv(v), rv, nil)
			}
		}
		if name == "DiagnosticInfo" {
			continue
		}
		if name != "Variant" {
			for i := 0; i < 40; i++ {
				v := g(i)
				run("Variant", v, wv(v), rv, nil)
			}
		}
	}
}

// TestVerifBoundedC02 is the bounded stand-in for multi-dimensional variants (dimensions 1..3, every
// element type but DiagnosticInfo): flatten/dims/split are outside the proved part.
func TestVerifBoundedC02(t *testing.T) {
	n := 0
	gens := []any{true, int8(-1), byte(200), int16(-2), uint16(3), int32(-4), uint32(5), int64(-6), uint64(7), float32(1.5), 2.5, "s",
		time.Unix(1600000000, 0).UTC(), uuid.UUID{1, 2, 3}, ByteString("b"), XMLElement("<x/>"), NodeIDNumeric{NamespaceIndex: 1, ID: 2},
		ExpandedNodeID{NamespaceURI: "u", NodeID: NodeIDNumeric{ID: 3}}, StatusCode(9), QualifiedName{NamespaceIndex: 1, Name: "q"}, LocalizedText{Text: "t", Locale: "en"},
		DataValue{Value: int32(1)}}
	ec := NewEncodingContext()
	check := func(v any) {
		defer func() {
			if p := recover(); p != nil {
				fmt.Printf("FAILING-INPUT variant %T %v panics: %v\n", v, v, p)
				t.Fail()
			}
		}()
		var buf bytes.Buffer
		if err := NewBinaryEncoder(&buf, ec).WriteVariant(v); err != nil {
			fmt.Printf("FAILING-INPUT variant %T %v is not encoded: %v\n", v, v, err)
			t.Fail()
			return
		}
		buf.WriteByte(0xA5)
		var o Variant
		if err := NewBinaryDecoder(&buf, ec).ReadVariant(&o); err != nil || !reflect.DeepEqual(o, v) || buf.Len() != 1 {
			fmt.Printf("FAILING-INPUT variant %T %v decodes as %T %v, err %v, %d bytes left\n", v, v, o, o, err, buf.Len()-1)
			t.Fail()
		}
		n++
	}
	vary := func(v any, i int) reflect.Value {
		r := reflect.New(reflect.TypeOf(v)).Elem()
		r.Set(reflect.ValueOf(v))
		switch r.Kind() {
		case reflect.Bool:
			r.SetBool(i%2 == 0)
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			r.SetInt(int64(i) - 3)
		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			r.SetUint(uint64(i))
		case reflect.Float32, reflect.Float64:
			r.SetFloat(float64(i) / 2)
		case reflect.String:
			r.SetString(fmt.Sprint("s", i))
		}
		switch x := v.(type) {
		case NodeIDNumeric:
			x.ID = uint32(i) + 1
			r.Set(reflect.ValueOf(x))
		case QualifiedName:
			x.Name = fmt.Sprint(i)
			r.Set(reflect.ValueOf(x))
		case LocalizedText:
			x.Text = fmt.Sprint(i)
			r.Set(reflect.ValueOf(x))
		case DataValue:
			x.Value = int32(i)
			r.Set(reflect.ValueOf(x))
		case uuid.UUID:
			x[3] = byte(i)
			r.Set(reflect.ValueOf(x))
		case time.Time:
			r.Set(reflect.ValueOf(x.Add(time.Duration(i) * time.Second)))
		case ExpandedNodeID:
			x.ServerIndex = uint32(i)
			r.Set(reflect.ValueOf(x))
		}
		return r
	}
	for _, e := range gens {
		et := reflect.TypeOf(e)
		if _, ok := e.(NodeIDNumeric); ok {
			et = reflect.TypeOf((*NodeID)(nil)).Elem()
		}
		for a := 1; a <= 3; a++ {
			for b := 1; b <= 3; b++ {
				s1 := reflect.SliceOf(et)
				s2 := reflect.SliceOf(s1)
				s3 := reflect.SliceOf(s2)
				k := 0
				row := func(c int) reflect.Value {
					r := reflect.MakeSlice(s1, c, c)
					for i := 0; i < c; i++ {
						r.Index(i).Set(vary(e, k))
						k++
					}
					return r
				}
				m := reflect.MakeSlice(s2, a, a)
				for i := 0; i < a; i++ {
					m.Index(i).Set(row(b))
				}
				check(m.Interface())
				for c := 1; c <= 3; c++ {
					q := reflect.MakeSlice(s3, a, a)
					for i := 0; i < a; i++ {
						r := reflect.MakeSlice(s2, b, b)
						for j := 0; j < b; j++ {
							r.Index(j).Set(row(c))
						}
						q.Index(i).Set(r)
					}
					check(q.Interface())
				}
			}
		}
	}
	fmt.Println("BOUNDED-CASES", n)
}
