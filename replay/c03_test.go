package ua

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/google/uuid"
)

// TestVerifReplayC03 searches for a byte stream that makes one of the decoder's Read methods panic.
func TestVerifReplayC03(t *testing.T) {
	secs, _ := strconv.Atoi(os.Getenv("VERIF_REPLAY_SECS"))
	if secs == 0 {
		secs = 20
	}
	deadline := time.Now().Add(time.Duration(secs/2) * time.Second)
	rng := rand.New(rand.NewSource(3))
	ec := NewEncodingContext()
	fails := 0
	seen := map[string]bool{}
	try := func(m string, b []byte) {
		defer func() {
			if p := recover(); p != nil {
				k := m + fmt.Sprint(p)
				if !seen[k] && fails < 20 {
					bb := b
					if len(bb) > 80 {
						bb = bb[:80]
					}
					fmt.Printf("FAILING-INPUT %s(% x) panics: %v\n", m, bb, p)
					fails++
				}
				seen[k] = true
				t.Fail()
			}
		}()
		d := NewBinaryDecoder(bytes.NewReader(b), ec)
		f := reflect.ValueOf(d).MethodByName(m)
		f.Call([]reflect.Value{reflect.New(f.Type().In(0).Elem())})
	}
	var methods []string
	dt := reflect.TypeOf((*BinaryDecoder)(nil))
	for i := 0; i < dt.NumMethod(); i++ {
		m := dt.Method(i)
		if strings.HasPrefix(m.Name, "Read") && m.Type.NumIn() == 2 && m.Type.In(1).Kind() == reflect.Ptr {
			methods = append(methods, m.Name)
		}
	}
	one := int32(1)
	var vs []any
	vs = append(vs, nil, true, int8(1), byte(2), int16(3), uint16(4), int32(5), uint32(6), int64(7), uint64(8), float32(9), 10.0, "abc", time.Unix(1e9, 0), uuid.UUID{1}, ByteString("x"), XMLElement("y"),
		NodeIDString{1, "z"}, NodeID(NodeIDNumeric{1, 2}), ExpandedNodeID{1, "u", NodeIDNumeric{0, 3}}, StatusCode(1), QualifiedName{1, "q"}, LocalizedText{"a", "b"}, DataValue{Value: int32(1), StatusCode: 2}, Variant(int32(3)),
		[]bool{true, false}, []string{"a", "", "c"}, []Variant{int32(1), "x", []int32{1, 2}}, []DataValue{{Value: "x"}}, []NodeID{NodeIDNumeric{1, 2}})
	for _, e := range []any{true, int8(1), byte(2), int16(3), uint16(4), int32(5), uint32(6), int64(7), uint64(8), float32(9), 10.0, "abc", time.Unix(1e9, 0), uuid.UUID{1}, ByteString("x"), XMLElement("y"), NodeIDNumeric{1, 2}, ExpandedNodeID{1, "u", NodeIDNumeric{0, 3}}, StatusCode(1), QualifiedName{1, "q"}, LocalizedText{"a", "b"}, DataValue{Value: int32(1)}, int32(3)} {
		et := reflect.TypeOf(e)
		switch e.(type) {
		case NodeIDNumeric:
			et = reflect.TypeOf((*NodeID)(nil)).Elem()
		}
		s1 := reflect.MakeSlice(reflect.SliceOf(et), 2, 2)
		s1.Index(0).Set(reflect.ValueOf(e))
		s1.Index(1).Set(reflect.ValueOf(e))
		s2 := reflect.MakeSlice(reflect.SliceOf(s1.Type()), 3, 3)
		for i := 0; i < 3; i++ {
			s2.Index(i).Set(s1)
		}
		s3 := reflect.MakeSlice(reflect.SliceOf(s2.Type()), 2, 2)
		s3.Index(0).Set(s2)
		s3.Index(1).Set(s2)
		vs = append(vs, s1.Interface(), s2.Interface(), s3.Interface())
	}
	var seeds [][]byte
	for _, v := range vs {
		var b bytes.Buffer
		func() {
			defer func() { recover() }()
			if NewBinaryEncoder(&b, ec).WriteVariant(v) == nil {
				seeds = append(seeds, append([]byte{}, b.Bytes()...))
			}
		}()
	}
	var b bytes.Buffer
	NewBinaryEncoder(&b, ec).WriteDiagnosticInfo(DiagnosticInfo{SymbolicID: &one, NamespaceURI: &one, Locale: &one, LocalizedText: &one, InnerDiagnosticInfo: &DiagnosticInfo{Locale: &one}})
	seeds = append(seeds, b.Bytes())
	words := []int32{-1, -2, 0, 1, 2, 3, 5, 7, -2147483648, 6, 4, 12}
	// every type byte with every small dimension vector
	for tb := 0; tb < 64; tb++ {
		for _, hi := range []int{0x80, 0xC0} {
			for _, n := range []int32{-1, 0, 1, 2, 6} {
				for nd := 0; nd <= 4; nd++ {
					for r := 0; r < 24; r++ {
						var b bytes.Buffer
						b.WriteByte(byte(tb | hi))
						binary.Write(&b, binary.LittleEndian, n)
						fixed := make([]byte, 16)
						for i := int32(0); i < n; i++ {
							// minimal element encodings: fixed width for numbers, -1 length for strings, zero masks
							w := map[int]int{1: 1, 2: 1, 3: 1, 4: 2, 5: 2, 6: 4, 7: 4, 8: 8, 9: 8, 10: 4, 11: 8, 12: 4, 13: 8, 14: 16, 15: 4, 16: 4, 17: 2, 18: 2, 19: 4, 20: 6, 21: 1, 22: 3, 23: 1, 24: 1, 25: 1}[tb]
							b.Write(fixed[:w])
						}
						binary.Write(&b, binary.LittleEndian, int32(nd))
						for i := 0; i < nd; i++ {
							binary.Write(&b, binary.LittleEndian, words[rng.Intn(len(words))])
						}
						try("ReadVariant", b.Bytes())
						try("ReadDataValue", append([]byte{1}, b.Bytes()...))
					}
				}
			}
		}
	}
	for n := 0; time.Now().Before(deadline) && fails < 5; n++ {
		s := append([]byte{}, seeds[rng.Intn(len(seeds))]...)
		for k := rng.Intn(4); k >= 0 && len(s) > 0; k-- {
			switch rng.Intn(4) {
			case 0:
				s = s[:rng.Intn(len(s)+1)]
			case 1:
				if len(s) >= 4 {
					binary.LittleEndian.PutUint32(s[rng.Intn(len(s)-3):], uint32(words[rng.Intn(len(words))]))
				}
			case 2:
				s[0] = byte(rng.Intn(256))
			case 3:
				s[rng.Intn(len(s))] = []byte{0, 1, 2, 3}[rng.Intn(4)]
			}
		}
		if n%3 == 0 {
			s = make([]byte, rng.Intn(40))
			for i := range s {
				s[i] = []byte{0, 0, 0, 1, 2, 255, 3, byte(rng.Intn(64))}[rng.Intn(8)]
			}
			for i := 0; i+3 < len(s); i++ { // no huge announced lengths
				if s[i+3] != 0 && s[i+3] < 128 && s[i+3] > 1 {
					s[i+3] = 0
				}
			}
		}
		m := "ReadVariant"
		if rng.Intn(2) == 0 {
			m = methods[rng.Intn(len(methods))]
		}
		try(m, s)
	}
	fmt.Println("methods", len(methods), "seeds", len(seeds))
}
