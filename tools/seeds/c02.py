import sys; sys.path.insert(0,"/verif/tools")
from mkseed import make
make("c02-nodeid-fourbyte","C02",[["ua/binary_encoder.go","case value2.ID <= 65535 && value2.NamespaceIndex <= 255:","case value2.ID <= 0xFFFF && value2.NamespaceIndex <= 0x100:"]],
 "a numeric NodeID in namespace 256 whose identifier fits 16 bits","the namespace index is truncated to one byte: the node id decodes in namespace 0","ua",'''package ua
import ("bytes";"testing")
func TestDemo(t *testing.T) {
	for _, ns := range []uint16{0, 1, 255, 256, 257, 65535} {
		for _, id := range []uint32{0, 255, 256, 65535, 65536, 1<<31} {
			v := NewNodeIDNumeric(ns, id)
			var b bytes.Buffer
			if err := NewBinaryEncoder(&b, NewEncodingContext()).WriteNodeID(v); err != nil { t.Fatal(err) }
			var o NodeID
			if err := NewBinaryDecoder(&b, NewEncodingContext()).ReadNodeID(&o); err != nil { t.Fatal(err) }
			if o != NodeID(v) && !(ns == 0 && id == 0) { t.Fatalf("%v decodes as %v", v, o) }
		}
	}
}
''')
make("c02-variant-emptyarray","C02",[["ua/binary_decoder.go","""	temp := make([]LocalizedText, n)
	for i := range temp {
		if err := dec.ReadLocalizedText(&temp[i]); err != nil {
			return BadDecodingError
		}
	}""","""	temp := make([]LocalizedText, n)
	var last LocalizedText
	for i := range temp {
		if err := dec.ReadLocalizedText(&last); err != nil {
			return BadDecodingError
		}
		if last.Text == "" && i > 0 {
			// repeated texts are usually sent once
			last.Text = temp[i-1].Text
		}
		temp[i] = last
	}"""]],
 "an array of LocalizedText with an empty text after a non-empty one","the empty text decodes as a copy of its predecessor","ua",'''package ua
import ("bytes";"testing";"reflect")
func TestDemo(t *testing.T) {
	for _, v := range [][]LocalizedText{nil, {}, {{"a","b"}}, {{"a","en"},{"","en"}}, {{"",""},{"x",""},{"",""}}} {
		var b bytes.Buffer
		if err := NewBinaryEncoder(&b, NewEncodingContext()).WriteVariant(v); err != nil { t.Fatal(err) }
		var o Variant
		if err := NewBinaryDecoder(&b, NewEncodingContext()).ReadVariant(&o); err != nil { t.Fatal(err) }
		if len(v) == 0 { continue }
		if !reflect.DeepEqual(Variant(v), o) { t.Fatalf("%v decodes as %v", v, o) }
	}
}
''')
