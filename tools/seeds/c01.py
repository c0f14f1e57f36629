import sys; sys.path.insert(0,"/verif/tools")
from mkseed import make
make("c01-datetime-rounding","C01",[["ua/binary_encoder.go","*10000000 + int64(value.Nanosecond())/100","*10000000 + (int64(value.Nanosecond())+50)/100%10000000"]],
 "a DateTime whose sub-second part is within 50 ns of the next second","the encoded time jumps back by almost a second (and other times are rounded up instead of truncated)","ua",'''package ua
import ("bytes";"testing";"time")
func TestDemo(t *testing.T) {
	for _, ns := range []int64{0, 100, 999999900, 999999999} {
		v := time.Unix(1700000000, ns)
		var b bytes.Buffer
		if err := NewBinaryEncoder(&b, NewEncodingContext()).WriteDateTime(v); err != nil { t.Fatal(err) }
		var o time.Time
		if err := NewBinaryDecoder(&b, NewEncodingContext()).ReadDateTime(&o); err != nil { t.Fatal(err) }
		if d := v.Sub(o); d < 0 || d >= 100 { t.Fatalf("%v decodes as %v", v, o) }
	}
}
''')
make("c01-bytestring-chunks","C01",[["ua/binary_decoder.go","""	bs := make([]byte, n)
	if _, err := io.ReadFull(dec.r, bs); err != nil {
		return BadDecodingError
	}
	*value = *(*ByteString)(unsafe.Pointer(&bs))
""","""	// do not trust the announced length: grow while reading
	bs := make([]byte, 0, min(int(n), 65536))
	for m := int(n); m > 0; m -= 65536 {
		part := make([]byte, min(m, 65536))
		if _, err := io.ReadFull(dec.r, part); err != nil {
			return BadDecodingError
		}
		if len(part) < 65536 && len(bs) > 0 {
			part = part[:len(part)-len(part)%2]
		}
		bs = append(bs, part...)
	}
	*value = ByteString(bs)
"""]],
 "a ByteString longer than 64 KiB whose last part has an odd length","the last byte of a long byte string is dropped while decoding","ua",'''package ua
import ("bytes";"testing";"strings")
func TestDemo(t *testing.T) {
	for _, n := range []int{0, 1, 70000, 70001, 65537} {
		v := ByteString(strings.Repeat("x", n))
		var b bytes.Buffer
		if err := NewBinaryEncoder(&b, NewEncodingContext()).WriteByteString(v); err != nil { t.Fatal(err) }
		var o ByteString
		if err := NewBinaryDecoder(&b, NewEncodingContext()).ReadByteString(&o); err != nil { t.Fatal(err) }
		if v != o { t.Fatalf("length %d decodes as length %d", n, len(o)) }
	}
}
''')
