package ua

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"testing"
	"time"

	"github.com/google/uuid"
)

// TestVerifReplayC01 searches for a value whose encoding does not decode back
// to it (or does not have its OPC UA wire form) on the real encoder/decoder.
func TestVerifReplayC01(t *testing.T) {
	fails := 0
	fail := func(f string, a ...any) {
		if fails < 20 {
			fmt.Printf("FAILING-INPUT "+f+"\n", a...)
		}
		fails++
		t.Fail()
	}
	rng := rand.New(rand.NewSource(1))
	guard := func(what string, v any, f func()) {
		defer func() {
			if r := recover(); r != nil {
				fail("%s(%#v) panics: %v", what, v, r)
			}
		}()
		f()
	}
	tail := []byte{0xA5, 0x5A, 0xC3}
	run := func(name string, v any, wire []byte, w func(*BinaryEncoder) error, r func(*BinaryDecoder) (any, error), eq func(any) bool) {
		guard(name, v, func() {
			var buf bytes.Buffer
			buf.Write([]byte{1, 2, 3})
			if err := w(NewBinaryEncoder(&buf, NewEncodingContext())); err != nil {
				fail("Write%s(%#v) fails: %v", name, v, err)
				return
			}
			b := buf.Bytes()
			if !bytes.Equal(b[:3], []byte{1, 2, 3}) {
				fail("Write%s(%#v) changed earlier bytes", name, v)
			}
			b = b[3:]
			if wire != nil && !bytes.Equal(b, wire) {
				fail("Write%s(%#v) = % x, want % x", name, v, b, wire)
			}
			rd := bytes.NewReader(append(append([]byte{}, b...), tail...))
			out, err := r(NewBinaryDecoder(rd, NewEncodingContext()))
			if err != nil {
				fail("Read%s of the encoding of %#v fails: %v", name, v, err)
				return
			}
			if !eq(out) {
				fail("%s: %#v decodes as %#v", name, v, out)
			}
			if rd.Len() != len(tail) {
				fail("Read%s of %#v consumed %d bytes of %d", name, v, len(b)+len(tail)-rd.Len(), len(b))
			}
		})
	}
	le := func(u uint64, n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(u >> (8 * i))
		}
		return b
	}
	var us []uint64
	for i := 0; i < 64; i++ {
		for d := -2; d <= 2; d++ {
			us = append(us, uint64(1)<<i+uint64(int64(d)), -(uint64(1)<<i + uint64(int64(d))))
		}
	}
	for i := 0; i < 20000; i++ {
		us = append(us, rng.Uint64()>>uint(rng.Intn(64)))
	}
	for i := uint64(0); i < 65536; i++ {
		us = append(us, i)
	}
	one := func(x any) func(any) bool { return func(y any) bool { return x == y } }
	for _, u := range us {
		u := u
		run("SByte", int8(u), le(u, 1), func(e *BinaryEncoder) error { return e.WriteSByte(int8(u)) }, func(d *BinaryDecoder) (any, error) { var o int8; err := d.ReadSByte(&o); return o, err }, one(int8(u)))
		run("Byte", byte(u), le(u, 1), func(e *BinaryEncoder) error { return e.WriteByte(byte(u)) }, func(d *BinaryDecoder) (any, error) { var o byte; err := d.ReadByte(&o); return o, err }, one(byte(u)))
		run("Int16", int16(u), le(u, 2), func(e *BinaryEncoder) error { return e.WriteInt16(int16(u)) }, func(d *BinaryDecoder) (any, error) { var o int16; err := d.ReadInt16(&o); return o, err }, one(int16(u)))
		run("UInt16", uint16(u), le(u, 2), func(e *BinaryEncoder) error { return e.WriteUInt16(uint16(u)) }, func(d *BinaryDecoder) (any, error) { var o uint16; err := d.ReadUInt16(&o); return o, err }, one(uint16(u)))
		run("Int32", int32(u), le(u, 4), func(e *BinaryEncoder) error { return e.WriteInt32(int32(u)) }, func(d *BinaryDecoder) (any, error) { var o int32; err := d.ReadInt32(&o); return o, err }, one(int32(u)))
		run("UInt32", uint32(u), le(u, 4), func(e *BinaryEncoder) error { return e.WriteUInt32(uint32(u)) }, func(d *BinaryDecoder) (any, error) { var o uint32; err := d.ReadUInt32(&o); return o, err }, one(uint32(u)))
		run("Int64", int64(u), le(u, 8), func(e *BinaryEncoder) error { return e.WriteInt64(int64(u)) }, func(d *BinaryDecoder) (any, error) { var o int64; err := d.ReadInt64(&o); return o, err }, one(int64(u)))
		run("UInt64", uint64(u), le(u, 8), func(e *BinaryEncoder) error { return e.WriteUInt64(uint64(u)) }, func(d *BinaryDecoder) (any, error) { var o uint64; err := d.ReadUInt64(&o); return o, err }, one(uint64(u)))
		run("StatusCode", StatusCode(u), le(u, 4), func(e *BinaryEncoder) error { return e.WriteStatusCode(StatusCode(u)) }, func(d *BinaryDecoder) (any, error) { var o StatusCode; err := d.ReadStatusCode(&o); return o, err }, one(StatusCode(u)))
		f := math.Float32frombits(uint32(u))
		run("Float", f, le(u, 4), func(e *BinaryEncoder) error { return e.WriteFloat(f) }, func(d *BinaryDecoder) (any, error) { var o float32; err := d.ReadFloat(&o); return o, err }, func(o any) bool { return math.Float32bits(o.(float32)) == math.Float32bits(f) })
		g := math.Float64frombits(u)
		run("Double", g, le(u, 8), func(e *BinaryEncoder) error { return e.WriteDouble(g) }, func(d *BinaryDecoder) (any, error) { var o float64; err := d.ReadDouble(&o); return o, err }, func(o any) bool { return math.Float64bits(o.(float64)) == u })
	}
	for _, b := range []bool{false, true} {
		w := byte(0)
		if b {
			w = 1
		}
		run("Boolean", b, []byte{w}, func(e *BinaryEncoder) error { return e.WriteBoolean(b) }, func(d *BinaryDecoder) (any, error) { var o bool; err := d.ReadBoolean(&o); return o, err }, one(b))
	}
	for i := 0; i < 256; i++ {
		var o bool
		if err := NewBinaryDecoder(bytes.NewReader([]byte{byte(i)}), NewEncodingContext()).ReadBoolean(&o); err != nil || o != (i != 0) {
			fail("ReadBoolean(%d) = %v, %v", i, o, err)
		}
	}
	for i := 0; i < 3000; i++ {
		var id uuid.UUID
		rng.Read(id[:])
		p := []int{3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15}
		w := make([]byte, 16)
		for k := range w {
			w[k] = id[p[k]]
		}
		run("GUID", id, w, func(e *BinaryEncoder) error { return e.WriteGUID(id) }, func(d *BinaryDecoder) (any, error) { var o uuid.UUID; err := d.ReadGUID(&o); return o, err }, one(id))
	}
	for n := 0; n < 70000; n++ {
		if n > 600 && n < 65520 && n%977 != 0 || n > 65560 && n%977 != 0 {
			continue
		}
		b := make([]byte, n)
		rng.Read(b)
		if n > 0 && n%7 == 0 {
			b[0], b[n-1] = 0, 0
		}
		s := string(b)
		ln := uint64(n)
		if n == 0 {
			ln = 0xffffffff
		}
		w := append(le(ln, 4), b...)
		run("String", s, w, func(e *BinaryEncoder) error { return e.WriteString(s) }, func(d *BinaryDecoder) (any, error) { var o string; err := d.ReadString(&o); return o, err }, one(s))
		run("ByteString", ByteString(s), w, func(e *BinaryEncoder) error { return e.WriteByteString(ByteString(s)) }, func(d *BinaryDecoder) (any, error) { var o ByteString; err := d.ReadByteString(&o); return o, err }, one(ByteString(s)))
		run("XMLElement", XMLElement(s), w, func(e *BinaryEncoder) error { return e.WriteXMLElement(XMLElement(s)) }, func(d *BinaryDecoder) (any, error) { var o XMLElement; err := d.ReadXMLElement(&o); return o, err }, one(XMLElement(s)))
	}
	// an empty string may also arrive with length 0
	for _, l := range [][]byte{{0, 0, 0, 0}, {255, 255, 255, 255}, {0, 0, 0, 128}} {
		o, p := "x", ByteString("x")
		if err := NewBinaryDecoder(bytes.NewReader(l), NewEncodingContext()).ReadString(&o); err != nil || o != "" {
			fail("ReadString(% x) = %q, %v", l, o, err)
		}
		if err := NewBinaryDecoder(bytes.NewReader(l), NewEncodingContext()).ReadByteString(&p); err != nil || p != "" {
			fail("ReadByteString(% x) = %q, %v", l, p, err)
		}
	}
	lo, hi := time.Unix(-11644473600, 0), time.Unix(253402300799, 0)
	dt := func(v time.Time) {
		want := v
		ticks := (v.Unix()+11644473600)*10000000 + int64(v.Nanosecond()/100)
		if v.Before(lo) {
			want, ticks = lo, 0
		} else if !v.Before(hi) {
			want, ticks = hi, math.MaxInt64
		} else {
			want = v.Add(-time.Duration(v.Nanosecond() % 100))
		}
		run("DateTime", v, le(uint64(ticks), 8), func(e *BinaryEncoder) error { return e.WriteDateTime(v) }, func(d *BinaryDecoder) (any, error) { var o time.Time; err := d.ReadDateTime(&o); return o, err }, func(o any) bool { return o.(time.Time).Equal(want) })
	}
	for _, s := range []int64{-11644473601, -11644473600, -11644473599, -1, 0, 1, 253402300798, 253402300799, 253402300800, 910692730085, 922337203685, 1844674407370, 3689348814741, math.MaxInt64 / 2, math.MinInt64 / 2, -62135596800} {
		for d := int64(-3); d <= 3; d++ {
			for _, ns := range []int64{0, 1, 99, 100, 101, 999999900, 999999999} {
				dt(time.Unix(s+d, ns))
			}
		}
	}
	for i := 0; i < 20000; i++ {
		dt(time.Unix(int64(rng.Uint64()>>uint(20+rng.Intn(40)))-11644473600, rng.Int63n(1000000000)))
	}
	dt(time.Time{})
}
