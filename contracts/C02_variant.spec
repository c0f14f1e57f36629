# Round trip of Variant (scalars and one-dimensional arrays). Generated by gen_c02c.py.
package ua
ghost wn int
ghost wk int row
ghost wc int row
ghost wfail bool
ghost rn int
ghost rk int row
ghost rc int row
define dtnorm(v) = ite(v < -11644473600000000000, -11644473600000000000, ite(v >= 253402300799000000000, 253402300799000000000, v - mod(v, 100)))
lemmas ua lemmas/ua_variant.go

func ua.verifStart4(enc, dec)
  modifies G.rn[dec.r]
  ensures G.rn[dec.r] == G.wn[enc.w]
  trusted

func ua.verifLink4(enc, dec)
  modifies G.rk[dec.r], G.rc[dec.r]
  ensures G.rk[dec.r] == G.wk[enc.w] && G.rc[dec.r] == G.wc[enc.w]
  trusted

func (*ua.BinaryEncoder).WriteBoolean(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 31) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadBoolean(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 31 ==> err == nil && *value == unboxas(bool, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteBooleanArray(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 200) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadBooleanArray(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 200 ==> err == nil && *value == unboxas([]bool, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteSByte(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 1) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), ite(value < 0, value + 256, value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadSByte(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 1 ==> err == nil && *value == ite(old(G.rc[dec.r])[old(G.rn[dec.r])] >= 128, old(G.rc[dec.r])[old(G.rn[dec.r])] - 256, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteSByteArray(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 202) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadSByteArray(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 202 ==> err == nil && *value == unboxas([]int8, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteByte(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 1) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), value) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadByte(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 1 ==> err == nil && *value == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteByteArray(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 202) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadByteArray(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 202 ==> err == nil && *value == unboxas([]byte, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteInt16(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 2) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), ite(value < 0, value + 65536, value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadInt16(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 2 ==> err == nil && *value == ite(old(G.rc[dec.r])[old(G.rn[dec.r])] >= 32768, old(G.rc[dec.r])[old(G.rn[dec.r])] - 65536, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteInt16Array(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 203) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadInt16Array(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 203 ==> err == nil && *value == unboxas([]int16, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteUInt16(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 2) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), value) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadUInt16(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 2 ==> err == nil && *value == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteUInt16Array(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 203) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadUInt16Array(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 203 ==> err == nil && *value == unboxas([]uint16, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteInt32(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 4) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), ite(value < 0, value + 4294967296, value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadInt32(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 ==> err == nil && *value == ite(old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648, old(G.rc[dec.r])[old(G.rn[dec.r])] - 4294967296, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteInt32Array(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 205) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadInt32Array(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 205 ==> err == nil && *value == unboxas([]int32, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteUInt32(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 4) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), value) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadUInt32(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 ==> err == nil && *value == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteUInt32Array(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 205) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadUInt32Array(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 205 ==> err == nil && *value == unboxas([]uint32, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteInt64(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 8) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), ite(value < 0, value + 18446744073709551616, value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadInt64(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 8 ==> err == nil && *value == ite(old(G.rc[dec.r])[old(G.rn[dec.r])] >= 9223372036854775808, old(G.rc[dec.r])[old(G.rn[dec.r])] - 18446744073709551616, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteInt64Array(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 207) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadInt64Array(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 207 ==> err == nil && *value == unboxas([]int64, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteUInt64(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 8) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), value) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadUInt64(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 8 ==> err == nil && *value == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteUInt64Array(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 207) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadUInt64Array(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 207 ==> err == nil && *value == unboxas([]uint64, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteFloat(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 10) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadFloat(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 10 ==> err == nil && *value == unboxas(float32, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteFloatArray(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 209) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadFloatArray(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 209 ==> err == nil && *value == unboxas([]float32, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteDouble(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 11) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadDouble(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 11 ==> err == nil && *value == unboxas(float64, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteDoubleArray(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 210) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadDoubleArray(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 210 ==> err == nil && *value == unboxas([]float64, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteString(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 12) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(string(value))) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadString(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 12 ==> err == nil && string(*value) == unboxas(string, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteStringArray(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 211) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadStringArray(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 211 ==> err == nil && *value == unboxas([]string, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteDateTime(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 13) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadDateTime(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 13 ==> err == nil && *value == dtnorm(unboxas(time.Time, old(G.rc[dec.r])[old(G.rn[dec.r])])) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteDateTimeArray(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 212) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadDateTimeArray(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 212 ==> err == nil && *value == unboxas([]time.Time, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteGUID(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 14) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadGUID(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 14 ==> err == nil && *value == unboxas(uuid.UUID, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteGUIDArray(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 213) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadGUIDArray(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 213 ==> err == nil && *value == unboxas([]uuid.UUID, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteByteString(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 12) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(string(value))) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadByteString(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 12 ==> err == nil && string(*value) == unboxas(string, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteByteStringArray(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 211) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadByteStringArray(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 211 ==> err == nil && *value == unboxas([]ua.ByteString, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteXMLElement(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 12) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(string(value))) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadXMLElement(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 12 ==> err == nil && string(*value) == unboxas(string, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteXMLElementArray(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 211) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadXMLElementArray(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 211 ==> err == nil && *value == unboxas([]ua.XMLElement, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteNodeID(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), (1000+tag(value))) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), payload(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadNodeID(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] >= 1000 ==> err == nil && tag(*value) == old(G.rk[dec.r])[old(G.rn[dec.r])] - 1000 && payload(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteNodeIDArray(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 216) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadNodeIDArray(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 216 ==> err == nil && *value == unboxas([]ua.NodeID, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteExpandedNodeID(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 16) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadExpandedNodeID(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 16 ==> err == nil && *value == unboxas(ua.ExpandedNodeID, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteExpandedNodeIDArray(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 217) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadExpandedNodeIDArray(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 217 ==> err == nil && *value == unboxas([]ua.ExpandedNodeID, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteStatusCode(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 4) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), value) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadStatusCode(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 ==> err == nil && *value == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteStatusCodeArray(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 205) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadStatusCodeArray(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 205 ==> err == nil && *value == unboxas([]ua.StatusCode, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteQualifiedName(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 17) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadQualifiedName(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 17 ==> err == nil && *value == unboxas(ua.QualifiedName, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteQualifiedNameArray(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 219) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadQualifiedNameArray(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 219 ==> err == nil && *value == unboxas([]ua.QualifiedName, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteLocalizedText(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 18) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadLocalizedText(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 18 ==> err == nil && *value == unboxas(ua.LocalizedText, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteLocalizedTextArray(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 220) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadLocalizedTextArray(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 220 ==> err == nil && *value == unboxas([]ua.LocalizedText, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteExtensionObject(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), (1000+tag(value))) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), payload(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadExtensionObject(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] >= 1000 ==> err == nil && tag(*value) == old(G.rk[dec.r])[old(G.rn[dec.r])] - 1000 && payload(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteExtensionObjectArray(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 221) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadExtensionObjectArray(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 221 ==> err == nil && *value == unboxas([]ua.ExtensionObject, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteDataValue(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 20) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadDataValue(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 20 ==> err == nil && *value == unboxas(ua.DataValue, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteDataValueArray(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 222) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadDataValueArray(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 222 ==> err == nil && *value == unboxas([]ua.DataValue, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteVariantArray(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 223) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadVariantArray(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 223 ==> err == nil && *value == unboxas([]ua.Variant, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteDiagnosticInfo(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 22) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadDiagnosticInfo(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 22 ==> err == nil && *value == unboxas(ua.DiagnosticInfo, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteDiagnosticInfoArray(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 224) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadDiagnosticInfoArray(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 224 ==> err == nil && *value == unboxas([]ua.DiagnosticInfo, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func ua.verifRT4_Boolean(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, bool)
  ensures type: ok ==> is(out, bool)
  ensures value: ok ==> as(out, bool) == as(v, bool)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_SByte(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, int8)
  ensures type: ok ==> is(out, int8)
  ensures value: ok ==> as(out, int8) == as(v, int8)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_Byte(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, byte)
  ensures type: ok ==> is(out, byte)
  ensures value: ok ==> as(out, byte) == as(v, byte)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_Int16(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, int16)
  ensures type: ok ==> is(out, int16)
  ensures value: ok ==> as(out, int16) == as(v, int16)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_UInt16(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, uint16)
  ensures type: ok ==> is(out, uint16)
  ensures value: ok ==> as(out, uint16) == as(v, uint16)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_Int32(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, int32)
  ensures type: ok ==> is(out, int32)
  ensures value: ok ==> as(out, int32) == as(v, int32)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_UInt32(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, uint32)
  ensures type: ok ==> is(out, uint32)
  ensures value: ok ==> as(out, uint32) == as(v, uint32)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_Int64(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, int64)
  ensures type: ok ==> is(out, int64)
  ensures value: ok ==> as(out, int64) == as(v, int64)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_UInt64(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, uint64)
  ensures type: ok ==> is(out, uint64)
  ensures value: ok ==> as(out, uint64) == as(v, uint64)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_Float(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, float32)
  ensures type: ok ==> is(out, float32)
  ensures value: ok ==> as(out, float32) == as(v, float32)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_Double(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, float64)
  ensures type: ok ==> is(out, float64)
  ensures value: ok ==> as(out, float64) == as(v, float64)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_String(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, string)
  ensures type: ok ==> is(out, string)
  ensures value: ok ==> string(as(out, string)) == string(as(v, string))
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_DateTime(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, time.Time)
  ensures type: ok ==> is(out, time.Time)
  ensures value: ok ==> as(out, time.Time) == dtnorm(as(v, time.Time))
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_GUID(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, uuid.UUID)
  ensures type: ok ==> is(out, uuid.UUID)
  ensures value: ok ==> as(out, uuid.UUID) == as(v, uuid.UUID)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_ByteString(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, ua.ByteString)
  ensures type: ok ==> is(out, ua.ByteString)
  ensures value: ok ==> string(as(out, ua.ByteString)) == string(as(v, ua.ByteString))
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_XMLElement(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, ua.XMLElement)
  ensures type: ok ==> is(out, ua.XMLElement)
  ensures value: ok ==> string(as(out, ua.XMLElement)) == string(as(v, ua.XMLElement))
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_ExpandedNodeID(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, ua.ExpandedNodeID)
  ensures type: ok ==> is(out, ua.ExpandedNodeID)
  ensures value: ok ==> as(out, ua.ExpandedNodeID) == as(v, ua.ExpandedNodeID)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_StatusCode(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, ua.StatusCode)
  ensures type: ok ==> is(out, ua.StatusCode)
  ensures value: ok ==> as(out, ua.StatusCode) == as(v, ua.StatusCode)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_QualifiedName(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, ua.QualifiedName)
  ensures type: ok ==> is(out, ua.QualifiedName)
  ensures value: ok ==> as(out, ua.QualifiedName) == as(v, ua.QualifiedName)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_LocalizedText(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, ua.LocalizedText)
  ensures type: ok ==> is(out, ua.LocalizedText)
  ensures value: ok ==> as(out, ua.LocalizedText) == as(v, ua.LocalizedText)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_DataValue(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, ua.DataValue)
  ensures type: ok ==> is(out, ua.DataValue)
  ensures value: ok ==> as(out, ua.DataValue) == as(v, ua.DataValue)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_NodeIDNumeric(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, ua.NodeIDNumeric)
  ensures value: ok ==> out == v
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_NodeIDString(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, ua.NodeIDString)
  ensures value: ok ==> out == v
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_NodeIDGUID(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, ua.NodeIDGUID)
  ensures value: ok ==> out == v
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_NodeIDOpaque(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, ua.NodeIDOpaque)
  ensures value: ok ==> out == v
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_Null(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires v == nil
  ensures value: ok ==> out == nil
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_BooleanArray(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, []bool)
  ensures type: ok ==> is(out, []bool)
  ensures value: ok ==> as(out, []bool) == as(v, []bool)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_SByteArray(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, []int8)
  ensures type: ok ==> is(out, []int8)
  ensures value: ok ==> as(out, []int8) == as(v, []int8)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_ByteArray(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, []byte)
  ensures type: ok ==> is(out, []byte)
  ensures value: ok ==> as(out, []byte) == as(v, []byte)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_Int16Array(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, []int16)
  ensures type: ok ==> is(out, []int16)
  ensures value: ok ==> as(out, []int16) == as(v, []int16)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_UInt16Array(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, []uint16)
  ensures type: ok ==> is(out, []uint16)
  ensures value: ok ==> as(out, []uint16) == as(v, []uint16)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_Int32Array(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, []int32)
  ensures type: ok ==> is(out, []int32)
  ensures value: ok ==> as(out, []int32) == as(v, []int32)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_UInt32Array(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, []uint32)
  ensures type: ok ==> is(out, []uint32)
  ensures value: ok ==> as(out, []uint32) == as(v, []uint32)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_Int64Array(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, []int64)
  ensures type: ok ==> is(out, []int64)
  ensures value: ok ==> as(out, []int64) == as(v, []int64)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_UInt64Array(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, []uint64)
  ensures type: ok ==> is(out, []uint64)
  ensures value: ok ==> as(out, []uint64) == as(v, []uint64)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_FloatArray(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, []float32)
  ensures type: ok ==> is(out, []float32)
  ensures value: ok ==> as(out, []float32) == as(v, []float32)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_DoubleArray(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, []float64)
  ensures type: ok ==> is(out, []float64)
  ensures value: ok ==> as(out, []float64) == as(v, []float64)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_StringArray(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, []string)
  ensures type: ok ==> is(out, []string)
  ensures value: ok ==> as(out, []string) == as(v, []string)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_DateTimeArray(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, []time.Time)
  ensures type: ok ==> is(out, []time.Time)
  ensures value: ok ==> as(out, []time.Time) == as(v, []time.Time)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_GUIDArray(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, []uuid.UUID)
  ensures type: ok ==> is(out, []uuid.UUID)
  ensures value: ok ==> as(out, []uuid.UUID) == as(v, []uuid.UUID)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_ByteStringArray(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, []ua.ByteString)
  ensures type: ok ==> is(out, []ua.ByteString)
  ensures value: ok ==> as(out, []ua.ByteString) == as(v, []ua.ByteString)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_XMLElementArray(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, []ua.XMLElement)
  ensures type: ok ==> is(out, []ua.XMLElement)
  ensures value: ok ==> as(out, []ua.XMLElement) == as(v, []ua.XMLElement)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_NodeIDArray(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, []ua.NodeID)
  ensures type: ok ==> is(out, []ua.NodeID)
  ensures value: ok ==> as(out, []ua.NodeID) == as(v, []ua.NodeID)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_ExpandedNodeIDArray(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, []ua.ExpandedNodeID)
  ensures type: ok ==> is(out, []ua.ExpandedNodeID)
  ensures value: ok ==> as(out, []ua.ExpandedNodeID) == as(v, []ua.ExpandedNodeID)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_StatusCodeArray(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, []ua.StatusCode)
  ensures type: ok ==> is(out, []ua.StatusCode)
  ensures value: ok ==> as(out, []ua.StatusCode) == as(v, []ua.StatusCode)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_QualifiedNameArray(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, []ua.QualifiedName)
  ensures type: ok ==> is(out, []ua.QualifiedName)
  ensures value: ok ==> as(out, []ua.QualifiedName) == as(v, []ua.QualifiedName)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_LocalizedTextArray(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, []ua.LocalizedText)
  ensures type: ok ==> is(out, []ua.LocalizedText)
  ensures value: ok ==> as(out, []ua.LocalizedText) == as(v, []ua.LocalizedText)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_ExtensionObjectArray(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, []ua.ExtensionObject)
  ensures type: ok ==> is(out, []ua.ExtensionObject)
  ensures value: ok ==> as(out, []ua.ExtensionObject) == as(v, []ua.ExtensionObject)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_DataValueArray(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, []ua.DataValue)
  ensures type: ok ==> is(out, []ua.DataValue)
  ensures value: ok ==> as(out, []ua.DataValue) == as(v, []ua.DataValue)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT4_VariantArray(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires is(v, []ua.Variant)
  ensures type: ok ==> is(out, []ua.Variant)
  ensures value: ok ==> as(out, []ua.Variant) == as(v, []ua.Variant)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

