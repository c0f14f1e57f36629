# Element-level round trip of arrays. Generated by gen_c02b.py.
package ua
ghost wn int
ghost wk int row
ghost wc int row
ghost wfail bool
ghost rn int
ghost rk int row
ghost rc int row
define dtnorm(v) = ite(v < -11644473600000000000, -11644473600000000000, ite(v >= 253402300799000000000, 253402300799000000000, v - mod(v, 100)))
lemmas ua lemmas/ua_array.go

func ua.verifStart3(enc, dec)
  modifies G.rn[dec.r]
  ensures G.rn[dec.r] == G.wn[enc.w]
  trusted

func ua.verifLink3(enc, dec)
  modifies G.rk[dec.r], G.rc[dec.r]
  ensures G.rk[dec.r] == G.wk[enc.w] && G.rc[dec.r] == G.wc[enc.w]
  trusted

func (*ua.BinaryEncoder).WriteBoolean(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 31) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadBoolean(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 31 ==> err == nil && *value == unboxas(bool, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteSByte(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 1) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), ite(value < 0, value + 256, value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadSByte(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 1 ==> err == nil && *value == ite(old(G.rc[dec.r])[old(G.rn[dec.r])] >= 128, old(G.rc[dec.r])[old(G.rn[dec.r])] - 256, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteByte(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 1) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), value) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadByte(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 1 ==> err == nil && *value == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteInt16(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 2) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), ite(value < 0, value + 65536, value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadInt16(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 2 ==> err == nil && *value == ite(old(G.rc[dec.r])[old(G.rn[dec.r])] >= 32768, old(G.rc[dec.r])[old(G.rn[dec.r])] - 65536, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteUInt16(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 2) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), value) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadUInt16(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 2 ==> err == nil && *value == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteInt32(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 4) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), ite(value < 0, value + 4294967296, value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadInt32(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 ==> err == nil && *value == ite(old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648, old(G.rc[dec.r])[old(G.rn[dec.r])] - 4294967296, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteUInt32(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 4) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), value) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadUInt32(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 ==> err == nil && *value == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteInt64(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 8) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), ite(value < 0, value + 18446744073709551616, value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadInt64(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 8 ==> err == nil && *value == ite(old(G.rc[dec.r])[old(G.rn[dec.r])] >= 9223372036854775808, old(G.rc[dec.r])[old(G.rn[dec.r])] - 18446744073709551616, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteUInt64(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 8) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), value) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadUInt64(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 8 ==> err == nil && *value == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteFloat(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 10) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadFloat(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 10 ==> err == nil && *value == unboxas(float32, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteDouble(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 11) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadDouble(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 11 ==> err == nil && *value == unboxas(float64, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteString(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 12) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(string(value))) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadString(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 12 ==> err == nil && string(*value) == unboxas(string, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteDateTime(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 13) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadDateTime(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 13 ==> err == nil && *value == dtnorm(unboxas(time.Time, old(G.rc[dec.r])[old(G.rn[dec.r])])) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteGUID(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 14) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadGUID(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 14 ==> err == nil && *value == unboxas(uuid.UUID, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteByteString(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 12) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(string(value))) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadByteString(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 12 ==> err == nil && string(*value) == unboxas(string, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteXMLElement(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 12) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(string(value))) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadXMLElement(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 12 ==> err == nil && string(*value) == unboxas(string, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteNodeID(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), (1000+tag(value))) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), payload(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadNodeID(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] >= 1000 ==> err == nil && tag(*value) == old(G.rk[dec.r])[old(G.rn[dec.r])] - 1000 && payload(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteExpandedNodeID(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 16) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadExpandedNodeID(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 16 ==> err == nil && *value == unboxas(ua.ExpandedNodeID, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteStatusCode(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 4) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), value) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadStatusCode(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 ==> err == nil && *value == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteQualifiedName(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 17) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadQualifiedName(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 17 ==> err == nil && *value == unboxas(ua.QualifiedName, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteLocalizedText(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 18) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadLocalizedText(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 18 ==> err == nil && *value == unboxas(ua.LocalizedText, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteExtensionObject(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), (1000+tag(value))) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), payload(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadExtensionObject(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] >= 1000 ==> err == nil && tag(*value) == old(G.rk[dec.r])[old(G.rn[dec.r])] - 1000 && payload(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteDataValue(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 20) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadDataValue(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 20 ==> err == nil && *value == unboxas(ua.DataValue, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteVariant(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), (1000+tag(value))) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), payload(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadVariant(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] >= 1000 ==> err == nil && tag(*value) == old(G.rk[dec.r])[old(G.rn[dec.r])] - 1000 && payload(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteDiagnosticInfo(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), 22) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadDiagnosticInfo(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])] == 22 ==> err == nil && *value == unboxas(ua.DiagnosticInfo, old(G.rc[dec.r])[old(G.rn[dec.r])]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, G.rn[dec.r]
  trusted

define N() = old(G.wn[enc.w])
define R() = old(G.rn[dec.r])
func (*ua.BinaryEncoder).WriteBooleanArray(enc, value) (err) [C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0
  ensures null: err == nil && value == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == 4294967295
  ensures size: err == nil && value != nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 + len(value) && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  ensures elems: err == nil && value != nil ==> forall(j, 0, len(value), G.wk[enc.w][old(G.wn[enc.w])+1+j] == 31 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(value[j]))
  ensures prefix: err == nil ==> forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  ensures total: err != nil ==> G.wfail[enc.w]
  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])
  invariant G.wn[enc.w] == old(G.wn[enc.w]) + 1 + $i && $i >= 0 && $i <= len(value)
  invariant forall(j, 0, $i, G.wk[enc.w][old(G.wn[enc.w])+1+j] == 31 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(value[j]))
  invariant G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  invariant forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  invariant G.wfail[enc.w] == old(G.wfail[enc.w])
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]

func (*ua.BinaryDecoder).ReadBooleanArray(dec, value) (err) [C02]
  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0
  ensures null: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  ensures full: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 0 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 2147483648 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 31) ==> err == nil && *value != nil && len(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1 + old(G.rc[dec.r])[old(G.rn[dec.r])] && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], (*value)[j] == unboxas(bool, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 31) ==> G.rn[dec.r] == old(G.rn[dec.r]) + 1 + $i && $i >= 0 && $i <= old(G.rc[dec.r])[old(G.rn[dec.r])]
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 31) ==> forall(j, 0, $i, $s[j] == unboxas(bool, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  modifies *value, G.rn[dec.r]

func ua.verifRT3_Boolean(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647
  ensures nilness: ok ==> (out == nil) == (v == nil)
  ensures length: ok ==> len(out) == len(v)
  ensures elements: ok ==> forall(j, 0, len(v), out[j] == v[j])
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func (*ua.BinaryEncoder).WriteSByteArray(enc, value) (err) [C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0
  ensures null: err == nil && value == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == 4294967295
  ensures size: err == nil && value != nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 + len(value) && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  ensures elems: err == nil && value != nil ==> forall(j, 0, len(value), G.wk[enc.w][old(G.wn[enc.w])+1+j] == 1 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == ite(value[j] < 0, value[j] + 256, value[j]))
  ensures prefix: err == nil ==> forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  ensures total: err != nil ==> G.wfail[enc.w]
  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])
  invariant G.wn[enc.w] == old(G.wn[enc.w]) + 1 + $i && $i >= 0 && $i <= len(value)
  invariant forall(j, 0, $i, G.wk[enc.w][old(G.wn[enc.w])+1+j] == 1 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == ite(value[j] < 0, value[j] + 256, value[j]))
  invariant G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  invariant forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  invariant G.wfail[enc.w] == old(G.wfail[enc.w])
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]

func (*ua.BinaryDecoder).ReadSByteArray(dec, value) (err) [C02]
  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0
  ensures null: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  ensures full: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 0 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 2147483648 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 1) ==> err == nil && *value != nil && len(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1 + old(G.rc[dec.r])[old(G.rn[dec.r])] && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], (*value)[j] == ite(old(G.rc[dec.r])[old(G.rn[dec.r])+1+j] >= 128, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j] - 256, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 1) ==> G.rn[dec.r] == old(G.rn[dec.r]) + 1 + $i && $i >= 0 && $i <= old(G.rc[dec.r])[old(G.rn[dec.r])]
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 1) ==> forall(j, 0, $i, $s[j] == ite(old(G.rc[dec.r])[old(G.rn[dec.r])+1+j] >= 128, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j] - 256, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  modifies *value, G.rn[dec.r]

func ua.verifRT3_SByte(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647
  ensures nilness: ok ==> (out == nil) == (v == nil)
  ensures length: ok ==> len(out) == len(v)
  ensures elements: ok ==> forall(j, 0, len(v), out[j] == v[j])
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func (*ua.BinaryEncoder).WriteInt16Array(enc, value) (err) [C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0
  ensures null: err == nil && value == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == 4294967295
  ensures size: err == nil && value != nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 + len(value) && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  ensures elems: err == nil && value != nil ==> forall(j, 0, len(value), G.wk[enc.w][old(G.wn[enc.w])+1+j] == 2 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == ite(value[j] < 0, value[j] + 65536, value[j]))
  ensures prefix: err == nil ==> forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  ensures total: err != nil ==> G.wfail[enc.w]
  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])
  invariant G.wn[enc.w] == old(G.wn[enc.w]) + 1 + $i && $i >= 0 && $i <= len(value)
  invariant forall(j, 0, $i, G.wk[enc.w][old(G.wn[enc.w])+1+j] == 2 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == ite(value[j] < 0, value[j] + 65536, value[j]))
  invariant G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  invariant forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  invariant G.wfail[enc.w] == old(G.wfail[enc.w])
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]

func (*ua.BinaryDecoder).ReadInt16Array(dec, value) (err) [C02]
  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0
  ensures null: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  ensures full: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 0 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 2147483648 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 2) ==> err == nil && *value != nil && len(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1 + old(G.rc[dec.r])[old(G.rn[dec.r])] && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], (*value)[j] == ite(old(G.rc[dec.r])[old(G.rn[dec.r])+1+j] >= 32768, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j] - 65536, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 2) ==> G.rn[dec.r] == old(G.rn[dec.r]) + 1 + $i && $i >= 0 && $i <= old(G.rc[dec.r])[old(G.rn[dec.r])]
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 2) ==> forall(j, 0, $i, $s[j] == ite(old(G.rc[dec.r])[old(G.rn[dec.r])+1+j] >= 32768, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j] - 65536, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  modifies *value, G.rn[dec.r]

func ua.verifRT3_Int16(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647
  ensures nilness: ok ==> (out == nil) == (v == nil)
  ensures length: ok ==> len(out) == len(v)
  ensures elements: ok ==> forall(j, 0, len(v), out[j] == v[j])
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func (*ua.BinaryEncoder).WriteUInt16Array(enc, value) (err) [C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0
  ensures null: err == nil && value == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == 4294967295
  ensures size: err == nil && value != nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 + len(value) && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  ensures elems: err == nil && value != nil ==> forall(j, 0, len(value), G.wk[enc.w][old(G.wn[enc.w])+1+j] == 2 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == value[j])
  ensures prefix: err == nil ==> forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  ensures total: err != nil ==> G.wfail[enc.w]
  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])
  invariant G.wn[enc.w] == old(G.wn[enc.w]) + 1 + $i && $i >= 0 && $i <= len(value)
  invariant forall(j, 0, $i, G.wk[enc.w][old(G.wn[enc.w])+1+j] == 2 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == value[j])
  invariant G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  invariant forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  invariant G.wfail[enc.w] == old(G.wfail[enc.w])
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]

func (*ua.BinaryDecoder).ReadUInt16Array(dec, value) (err) [C02]
  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0
  ensures null: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  ensures full: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 0 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 2147483648 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 2) ==> err == nil && *value != nil && len(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1 + old(G.rc[dec.r])[old(G.rn[dec.r])] && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], (*value)[j] == old(G.rc[dec.r])[old(G.rn[dec.r])+1+j])
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 2) ==> G.rn[dec.r] == old(G.rn[dec.r]) + 1 + $i && $i >= 0 && $i <= old(G.rc[dec.r])[old(G.rn[dec.r])]
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 2) ==> forall(j, 0, $i, $s[j] == old(G.rc[dec.r])[old(G.rn[dec.r])+1+j])
  modifies *value, G.rn[dec.r]

func ua.verifRT3_UInt16(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647
  ensures nilness: ok ==> (out == nil) == (v == nil)
  ensures length: ok ==> len(out) == len(v)
  ensures elements: ok ==> forall(j, 0, len(v), out[j] == v[j])
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func (*ua.BinaryEncoder).WriteInt32Array(enc, value) (err) [C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0
  ensures null: err == nil && value == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == 4294967295
  ensures size: err == nil && value != nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 + len(value) && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  ensures elems: err == nil && value != nil ==> forall(j, 0, len(value), G.wk[enc.w][old(G.wn[enc.w])+1+j] == 4 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == ite(value[j] < 0, value[j] + 4294967296, value[j]))
  ensures prefix: err == nil ==> forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  ensures total: err != nil ==> G.wfail[enc.w]
  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])
  invariant G.wn[enc.w] == old(G.wn[enc.w]) + 1 + $i && $i >= 0 && $i <= len(value)
  invariant forall(j, 0, $i, G.wk[enc.w][old(G.wn[enc.w])+1+j] == 4 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == ite(value[j] < 0, value[j] + 4294967296, value[j]))
  invariant G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  invariant forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  invariant G.wfail[enc.w] == old(G.wfail[enc.w])
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]

func (*ua.BinaryDecoder).ReadInt32Array(dec, value) (err) [C02]
  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0
  ensures null: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  ensures full: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 0 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 2147483648 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 4) ==> err == nil && *value != nil && len(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1 + old(G.rc[dec.r])[old(G.rn[dec.r])] && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], (*value)[j] == ite(old(G.rc[dec.r])[old(G.rn[dec.r])+1+j] >= 2147483648, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j] - 4294967296, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 4) ==> G.rn[dec.r] == old(G.rn[dec.r]) + 1 + $i && $i >= 0 && $i <= old(G.rc[dec.r])[old(G.rn[dec.r])]
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 4) ==> forall(j, 0, $i, $s[j] == ite(old(G.rc[dec.r])[old(G.rn[dec.r])+1+j] >= 2147483648, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j] - 4294967296, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  modifies *value, G.rn[dec.r]

func ua.verifRT3_Int32(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647
  ensures nilness: ok ==> (out == nil) == (v == nil)
  ensures length: ok ==> len(out) == len(v)
  ensures elements: ok ==> forall(j, 0, len(v), out[j] == v[j])
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func (*ua.BinaryEncoder).WriteUInt32Array(enc, value) (err) [C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0
  ensures null: err == nil && value == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == 4294967295
  ensures size: err == nil && value != nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 + len(value) && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  ensures elems: err == nil && value != nil ==> forall(j, 0, len(value), G.wk[enc.w][old(G.wn[enc.w])+1+j] == 4 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == value[j])
  ensures prefix: err == nil ==> forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  ensures total: err != nil ==> G.wfail[enc.w]
  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])
  invariant G.wn[enc.w] == old(G.wn[enc.w]) + 1 + $i && $i >= 0 && $i <= len(value)
  invariant forall(j, 0, $i, G.wk[enc.w][old(G.wn[enc.w])+1+j] == 4 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == value[j])
  invariant G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  invariant forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  invariant G.wfail[enc.w] == old(G.wfail[enc.w])
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]

func (*ua.BinaryDecoder).ReadUInt32Array(dec, value) (err) [C02]
  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0
  ensures null: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  ensures full: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 0 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 2147483648 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 4) ==> err == nil && *value != nil && len(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1 + old(G.rc[dec.r])[old(G.rn[dec.r])] && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], (*value)[j] == old(G.rc[dec.r])[old(G.rn[dec.r])+1+j])
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 4) ==> G.rn[dec.r] == old(G.rn[dec.r]) + 1 + $i && $i >= 0 && $i <= old(G.rc[dec.r])[old(G.rn[dec.r])]
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 4) ==> forall(j, 0, $i, $s[j] == old(G.rc[dec.r])[old(G.rn[dec.r])+1+j])
  modifies *value, G.rn[dec.r]

func ua.verifRT3_UInt32(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647
  ensures nilness: ok ==> (out == nil) == (v == nil)
  ensures length: ok ==> len(out) == len(v)
  ensures elements: ok ==> forall(j, 0, len(v), out[j] == v[j])
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func (*ua.BinaryEncoder).WriteInt64Array(enc, value) (err) [C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0
  ensures null: err == nil && value == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == 4294967295
  ensures size: err == nil && value != nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 + len(value) && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  ensures elems: err == nil && value != nil ==> forall(j, 0, len(value), G.wk[enc.w][old(G.wn[enc.w])+1+j] == 8 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == ite(value[j] < 0, value[j] + 18446744073709551616, value[j]))
  ensures prefix: err == nil ==> forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  ensures total: err != nil ==> G.wfail[enc.w]
  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])
  invariant G.wn[enc.w] == old(G.wn[enc.w]) + 1 + $i && $i >= 0 && $i <= len(value)
  invariant forall(j, 0, $i, G.wk[enc.w][old(G.wn[enc.w])+1+j] == 8 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == ite(value[j] < 0, value[j] + 18446744073709551616, value[j]))
  invariant G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  invariant forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  invariant G.wfail[enc.w] == old(G.wfail[enc.w])
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]

func (*ua.BinaryDecoder).ReadInt64Array(dec, value) (err) [C02]
  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0
  ensures null: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  ensures full: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 0 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 2147483648 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 8) ==> err == nil && *value != nil && len(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1 + old(G.rc[dec.r])[old(G.rn[dec.r])] && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], (*value)[j] == ite(old(G.rc[dec.r])[old(G.rn[dec.r])+1+j] >= 9223372036854775808, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j] - 18446744073709551616, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 8) ==> G.rn[dec.r] == old(G.rn[dec.r]) + 1 + $i && $i >= 0 && $i <= old(G.rc[dec.r])[old(G.rn[dec.r])]
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 8) ==> forall(j, 0, $i, $s[j] == ite(old(G.rc[dec.r])[old(G.rn[dec.r])+1+j] >= 9223372036854775808, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j] - 18446744073709551616, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  modifies *value, G.rn[dec.r]

func ua.verifRT3_Int64(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647
  ensures nilness: ok ==> (out == nil) == (v == nil)
  ensures length: ok ==> len(out) == len(v)
  ensures elements: ok ==> forall(j, 0, len(v), out[j] == v[j])
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func (*ua.BinaryEncoder).WriteUInt64Array(enc, value) (err) [C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0
  ensures null: err == nil && value == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == 4294967295
  ensures size: err == nil && value != nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 + len(value) && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  ensures elems: err == nil && value != nil ==> forall(j, 0, len(value), G.wk[enc.w][old(G.wn[enc.w])+1+j] == 8 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == value[j])
  ensures prefix: err == nil ==> forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  ensures total: err != nil ==> G.wfail[enc.w]
  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])
  invariant G.wn[enc.w] == old(G.wn[enc.w]) + 1 + $i && $i >= 0 && $i <= len(value)
  invariant forall(j, 0, $i, G.wk[enc.w][old(G.wn[enc.w])+1+j] == 8 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == value[j])
  invariant G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  invariant forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  invariant G.wfail[enc.w] == old(G.wfail[enc.w])
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]

func (*ua.BinaryDecoder).ReadUInt64Array(dec, value) (err) [C02]
  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0
  ensures null: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  ensures full: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 0 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 2147483648 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 8) ==> err == nil && *value != nil && len(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1 + old(G.rc[dec.r])[old(G.rn[dec.r])] && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], (*value)[j] == old(G.rc[dec.r])[old(G.rn[dec.r])+1+j])
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 8) ==> G.rn[dec.r] == old(G.rn[dec.r]) + 1 + $i && $i >= 0 && $i <= old(G.rc[dec.r])[old(G.rn[dec.r])]
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 8) ==> forall(j, 0, $i, $s[j] == old(G.rc[dec.r])[old(G.rn[dec.r])+1+j])
  modifies *value, G.rn[dec.r]

func ua.verifRT3_UInt64(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647
  ensures nilness: ok ==> (out == nil) == (v == nil)
  ensures length: ok ==> len(out) == len(v)
  ensures elements: ok ==> forall(j, 0, len(v), out[j] == v[j])
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func (*ua.BinaryEncoder).WriteFloatArray(enc, value) (err) [C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0
  ensures null: err == nil && value == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == 4294967295
  ensures size: err == nil && value != nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 + len(value) && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  ensures elems: err == nil && value != nil ==> forall(j, 0, len(value), G.wk[enc.w][old(G.wn[enc.w])+1+j] == 10 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(value[j]))
  ensures prefix: err == nil ==> forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  ensures total: err != nil ==> G.wfail[enc.w]
  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])
  invariant G.wn[enc.w] == old(G.wn[enc.w]) + 1 + $i && $i >= 0 && $i <= len(value)
  invariant forall(j, 0, $i, G.wk[enc.w][old(G.wn[enc.w])+1+j] == 10 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(value[j]))
  invariant G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  invariant forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  invariant G.wfail[enc.w] == old(G.wfail[enc.w])
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]

func (*ua.BinaryDecoder).ReadFloatArray(dec, value) (err) [C02]
  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0
  ensures null: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  ensures full: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 0 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 2147483648 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 10) ==> err == nil && *value != nil && len(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1 + old(G.rc[dec.r])[old(G.rn[dec.r])] && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], (*value)[j] == unboxas(float32, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 10) ==> G.rn[dec.r] == old(G.rn[dec.r]) + 1 + $i && $i >= 0 && $i <= old(G.rc[dec.r])[old(G.rn[dec.r])]
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 10) ==> forall(j, 0, $i, $s[j] == unboxas(float32, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  modifies *value, G.rn[dec.r]

func ua.verifRT3_Float(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647
  ensures nilness: ok ==> (out == nil) == (v == nil)
  ensures length: ok ==> len(out) == len(v)
  ensures elements: ok ==> forall(j, 0, len(v), out[j] == v[j])
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func (*ua.BinaryEncoder).WriteDoubleArray(enc, value) (err) [C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0
  ensures null: err == nil && value == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == 4294967295
  ensures size: err == nil && value != nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 + len(value) && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  ensures elems: err == nil && value != nil ==> forall(j, 0, len(value), G.wk[enc.w][old(G.wn[enc.w])+1+j] == 11 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(value[j]))
  ensures prefix: err == nil ==> forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  ensures total: err != nil ==> G.wfail[enc.w]
  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])
  invariant G.wn[enc.w] == old(G.wn[enc.w]) + 1 + $i && $i >= 0 && $i <= len(value)
  invariant forall(j, 0, $i, G.wk[enc.w][old(G.wn[enc.w])+1+j] == 11 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(value[j]))
  invariant G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  invariant forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  invariant G.wfail[enc.w] == old(G.wfail[enc.w])
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]

func (*ua.BinaryDecoder).ReadDoubleArray(dec, value) (err) [C02]
  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0
  ensures null: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  ensures full: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 0 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 2147483648 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 11) ==> err == nil && *value != nil && len(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1 + old(G.rc[dec.r])[old(G.rn[dec.r])] && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], (*value)[j] == unboxas(float64, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 11) ==> G.rn[dec.r] == old(G.rn[dec.r]) + 1 + $i && $i >= 0 && $i <= old(G.rc[dec.r])[old(G.rn[dec.r])]
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 11) ==> forall(j, 0, $i, $s[j] == unboxas(float64, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  modifies *value, G.rn[dec.r]

func ua.verifRT3_Double(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647
  ensures nilness: ok ==> (out == nil) == (v == nil)
  ensures length: ok ==> len(out) == len(v)
  ensures elements: ok ==> forall(j, 0, len(v), out[j] == v[j])
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func (*ua.BinaryEncoder).WriteStringArray(enc, value) (err) [C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0
  ensures null: err == nil && value == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == 4294967295
  ensures size: err == nil && value != nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 + len(value) && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  ensures elems: err == nil && value != nil ==> forall(j, 0, len(value), G.wk[enc.w][old(G.wn[enc.w])+1+j] == 12 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(string(value[j])))
  ensures prefix: err == nil ==> forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  ensures total: err != nil ==> G.wfail[enc.w]
  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])
  invariant G.wn[enc.w] == old(G.wn[enc.w]) + 1 + $i && $i >= 0 && $i <= len(value)
  invariant forall(j, 0, $i, G.wk[enc.w][old(G.wn[enc.w])+1+j] == 12 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(string(value[j])))
  invariant G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  invariant forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  invariant G.wfail[enc.w] == old(G.wfail[enc.w])
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]

func (*ua.BinaryDecoder).ReadStringArray(dec, value) (err) [C02]
  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0
  ensures null: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  ensures full: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 0 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 2147483648 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 12) ==> err == nil && *value != nil && len(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1 + old(G.rc[dec.r])[old(G.rn[dec.r])] && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], string((*value)[j]) == unboxas(string, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 12) ==> G.rn[dec.r] == old(G.rn[dec.r]) + 1 + $i && $i >= 0 && $i <= old(G.rc[dec.r])[old(G.rn[dec.r])]
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 12) ==> forall(j, 0, $i, string($s[j]) == unboxas(string, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  modifies *value, G.rn[dec.r]

func ua.verifRT3_String(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647
  ensures nilness: ok ==> (out == nil) == (v == nil)
  ensures length: ok ==> len(out) == len(v)
  ensures elements: ok ==> forall(j, 0, len(v), string(out[j]) == string(v[j]))
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func (*ua.BinaryEncoder).WriteDateTimeArray(enc, value) (err) [C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0
  ensures null: err == nil && value == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == 4294967295
  ensures size: err == nil && value != nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 + len(value) && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  ensures elems: err == nil && value != nil ==> forall(j, 0, len(value), G.wk[enc.w][old(G.wn[enc.w])+1+j] == 13 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(value[j]))
  ensures prefix: err == nil ==> forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  ensures total: err != nil ==> G.wfail[enc.w]
  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])
  invariant G.wn[enc.w] == old(G.wn[enc.w]) + 1 + $i && $i >= 0 && $i <= len(value)
  invariant forall(j, 0, $i, G.wk[enc.w][old(G.wn[enc.w])+1+j] == 13 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(value[j]))
  invariant G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  invariant forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  invariant G.wfail[enc.w] == old(G.wfail[enc.w])
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]

func (*ua.BinaryDecoder).ReadDateTimeArray(dec, value) (err) [C02]
  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0
  ensures null: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  ensures full: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 0 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 2147483648 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 13) ==> err == nil && *value != nil && len(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1 + old(G.rc[dec.r])[old(G.rn[dec.r])] && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], (*value)[j] == dtnorm(unboxas(time.Time, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j])))
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 13) ==> G.rn[dec.r] == old(G.rn[dec.r]) + 1 + $i && $i >= 0 && $i <= old(G.rc[dec.r])[old(G.rn[dec.r])]
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 13) ==> forall(j, 0, $i, $s[j] == dtnorm(unboxas(time.Time, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j])))
  modifies *value, G.rn[dec.r]

func ua.verifRT3_DateTime(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647
  ensures nilness: ok ==> (out == nil) == (v == nil)
  ensures length: ok ==> len(out) == len(v)
  ensures elements: ok ==> forall(j, 0, len(v), out[j] == dtnorm(v[j]))
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func (*ua.BinaryEncoder).WriteGUIDArray(enc, value) (err) [C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0
  ensures null: err == nil && value == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == 4294967295
  ensures size: err == nil && value != nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 + len(value) && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  ensures elems: err == nil && value != nil ==> forall(j, 0, len(value), G.wk[enc.w][old(G.wn[enc.w])+1+j] == 14 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(value[j]))
  ensures prefix: err == nil ==> forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  ensures total: err != nil ==> G.wfail[enc.w]
  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])
  invariant G.wn[enc.w] == old(G.wn[enc.w]) + 1 + $i && $i >= 0 && $i <= len(value)
  invariant forall(j, 0, $i, G.wk[enc.w][old(G.wn[enc.w])+1+j] == 14 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(value[j]))
  invariant G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  invariant forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  invariant G.wfail[enc.w] == old(G.wfail[enc.w])
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]

func (*ua.BinaryDecoder).ReadGUIDArray(dec, value) (err) [C02]
  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0
  ensures null: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  ensures full: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 0 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 2147483648 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 14) ==> err == nil && *value != nil && len(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1 + old(G.rc[dec.r])[old(G.rn[dec.r])] && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], (*value)[j] == unboxas(uuid.UUID, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 14) ==> G.rn[dec.r] == old(G.rn[dec.r]) + 1 + $i && $i >= 0 && $i <= old(G.rc[dec.r])[old(G.rn[dec.r])]
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 14) ==> forall(j, 0, $i, $s[j] == unboxas(uuid.UUID, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  modifies *value, G.rn[dec.r]

func ua.verifRT3_GUID(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647
  ensures nilness: ok ==> (out == nil) == (v == nil)
  ensures length: ok ==> len(out) == len(v)
  ensures elements: ok ==> forall(j, 0, len(v), boxof(out[j]) == boxof(v[j]))
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func (*ua.BinaryEncoder).WriteByteStringArray(enc, value) (err) [C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0
  ensures null: err == nil && value == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == 4294967295
  ensures size: err == nil && value != nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 + len(value) && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  ensures elems: err == nil && value != nil ==> forall(j, 0, len(value), G.wk[enc.w][old(G.wn[enc.w])+1+j] == 12 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(string(value[j])))
  ensures prefix: err == nil ==> forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  ensures total: err != nil ==> G.wfail[enc.w]
  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])
  invariant G.wn[enc.w] == old(G.wn[enc.w]) + 1 + $i && $i >= 0 && $i <= len(value)
  invariant forall(j, 0, $i, G.wk[enc.w][old(G.wn[enc.w])+1+j] == 12 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(string(value[j])))
  invariant G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  invariant forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  invariant G.wfail[enc.w] == old(G.wfail[enc.w])
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]

func (*ua.BinaryDecoder).ReadByteStringArray(dec, value) (err) [C02]
  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0
  ensures null: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  ensures full: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 0 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 2147483648 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 12) ==> err == nil && *value != nil && len(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1 + old(G.rc[dec.r])[old(G.rn[dec.r])] && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], string((*value)[j]) == unboxas(string, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 12) ==> G.rn[dec.r] == old(G.rn[dec.r]) + 1 + $i && $i >= 0 && $i <= old(G.rc[dec.r])[old(G.rn[dec.r])]
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 12) ==> forall(j, 0, $i, string($s[j]) == unboxas(string, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  modifies *value, G.rn[dec.r]

func ua.verifRT3_ByteString(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647
  ensures nilness: ok ==> (out == nil) == (v == nil)
  ensures length: ok ==> len(out) == len(v)
  ensures elements: ok ==> forall(j, 0, len(v), string(out[j]) == string(v[j]))
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func (*ua.BinaryEncoder).WriteXMLElementArray(enc, value) (err) [C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0
  ensures null: err == nil && value == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == 4294967295
  ensures size: err == nil && value != nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 + len(value) && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  ensures elems: err == nil && value != nil ==> forall(j, 0, len(value), G.wk[enc.w][old(G.wn[enc.w])+1+j] == 12 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(string(value[j])))
  ensures prefix: err == nil ==> forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  ensures total: err != nil ==> G.wfail[enc.w]
  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])
  invariant G.wn[enc.w] == old(G.wn[enc.w]) + 1 + $i && $i >= 0 && $i <= len(value)
  invariant forall(j, 0, $i, G.wk[enc.w][old(G.wn[enc.w])+1+j] == 12 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(string(value[j])))
  invariant G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  invariant forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  invariant G.wfail[enc.w] == old(G.wfail[enc.w])
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]

func (*ua.BinaryDecoder).ReadXMLElementArray(dec, value) (err) [C02]
  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0
  ensures null: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  ensures full: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 0 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 2147483648 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 12) ==> err == nil && *value != nil && len(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1 + old(G.rc[dec.r])[old(G.rn[dec.r])] && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], string((*value)[j]) == unboxas(string, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 12) ==> G.rn[dec.r] == old(G.rn[dec.r]) + 1 + $i && $i >= 0 && $i <= old(G.rc[dec.r])[old(G.rn[dec.r])]
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 12) ==> forall(j, 0, $i, string($s[j]) == unboxas(string, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  modifies *value, G.rn[dec.r]

func ua.verifRT3_XMLElement(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647
  ensures nilness: ok ==> (out == nil) == (v == nil)
  ensures length: ok ==> len(out) == len(v)
  ensures elements: ok ==> forall(j, 0, len(v), string(out[j]) == string(v[j]))
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func (*ua.BinaryEncoder).WriteNodeIDArray(enc, value) (err) [C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0
  ensures null: err == nil && value == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == 4294967295
  ensures size: err == nil && value != nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 + len(value) && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  ensures elems: err == nil && value != nil ==> forall(j, 0, len(value), G.wk[enc.w][old(G.wn[enc.w])+1+j] == (1000+tag(value[j])) && G.wc[enc.w][old(G.wn[enc.w])+1+j] == payload(value[j]))
  ensures prefix: err == nil ==> forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  ensures total: err != nil ==> G.wfail[enc.w]
  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])
  invariant G.wn[enc.w] == old(G.wn[enc.w]) + 1 + $i && $i >= 0 && $i <= len(value)
  invariant forall(j, 0, $i, G.wk[enc.w][old(G.wn[enc.w])+1+j] == (1000+tag(value[j])) && G.wc[enc.w][old(G.wn[enc.w])+1+j] == payload(value[j]))
  invariant G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  invariant forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  invariant G.wfail[enc.w] == old(G.wfail[enc.w])
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]

func (*ua.BinaryDecoder).ReadNodeIDArray(dec, value) (err) [C02]
  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0
  ensures null: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  ensures full: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 0 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 2147483648 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] >= 1000) ==> err == nil && *value != nil && len(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1 + old(G.rc[dec.r])[old(G.rn[dec.r])] && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], tag((*value)[j]) == old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] - 1000 && payload((*value)[j]) == old(G.rc[dec.r])[old(G.rn[dec.r])+1+j])
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] >= 1000) ==> G.rn[dec.r] == old(G.rn[dec.r]) + 1 + $i && $i >= 0 && $i <= old(G.rc[dec.r])[old(G.rn[dec.r])]
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] >= 1000) ==> forall(j, 0, $i, tag($s[j]) == old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] - 1000 && payload($s[j]) == old(G.rc[dec.r])[old(G.rn[dec.r])+1+j])
  modifies *value, G.rn[dec.r]

func ua.verifRT3_NodeID(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647
  ensures nilness: ok ==> (out == nil) == (v == nil)
  ensures length: ok ==> len(out) == len(v)
  ensures elements: ok ==> forall(j, 0, len(v), out[j] == v[j])
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func (*ua.BinaryEncoder).WriteExpandedNodeIDArray(enc, value) (err) [C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0
  ensures null: err == nil && value == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == 4294967295
  ensures size: err == nil && value != nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 + len(value) && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  ensures elems: err == nil && value != nil ==> forall(j, 0, len(value), G.wk[enc.w][old(G.wn[enc.w])+1+j] == 16 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(value[j]))
  ensures prefix: err == nil ==> forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  ensures total: err != nil ==> G.wfail[enc.w]
  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])
  invariant G.wn[enc.w] == old(G.wn[enc.w]) + 1 + $i && $i >= 0 && $i <= len(value)
  invariant forall(j, 0, $i, G.wk[enc.w][old(G.wn[enc.w])+1+j] == 16 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(value[j]))
  invariant G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  invariant forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  invariant G.wfail[enc.w] == old(G.wfail[enc.w])
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]

func (*ua.BinaryDecoder).ReadExpandedNodeIDArray(dec, value) (err) [C02]
  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0
  ensures null: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  ensures full: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 0 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 2147483648 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 16) ==> err == nil && *value != nil && len(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1 + old(G.rc[dec.r])[old(G.rn[dec.r])] && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], (*value)[j] == unboxas(ua.ExpandedNodeID, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 16) ==> G.rn[dec.r] == old(G.rn[dec.r]) + 1 + $i && $i >= 0 && $i <= old(G.rc[dec.r])[old(G.rn[dec.r])]
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 16) ==> forall(j, 0, $i, $s[j] == unboxas(ua.ExpandedNodeID, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  modifies *value, G.rn[dec.r]

func ua.verifRT3_ExpandedNodeID(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647
  ensures nilness: ok ==> (out == nil) == (v == nil)
  ensures length: ok ==> len(out) == len(v)
  ensures elements: ok ==> forall(j, 0, len(v), out[j] == v[j])
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func (*ua.BinaryEncoder).WriteStatusCodeArray(enc, value) (err) [C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0
  ensures null: err == nil && value == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == 4294967295
  ensures size: err == nil && value != nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 + len(value) && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  ensures elems: err == nil && value != nil ==> forall(j, 0, len(value), G.wk[enc.w][old(G.wn[enc.w])+1+j] == 4 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == value[j])
  ensures prefix: err == nil ==> forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  ensures total: err != nil ==> G.wfail[enc.w]
  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])
  invariant G.wn[enc.w] == old(G.wn[enc.w]) + 1 + $i && $i >= 0 && $i <= len(value)
  invariant forall(j, 0, $i, G.wk[enc.w][old(G.wn[enc.w])+1+j] == 4 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == value[j])
  invariant G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  invariant forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  invariant G.wfail[enc.w] == old(G.wfail[enc.w])
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]

func (*ua.BinaryDecoder).ReadStatusCodeArray(dec, value) (err) [C02]
  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0
  ensures null: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  ensures full: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 0 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 2147483648 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 4) ==> err == nil && *value != nil && len(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1 + old(G.rc[dec.r])[old(G.rn[dec.r])] && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], (*value)[j] == old(G.rc[dec.r])[old(G.rn[dec.r])+1+j])
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 4) ==> G.rn[dec.r] == old(G.rn[dec.r]) + 1 + $i && $i >= 0 && $i <= old(G.rc[dec.r])[old(G.rn[dec.r])]
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 4) ==> forall(j, 0, $i, $s[j] == old(G.rc[dec.r])[old(G.rn[dec.r])+1+j])
  modifies *value, G.rn[dec.r]

func ua.verifRT3_StatusCode(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647
  ensures nilness: ok ==> (out == nil) == (v == nil)
  ensures length: ok ==> len(out) == len(v)
  ensures elements: ok ==> forall(j, 0, len(v), out[j] == v[j])
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func (*ua.BinaryEncoder).WriteQualifiedNameArray(enc, value) (err) [C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0
  ensures null: err == nil && value == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == 4294967295
  ensures size: err == nil && value != nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 + len(value) && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  ensures elems: err == nil && value != nil ==> forall(j, 0, len(value), G.wk[enc.w][old(G.wn[enc.w])+1+j] == 17 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(value[j]))
  ensures prefix: err == nil ==> forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  ensures total: err != nil ==> G.wfail[enc.w]
  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])
  invariant G.wn[enc.w] == old(G.wn[enc.w]) + 1 + $i && $i >= 0 && $i <= len(value)
  invariant forall(j, 0, $i, G.wk[enc.w][old(G.wn[enc.w])+1+j] == 17 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(value[j]))
  invariant G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  invariant forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  invariant G.wfail[enc.w] == old(G.wfail[enc.w])
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]

func (*ua.BinaryDecoder).ReadQualifiedNameArray(dec, value) (err) [C02]
  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0
  ensures null: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  ensures full: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 0 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 2147483648 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 17) ==> err == nil && *value != nil && len(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1 + old(G.rc[dec.r])[old(G.rn[dec.r])] && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], (*value)[j] == unboxas(ua.QualifiedName, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 17) ==> G.rn[dec.r] == old(G.rn[dec.r]) + 1 + $i && $i >= 0 && $i <= old(G.rc[dec.r])[old(G.rn[dec.r])]
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 17) ==> forall(j, 0, $i, $s[j] == unboxas(ua.QualifiedName, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  modifies *value, G.rn[dec.r]

func ua.verifRT3_QualifiedName(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647
  ensures nilness: ok ==> (out == nil) == (v == nil)
  ensures length: ok ==> len(out) == len(v)
  ensures elements: ok ==> forall(j, 0, len(v), out[j] == v[j])
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func (*ua.BinaryEncoder).WriteLocalizedTextArray(enc, value) (err) [C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0
  ensures null: err == nil && value == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == 4294967295
  ensures size: err == nil && value != nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 + len(value) && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  ensures elems: err == nil && value != nil ==> forall(j, 0, len(value), G.wk[enc.w][old(G.wn[enc.w])+1+j] == 18 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(value[j]))
  ensures prefix: err == nil ==> forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  ensures total: err != nil ==> G.wfail[enc.w]
  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])
  invariant G.wn[enc.w] == old(G.wn[enc.w]) + 1 + $i && $i >= 0 && $i <= len(value)
  invariant forall(j, 0, $i, G.wk[enc.w][old(G.wn[enc.w])+1+j] == 18 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(value[j]))
  invariant G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  invariant forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  invariant G.wfail[enc.w] == old(G.wfail[enc.w])
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]

func (*ua.BinaryDecoder).ReadLocalizedTextArray(dec, value) (err) [C02]
  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0
  ensures null: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  ensures full: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 0 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 2147483648 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 18) ==> err == nil && *value != nil && len(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1 + old(G.rc[dec.r])[old(G.rn[dec.r])] && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], (*value)[j] == unboxas(ua.LocalizedText, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 18) ==> G.rn[dec.r] == old(G.rn[dec.r]) + 1 + $i && $i >= 0 && $i <= old(G.rc[dec.r])[old(G.rn[dec.r])]
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 18) ==> forall(j, 0, $i, $s[j] == unboxas(ua.LocalizedText, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  modifies *value, G.rn[dec.r]

func ua.verifRT3_LocalizedText(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647
  ensures nilness: ok ==> (out == nil) == (v == nil)
  ensures length: ok ==> len(out) == len(v)
  ensures elements: ok ==> forall(j, 0, len(v), out[j] == v[j])
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func (*ua.BinaryEncoder).WriteExtensionObjectArray(enc, value) (err) [C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0
  ensures null: err == nil && value == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == 4294967295
  ensures size: err == nil && value != nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 + len(value) && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  ensures elems: err == nil && value != nil ==> forall(j, 0, len(value), G.wk[enc.w][old(G.wn[enc.w])+1+j] == (1000+tag(value[j])) && G.wc[enc.w][old(G.wn[enc.w])+1+j] == payload(value[j]))
  ensures prefix: err == nil ==> forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  ensures total: err != nil ==> G.wfail[enc.w]
  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])
  invariant G.wn[enc.w] == old(G.wn[enc.w]) + 1 + $i && $i >= 0 && $i <= len(value)
  invariant forall(j, 0, $i, G.wk[enc.w][old(G.wn[enc.w])+1+j] == (1000+tag(value[j])) && G.wc[enc.w][old(G.wn[enc.w])+1+j] == payload(value[j]))
  invariant G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  invariant forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  invariant G.wfail[enc.w] == old(G.wfail[enc.w])
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]

func (*ua.BinaryDecoder).ReadExtensionObjectArray(dec, value) (err) [C02]
  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0
  ensures null: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  ensures full: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 0 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 2147483648 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] >= 1000) ==> err == nil && *value != nil && len(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1 + old(G.rc[dec.r])[old(G.rn[dec.r])] && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], tag((*value)[j]) == old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] - 1000 && payload((*value)[j]) == old(G.rc[dec.r])[old(G.rn[dec.r])+1+j])
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] >= 1000) ==> G.rn[dec.r] == old(G.rn[dec.r]) + 1 + $i && $i >= 0 && $i <= old(G.rc[dec.r])[old(G.rn[dec.r])]
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] >= 1000) ==> forall(j, 0, $i, tag($s[j]) == old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] - 1000 && payload($s[j]) == old(G.rc[dec.r])[old(G.rn[dec.r])+1+j])
  modifies *value, G.rn[dec.r]

func ua.verifRT3_ExtensionObject(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647
  ensures nilness: ok ==> (out == nil) == (v == nil)
  ensures length: ok ==> len(out) == len(v)
  ensures elements: ok ==> forall(j, 0, len(v), out[j] == v[j])
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func (*ua.BinaryEncoder).WriteDataValueArray(enc, value) (err) [C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0
  ensures null: err == nil && value == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == 4294967295
  ensures size: err == nil && value != nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 + len(value) && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  ensures elems: err == nil && value != nil ==> forall(j, 0, len(value), G.wk[enc.w][old(G.wn[enc.w])+1+j] == 20 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(value[j]))
  ensures prefix: err == nil ==> forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  ensures total: err != nil ==> G.wfail[enc.w]
  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])
  invariant G.wn[enc.w] == old(G.wn[enc.w]) + 1 + $i && $i >= 0 && $i <= len(value)
  invariant forall(j, 0, $i, G.wk[enc.w][old(G.wn[enc.w])+1+j] == 20 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(value[j]))
  invariant G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  invariant forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  invariant G.wfail[enc.w] == old(G.wfail[enc.w])
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]

func (*ua.BinaryDecoder).ReadDataValueArray(dec, value) (err) [C02]
  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0
  ensures null: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  ensures full: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 0 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 2147483648 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 20) ==> err == nil && *value != nil && len(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1 + old(G.rc[dec.r])[old(G.rn[dec.r])] && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], (*value)[j] == unboxas(ua.DataValue, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 20) ==> G.rn[dec.r] == old(G.rn[dec.r]) + 1 + $i && $i >= 0 && $i <= old(G.rc[dec.r])[old(G.rn[dec.r])]
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 20) ==> forall(j, 0, $i, $s[j] == unboxas(ua.DataValue, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  modifies *value, G.rn[dec.r]

func ua.verifRT3_DataValue(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647
  ensures nilness: ok ==> (out == nil) == (v == nil)
  ensures length: ok ==> len(out) == len(v)
  ensures elements: ok ==> forall(j, 0, len(v), out[j] == v[j])
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func (*ua.BinaryEncoder).WriteVariantArray(enc, value) (err) [C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0
  ensures null: err == nil && value == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == 4294967295
  ensures size: err == nil && value != nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 + len(value) && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  ensures elems: err == nil && value != nil ==> forall(j, 0, len(value), G.wk[enc.w][old(G.wn[enc.w])+1+j] == (1000+tag(value[j])) && G.wc[enc.w][old(G.wn[enc.w])+1+j] == payload(value[j]))
  ensures prefix: err == nil ==> forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  ensures total: err != nil ==> G.wfail[enc.w]
  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])
  invariant G.wn[enc.w] == old(G.wn[enc.w]) + 1 + $i && $i >= 0 && $i <= len(value)
  invariant forall(j, 0, $i, G.wk[enc.w][old(G.wn[enc.w])+1+j] == (1000+tag(value[j])) && G.wc[enc.w][old(G.wn[enc.w])+1+j] == payload(value[j]))
  invariant G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  invariant forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  invariant G.wfail[enc.w] == old(G.wfail[enc.w])
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]

func (*ua.BinaryDecoder).ReadVariantArray(dec, value) (err) [C02]
  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0
  ensures null: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  ensures full: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 0 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 2147483648 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] >= 1000) ==> err == nil && *value != nil && len(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1 + old(G.rc[dec.r])[old(G.rn[dec.r])] && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], tag((*value)[j]) == old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] - 1000 && payload((*value)[j]) == old(G.rc[dec.r])[old(G.rn[dec.r])+1+j])
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] >= 1000) ==> G.rn[dec.r] == old(G.rn[dec.r]) + 1 + $i && $i >= 0 && $i <= old(G.rc[dec.r])[old(G.rn[dec.r])]
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] >= 1000) ==> forall(j, 0, $i, tag($s[j]) == old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] - 1000 && payload($s[j]) == old(G.rc[dec.r])[old(G.rn[dec.r])+1+j])
  modifies *value, G.rn[dec.r]

func ua.verifRT3_Variant(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647
  ensures nilness: ok ==> (out == nil) == (v == nil)
  ensures length: ok ==> len(out) == len(v)
  ensures elements: ok ==> forall(j, 0, len(v), out[j] == v[j])
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func (*ua.BinaryEncoder).WriteDiagnosticInfoArray(enc, value) (err) [C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0
  ensures null: err == nil && value == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == 4294967295
  ensures size: err == nil && value != nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 + len(value) && G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  ensures elems: err == nil && value != nil ==> forall(j, 0, len(value), G.wk[enc.w][old(G.wn[enc.w])+1+j] == 22 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(value[j]))
  ensures prefix: err == nil ==> forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  ensures total: err != nil ==> G.wfail[enc.w]
  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])
  invariant G.wn[enc.w] == old(G.wn[enc.w]) + 1 + $i && $i >= 0 && $i <= len(value)
  invariant forall(j, 0, $i, G.wk[enc.w][old(G.wn[enc.w])+1+j] == 22 && G.wc[enc.w][old(G.wn[enc.w])+1+j] == boxof(value[j]))
  invariant G.wk[enc.w][old(G.wn[enc.w])] == 4 && G.wc[enc.w][old(G.wn[enc.w])] == len(value)
  invariant forall(j, 0, old(G.wn[enc.w]), G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])
  invariant G.wfail[enc.w] == old(G.wfail[enc.w])
  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]

func (*ua.BinaryDecoder).ReadDiagnosticInfoArray(dec, value) (err) [C02]
  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0
  ensures null: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 2147483648 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  ensures full: old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && old(G.rc[dec.r])[old(G.rn[dec.r])] >= 0 && old(G.rc[dec.r])[old(G.rn[dec.r])] < 2147483648 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 22) ==> err == nil && *value != nil && len(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])] && G.rn[dec.r] == old(G.rn[dec.r]) + 1 + old(G.rc[dec.r])[old(G.rn[dec.r])] && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], (*value)[j] == unboxas(ua.DiagnosticInfo, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 22) ==> G.rn[dec.r] == old(G.rn[dec.r]) + 1 + $i && $i >= 0 && $i <= old(G.rc[dec.r])[old(G.rn[dec.r])]
  invariant old(G.rk[dec.r])[old(G.rn[dec.r])] == 4 && forall(j, 0, old(G.rc[dec.r])[old(G.rn[dec.r])], old(G.rk[dec.r])[old(G.rn[dec.r])+1+j] == 22) ==> forall(j, 0, $i, $s[j] == unboxas(ua.DiagnosticInfo, old(G.rc[dec.r])[old(G.rn[dec.r])+1+j]))
  modifies *value, G.rn[dec.r]

func ua.verifRT3_DiagnosticInfo(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647
  ensures nilness: ok ==> (out == nil) == (v == nil)
  ensures length: ok ==> len(out) == len(v)
  ensures elements: ok ==> forall(j, 0, len(v), out[j] == v[j])
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

