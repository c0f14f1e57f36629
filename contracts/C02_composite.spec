# Cell-level round trip of the composite built-in types. Generated by gen_c02.py.
package ua
ghost wn int
ghost wk int row
ghost wc int row
ghost wfail bool
ghost rn int
ghost rk int row
ghost rc int row
define dtnorm(v) = ite(v < -11644473600000000000, -11644473600000000000, ite(v >= 253402300799000000000, 253402300799000000000, v - mod(v, 100)))
lemmas ua lemmas/ua_composite.go

func ua.verifStart2(enc, dec)
  modifies G.rn[dec.r]
  ensures G.rn[dec.r] == G.wn[enc.w]
  trusted

func ua.verifLink2(enc, dec)
  modifies G.rk[dec.r], G.rc[dec.r]
  ensures G.rk[dec.r] == G.wk[enc.w] && G.rc[dec.r] == G.wc[enc.w]
  trusted

func (*ua.BinaryEncoder).WriteBoolean(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w])+0, 31) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w])+0, boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadBoolean(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])+0] == 31 ==> err == nil && *value == unboxas(bool, old(G.rc[dec.r])[old(G.rn[dec.r])+0]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, dec.bs, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteSByte(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w])+0, 0) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w])+0, div(ite(value < 0, value + 256, value), 1)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadSByte(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])+0] == 0 ==> err == nil && let(u, 1*old(G.rc[dec.r])[old(G.rn[dec.r])+0], *value == ite(u >= 128, u - 256, u)) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, dec.bs, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteByte(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w])+0, 0) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w])+0, div(value, 1)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadByte(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])+0] == 0 ==> err == nil && *value == 1*old(G.rc[dec.r])[old(G.rn[dec.r])+0] && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, dec.bs, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteInt16(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 2 && G.wk[enc.w] == rowupd(rowupd(old(G.wk[enc.w]), old(G.wn[enc.w])+0, 0), old(G.wn[enc.w])+1, 0) && G.wc[enc.w] == rowupd(rowupd(old(G.wc[enc.w]), old(G.wn[enc.w])+0, (div(ite(value < 0, value + 65536, value), 1) - 256*div(ite(value < 0, value + 65536, value), 256))), old(G.wn[enc.w])+1, div(ite(value < 0, value + 65536, value), 256)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadInt16(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])+0] == 0 && old(G.rk[dec.r])[old(G.rn[dec.r])+1] == 0 ==> err == nil && let(u, 1*old(G.rc[dec.r])[old(G.rn[dec.r])+0] + 256*old(G.rc[dec.r])[old(G.rn[dec.r])+1], *value == ite(u >= 32768, u - 65536, u)) && G.rn[dec.r] == old(G.rn[dec.r]) + 2
  modifies *value, dec.bs, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteUInt16(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 2 && G.wk[enc.w] == rowupd(rowupd(old(G.wk[enc.w]), old(G.wn[enc.w])+0, 0), old(G.wn[enc.w])+1, 0) && G.wc[enc.w] == rowupd(rowupd(old(G.wc[enc.w]), old(G.wn[enc.w])+0, (div(value, 1) - 256*div(value, 256))), old(G.wn[enc.w])+1, div(value, 256)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadUInt16(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])+0] == 0 && old(G.rk[dec.r])[old(G.rn[dec.r])+1] == 0 ==> err == nil && *value == 1*old(G.rc[dec.r])[old(G.rn[dec.r])+0] + 256*old(G.rc[dec.r])[old(G.rn[dec.r])+1] && G.rn[dec.r] == old(G.rn[dec.r]) + 2
  modifies *value, dec.bs, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteInt32(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 4 && G.wk[enc.w] == rowupd(rowupd(rowupd(rowupd(old(G.wk[enc.w]), old(G.wn[enc.w])+0, 0), old(G.wn[enc.w])+1, 0), old(G.wn[enc.w])+2, 0), old(G.wn[enc.w])+3, 0) && G.wc[enc.w] == rowupd(rowupd(rowupd(rowupd(old(G.wc[enc.w]), old(G.wn[enc.w])+0, (div(ite(value < 0, value + 4294967296, value), 1) - 256*div(ite(value < 0, value + 4294967296, value), 256))), old(G.wn[enc.w])+1, (div(ite(value < 0, value + 4294967296, value), 256) - 256*div(ite(value < 0, value + 4294967296, value), 65536))), old(G.wn[enc.w])+2, (div(ite(value < 0, value + 4294967296, value), 65536) - 256*div(ite(value < 0, value + 4294967296, value), 16777216))), old(G.wn[enc.w])+3, div(ite(value < 0, value + 4294967296, value), 16777216)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadInt32(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])+0] == 0 && old(G.rk[dec.r])[old(G.rn[dec.r])+1] == 0 && old(G.rk[dec.r])[old(G.rn[dec.r])+2] == 0 && old(G.rk[dec.r])[old(G.rn[dec.r])+3] == 0 ==> err == nil && let(u, 1*old(G.rc[dec.r])[old(G.rn[dec.r])+0] + 256*old(G.rc[dec.r])[old(G.rn[dec.r])+1] + 65536*old(G.rc[dec.r])[old(G.rn[dec.r])+2] + 16777216*old(G.rc[dec.r])[old(G.rn[dec.r])+3], *value == ite(u >= 2147483648, u - 4294967296, u)) && G.rn[dec.r] == old(G.rn[dec.r]) + 4
  modifies *value, dec.bs, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteUInt32(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 4 && G.wk[enc.w] == rowupd(rowupd(rowupd(rowupd(old(G.wk[enc.w]), old(G.wn[enc.w])+0, 0), old(G.wn[enc.w])+1, 0), old(G.wn[enc.w])+2, 0), old(G.wn[enc.w])+3, 0) && G.wc[enc.w] == rowupd(rowupd(rowupd(rowupd(old(G.wc[enc.w]), old(G.wn[enc.w])+0, (div(value, 1) - 256*div(value, 256))), old(G.wn[enc.w])+1, (div(value, 256) - 256*div(value, 65536))), old(G.wn[enc.w])+2, (div(value, 65536) - 256*div(value, 16777216))), old(G.wn[enc.w])+3, div(value, 16777216)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadUInt32(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])+0] == 0 && old(G.rk[dec.r])[old(G.rn[dec.r])+1] == 0 && old(G.rk[dec.r])[old(G.rn[dec.r])+2] == 0 && old(G.rk[dec.r])[old(G.rn[dec.r])+3] == 0 ==> err == nil && *value == 1*old(G.rc[dec.r])[old(G.rn[dec.r])+0] + 256*old(G.rc[dec.r])[old(G.rn[dec.r])+1] + 65536*old(G.rc[dec.r])[old(G.rn[dec.r])+2] + 16777216*old(G.rc[dec.r])[old(G.rn[dec.r])+3] && G.rn[dec.r] == old(G.rn[dec.r]) + 4
  modifies *value, dec.bs, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteInt64(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w])+0, 8) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w])+0, boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadInt64(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])+0] == 8 ==> err == nil && *value == unboxas(int64, old(G.rc[dec.r])[old(G.rn[dec.r])+0]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, dec.bs, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteUInt64(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w])+0, 9) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w])+0, boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadUInt64(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])+0] == 9 ==> err == nil && *value == unboxas(uint64, old(G.rc[dec.r])[old(G.rn[dec.r])+0]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, dec.bs, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteFloat(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w])+0, 10) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w])+0, boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadFloat(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])+0] == 10 ==> err == nil && *value == unboxas(float32, old(G.rc[dec.r])[old(G.rn[dec.r])+0]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, dec.bs, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteDouble(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w])+0, 11) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w])+0, boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadDouble(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])+0] == 11 ==> err == nil && *value == unboxas(float64, old(G.rc[dec.r])[old(G.rn[dec.r])+0]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, dec.bs, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteString(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w])+0, 12) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w])+0, boxof(string(value))) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadString(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])+0] == 12 ==> err == nil && string(*value) == unboxas(string, old(G.rc[dec.r])[old(G.rn[dec.r])+0]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, dec.bs, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteDateTime(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w])+0, 13) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w])+0, boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadDateTime(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])+0] == 13 ==> err == nil && *value == dtnorm(unboxas(time.Time, old(G.rc[dec.r])[old(G.rn[dec.r])+0])) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, dec.bs, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteGUID(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w])+0, 14) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w])+0, boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadGUID(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])+0] == 14 ==> err == nil && *value == unboxas(uuid.UUID, old(G.rc[dec.r])[old(G.rn[dec.r])+0]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, dec.bs, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteByteString(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w])+0, 12) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w])+0, boxof(string(value))) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadByteString(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])+0] == 12 ==> err == nil && string(*value) == unboxas(string, old(G.rc[dec.r])[old(G.rn[dec.r])+0]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, dec.bs, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteXMLElement(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w])+0, 12) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w])+0, boxof(string(value))) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadXMLElement(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])+0] == 12 ==> err == nil && string(*value) == unboxas(string, old(G.rc[dec.r])[old(G.rn[dec.r])+0]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, dec.bs, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteStatusCode(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 4 && G.wk[enc.w] == rowupd(rowupd(rowupd(rowupd(old(G.wk[enc.w]), old(G.wn[enc.w])+0, 0), old(G.wn[enc.w])+1, 0), old(G.wn[enc.w])+2, 0), old(G.wn[enc.w])+3, 0) && G.wc[enc.w] == rowupd(rowupd(rowupd(rowupd(old(G.wc[enc.w]), old(G.wn[enc.w])+0, (div(value, 1) - 256*div(value, 256))), old(G.wn[enc.w])+1, (div(value, 256) - 256*div(value, 65536))), old(G.wn[enc.w])+2, (div(value, 65536) - 256*div(value, 16777216))), old(G.wn[enc.w])+3, div(value, 16777216)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadStatusCode(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])+0] == 0 && old(G.rk[dec.r])[old(G.rn[dec.r])+1] == 0 && old(G.rk[dec.r])[old(G.rn[dec.r])+2] == 0 && old(G.rk[dec.r])[old(G.rn[dec.r])+3] == 0 ==> err == nil && *value == 1*old(G.rc[dec.r])[old(G.rn[dec.r])+0] + 256*old(G.rc[dec.r])[old(G.rn[dec.r])+1] + 65536*old(G.rc[dec.r])[old(G.rn[dec.r])+2] + 16777216*old(G.rc[dec.r])[old(G.rn[dec.r])+3] && G.rn[dec.r] == old(G.rn[dec.r]) + 4
  modifies *value, dec.bs, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteVariant(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 2 && G.wk[enc.w] == rowupd(rowupd(old(G.wk[enc.w]), old(G.wn[enc.w])+0, 21), old(G.wn[enc.w])+1, 21) && G.wc[enc.w] == rowupd(rowupd(old(G.wc[enc.w]), old(G.wn[enc.w])+0, tag(value)), old(G.wn[enc.w])+1, payload(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted

func (*ua.BinaryDecoder).ReadVariant(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])+0] == 21 && old(G.rk[dec.r])[old(G.rn[dec.r])+1] == 21 ==> err == nil && tag(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])+0] && payload(*value) == old(G.rc[dec.r])[old(G.rn[dec.r])+1] && G.rn[dec.r] == old(G.rn[dec.r]) + 2
  modifies *value, dec.bs, G.rn[dec.r]
  trusted

func (*ua.BinaryEncoder).WriteDiagnosticInfo(enc, value) (err)
  requires enc != nil && enc.w != nil
  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w])+0, 22) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w])+0, boxof(value)) && G.wfail[enc.w] == old(G.wfail[enc.w])
  ensures err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]
  trusted
  inline

func (*ua.BinaryDecoder).ReadDiagnosticInfo(dec, value) (err)
  requires dec != nil && dec.r != nil && value != nil
  ensures old(G.rk[dec.r])[old(G.rn[dec.r])+0] == 22 ==> err == nil && *value == unboxas(ua.DiagnosticInfo, old(G.rc[dec.r])[old(G.rn[dec.r])+0]) && G.rn[dec.r] == old(G.rn[dec.r]) + 1
  modifies *value, dec.bs, G.rn[dec.r]
  trusted
  inline


define num(v) = is(v, ua.NodeIDNumeric)
define stn(v) = is(v, ua.NodeIDString)
define gun(v) = is(v, ua.NodeIDGUID)
define opq(v) = is(v, ua.NodeIDOpaque)
define gzero(x) = forall(i, 0, 16, x[i] == 0)
define nidOK(v) = v == nil || num(v) || stn(v) || gun(v) || opq(v)
define nidNull(v) = v == nil || num(v) && as(v, ua.NodeIDNumeric).NamespaceIndex == 0 && as(v, ua.NodeIDNumeric).ID == 0 || stn(v) && as(v, ua.NodeIDString).NamespaceIndex == 0 && as(v, ua.NodeIDString).ID == "" || opq(v) && as(v, ua.NodeIDOpaque).NamespaceIndex == 0 && as(v, ua.NodeIDOpaque).ID == "" || gun(v) && as(v, ua.NodeIDGUID).NamespaceIndex == 0 && gzero(as(v, ua.NodeIDGUID).ID)
define nsOf(v) = ite(num(v), as(v, ua.NodeIDNumeric).NamespaceIndex, ite(stn(v), as(v, ua.NodeIDString).NamespaceIndex, ite(gun(v), as(v, ua.NodeIDGUID).NamespaceIndex, as(v, ua.NodeIDOpaque).NamespaceIndex)))
define sameID(a, b) = tag(a) == tag(b) && (num(a) ==> as(a, ua.NodeIDNumeric).ID == as(b, ua.NodeIDNumeric).ID) && (stn(a) ==> as(a, ua.NodeIDString).ID == as(b, ua.NodeIDString).ID) && (gun(a) ==> as(a, ua.NodeIDGUID).ID == as(b, ua.NodeIDGUID).ID) && (opq(a) ==> as(a, ua.NodeIDOpaque).ID == as(b, ua.NodeIDOpaque).ID)

func ua.verifRT2_NodeID(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires nidOK(v)
  ensures null: ok ==> (nidNull(v) ==> out == nil)
  ensures value: ok ==> (!nidNull(v) ==> sameID(out, v) && nsOf(out) == nsOf(v))
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT2_ExpandedNodeID(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  requires nidOK(v.NodeID)
  ensures server: ok ==> out.ServerIndex == v.ServerIndex
  ensures uri: ok ==> out.NamespaceURI == v.NamespaceURI
  ensures id: ok ==> (v.NodeID == nil ==> out.NodeID == nil)
  ensures id2: ok ==> (v.NodeID != nil && out.NodeID != nil ==> sameID(out.NodeID, v.NodeID) && nsOf(out.NodeID) == ite(v.NamespaceURI == "", nsOf(v.NodeID), 0))
  ensures id3: ok ==> (v.NodeID != nil && out.NodeID == nil ==> num(v.NodeID) && as(v.NodeID, ua.NodeIDNumeric).ID == 0 && (v.NamespaceURI != "" || nsOf(v.NodeID) == 0))
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT2_QualifiedName(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  ensures value: ok ==> out == v
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT2_LocalizedText(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  ensures value: ok ==> out == v
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT2_DataValue(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  ensures value: ok ==> out.Value == v.Value && out.StatusCode == v.StatusCode && out.SourcePicoseconds == v.SourcePicoseconds && out.ServerPicoseconds == v.ServerPicoseconds
  ensures times: ok ==> out.SourceTimestamp == ite(v.SourceTimestamp == zero(time.Time), v.SourceTimestamp, dtnorm(v.SourceTimestamp)) && out.ServerTimestamp == ite(v.ServerTimestamp == zero(time.Time), v.ServerTimestamp, dtnorm(v.ServerTimestamp))
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT2_DiagnosticInfo(enc, dec, v) (out, ok) [C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]
  ensures SymbolicID: ok ==> (out.SymbolicID == nil) == (v.SymbolicID == nil) && (v.SymbolicID != nil ==> *out.SymbolicID == *v.SymbolicID)
  ensures NamespaceURI: ok ==> (out.NamespaceURI == nil) == (v.NamespaceURI == nil) && (v.NamespaceURI != nil ==> *out.NamespaceURI == *v.NamespaceURI)
  ensures Locale: ok ==> (out.Locale == nil) == (v.Locale == nil) && (v.Locale != nil ==> *out.Locale == *v.Locale)
  ensures LocalizedText: ok ==> (out.LocalizedText == nil) == (v.LocalizedText == nil) && (v.LocalizedText != nil ==> *out.LocalizedText == *v.LocalizedText)
  ensures AdditionalInfo: ok ==> (out.AdditionalInfo == nil) == (v.AdditionalInfo == nil) && (v.AdditionalInfo != nil ==> *out.AdditionalInfo == *v.AdditionalInfo)
  ensures InnerStatusCode: ok ==> (out.InnerStatusCode == nil) == (v.InnerStatusCode == nil) && (v.InnerStatusCode != nil ==> *out.InnerStatusCode == *v.InnerStatusCode)
  ensures InnerDiagnosticInfo: ok ==> (out.InnerDiagnosticInfo == nil) == (v.InnerDiagnosticInfo == nil) && (v.InnerDiagnosticInfo != nil ==> *out.InnerDiagnosticInfo == *v.InnerDiagnosticInfo)
  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

