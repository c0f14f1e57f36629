# Byte-level contracts of the scalar codec. Generated by gen_c01.py.
package ua
lemmas ua lemmas/ua_scalar.go
ghost wpos int
ghost wdata byte row
ghost wfail bool
ghost rpos int
ghost rlen int
ghost rdata byte row

func (*ua.BinaryEncoder).WriteBoolean(enc, value) (err) [C01,C02]
  requires enc != nil && enc.w != nil
  ensures bytes: err == nil ==> G.wpos[enc.w] == old(G.wpos[enc.w]) + 1 && G.wdata[enc.w] == rowupd(old(G.wdata[enc.w]), old(G.wpos[enc.w])+0, ite(value, 1, 0))
  ensures total: err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wpos[enc.w], G.wdata[enc.w], G.wfail[enc.w]
  safe

func (*ua.BinaryDecoder).ReadBoolean(dec, value) (err) [C01,C02]
  requires dec != nil && dec.r != nil && value != nil
  ensures value: err == nil ==> *value == (G.rdata[dec.r][old(G.rpos[dec.r])] != 0)
  ensures consumed: err == nil ==> G.rpos[dec.r] == old(G.rpos[dec.r]) + 1
  ensures total: err != nil ==> old(G.rpos[dec.r]) + 1 > G.rlen[dec.r]
  modifies *value, dec.bs, G.rpos[dec.r]
  safe

func (*ua.BinaryEncoder).WriteSByte(enc, value) (err) [C01,C02]
  requires enc != nil && enc.w != nil
  ensures bytes: err == nil ==> G.wpos[enc.w] == old(G.wpos[enc.w]) + 1 && G.wdata[enc.w] == rowupd(old(G.wdata[enc.w]), old(G.wpos[enc.w])+0, div(ite(value < 0, value + 256, value), 1))
  ensures total: err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wpos[enc.w], G.wdata[enc.w], G.wfail[enc.w]
  safe

func (*ua.BinaryDecoder).ReadSByte(dec, value) (err) [C01,C02]
  requires dec != nil && dec.r != nil && value != nil
  ensures value: err == nil ==> let(u, 1*G.rdata[dec.r][old(G.rpos[dec.r])+0], *value == ite(u >= 128, u - 256, u))
  ensures consumed: err == nil ==> G.rpos[dec.r] == old(G.rpos[dec.r]) + 1
  ensures total: err != nil ==> old(G.rpos[dec.r]) + 1 > G.rlen[dec.r]
  modifies *value, dec.bs, G.rpos[dec.r]
  safe

func (*ua.BinaryEncoder).WriteByte(enc, value) (err) [C01,C02]
  requires enc != nil && enc.w != nil
  ensures bytes: err == nil ==> G.wpos[enc.w] == old(G.wpos[enc.w]) + 1 && G.wdata[enc.w] == rowupd(old(G.wdata[enc.w]), old(G.wpos[enc.w])+0, div(value, 1))
  ensures total: err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wpos[enc.w], G.wdata[enc.w], G.wfail[enc.w]
  safe

func (*ua.BinaryDecoder).ReadByte(dec, value) (err) [C01,C02]
  requires dec != nil && dec.r != nil && value != nil
  ensures value: err == nil ==> *value == 1*G.rdata[dec.r][old(G.rpos[dec.r])+0]
  ensures consumed: err == nil ==> G.rpos[dec.r] == old(G.rpos[dec.r]) + 1
  ensures total: err != nil ==> old(G.rpos[dec.r]) + 1 > G.rlen[dec.r]
  modifies *value, dec.bs, G.rpos[dec.r]
  safe

func (*ua.BinaryEncoder).WriteInt16(enc, value) (err) [C01,C02]
  requires enc != nil && enc.w != nil
  ensures bytes: err == nil ==> G.wpos[enc.w] == old(G.wpos[enc.w]) + 2 && G.wdata[enc.w] == rowupd(rowupd(old(G.wdata[enc.w]), old(G.wpos[enc.w])+0, (div(ite(value < 0, value + 65536, value), 1) - 256*div(ite(value < 0, value + 65536, value), 256))), old(G.wpos[enc.w])+1, div(ite(value < 0, value + 65536, value), 256))
  ensures total: err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wpos[enc.w], G.wdata[enc.w], G.wfail[enc.w]
  safe

func (*ua.BinaryDecoder).ReadInt16(dec, value) (err) [C01,C02]
  requires dec != nil && dec.r != nil && value != nil
  ensures value: err == nil ==> let(u, 1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1], *value == ite(u >= 32768, u - 65536, u))
  ensures consumed: err == nil ==> G.rpos[dec.r] == old(G.rpos[dec.r]) + 2
  ensures total: err != nil ==> old(G.rpos[dec.r]) + 2 > G.rlen[dec.r]
  modifies *value, dec.bs, G.rpos[dec.r]
  safe

func (*ua.BinaryEncoder).WriteUInt16(enc, value) (err) [C01,C02]
  requires enc != nil && enc.w != nil
  ensures bytes: err == nil ==> G.wpos[enc.w] == old(G.wpos[enc.w]) + 2 && G.wdata[enc.w] == rowupd(rowupd(old(G.wdata[enc.w]), old(G.wpos[enc.w])+0, (div(value, 1) - 256*div(value, 256))), old(G.wpos[enc.w])+1, div(value, 256))
  ensures total: err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wpos[enc.w], G.wdata[enc.w], G.wfail[enc.w]
  safe

func (*ua.BinaryDecoder).ReadUInt16(dec, value) (err) [C01,C02]
  requires dec != nil && dec.r != nil && value != nil
  ensures value: err == nil ==> *value == 1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1]
  ensures consumed: err == nil ==> G.rpos[dec.r] == old(G.rpos[dec.r]) + 2
  ensures total: err != nil ==> old(G.rpos[dec.r]) + 2 > G.rlen[dec.r]
  modifies *value, dec.bs, G.rpos[dec.r]
  safe

func (*ua.BinaryEncoder).WriteInt32(enc, value) (err) [C01,C02]
  requires enc != nil && enc.w != nil
  ensures bytes: err == nil ==> G.wpos[enc.w] == old(G.wpos[enc.w]) + 4 && G.wdata[enc.w] == rowupd(rowupd(rowupd(rowupd(old(G.wdata[enc.w]), old(G.wpos[enc.w])+0, (div(ite(value < 0, value + 4294967296, value), 1) - 256*div(ite(value < 0, value + 4294967296, value), 256))), old(G.wpos[enc.w])+1, (div(ite(value < 0, value + 4294967296, value), 256) - 256*div(ite(value < 0, value + 4294967296, value), 65536))), old(G.wpos[enc.w])+2, (div(ite(value < 0, value + 4294967296, value), 65536) - 256*div(ite(value < 0, value + 4294967296, value), 16777216))), old(G.wpos[enc.w])+3, div(ite(value < 0, value + 4294967296, value), 16777216))
  ensures total: err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wpos[enc.w], G.wdata[enc.w], G.wfail[enc.w]
  safe

func (*ua.BinaryDecoder).ReadInt32(dec, value) (err) [C01,C02]
  requires dec != nil && dec.r != nil && value != nil
  ensures value: err == nil ==> let(u, 1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3], *value == ite(u >= 2147483648, u - 4294967296, u))
  ensures consumed: err == nil ==> G.rpos[dec.r] == old(G.rpos[dec.r]) + 4
  ensures total: err != nil ==> old(G.rpos[dec.r]) + 4 > G.rlen[dec.r]
  modifies *value, dec.bs, G.rpos[dec.r]
  safe

func (*ua.BinaryEncoder).WriteUInt32(enc, value) (err) [C01,C02]
  requires enc != nil && enc.w != nil
  ensures bytes: err == nil ==> G.wpos[enc.w] == old(G.wpos[enc.w]) + 4 && G.wdata[enc.w] == rowupd(rowupd(rowupd(rowupd(old(G.wdata[enc.w]), old(G.wpos[enc.w])+0, (div(value, 1) - 256*div(value, 256))), old(G.wpos[enc.w])+1, (div(value, 256) - 256*div(value, 65536))), old(G.wpos[enc.w])+2, (div(value, 65536) - 256*div(value, 16777216))), old(G.wpos[enc.w])+3, div(value, 16777216))
  ensures total: err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wpos[enc.w], G.wdata[enc.w], G.wfail[enc.w]
  safe

func (*ua.BinaryDecoder).ReadUInt32(dec, value) (err) [C01,C02]
  requires dec != nil && dec.r != nil && value != nil
  ensures value: err == nil ==> *value == 1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]
  ensures consumed: err == nil ==> G.rpos[dec.r] == old(G.rpos[dec.r]) + 4
  ensures total: err != nil ==> old(G.rpos[dec.r]) + 4 > G.rlen[dec.r]
  modifies *value, dec.bs, G.rpos[dec.r]
  safe

func (*ua.BinaryEncoder).WriteInt64(enc, value) (err) [C01,C02]
  requires enc != nil && enc.w != nil
  ensures bytes: err == nil ==> G.wpos[enc.w] == old(G.wpos[enc.w]) + 8 && G.wdata[enc.w] == rowupd(rowupd(rowupd(rowupd(rowupd(rowupd(rowupd(rowupd(old(G.wdata[enc.w]), old(G.wpos[enc.w])+0, (div(ite(value < 0, value + 18446744073709551616, value), 1) - 256*div(ite(value < 0, value + 18446744073709551616, value), 256))), old(G.wpos[enc.w])+1, (div(ite(value < 0, value + 18446744073709551616, value), 256) - 256*div(ite(value < 0, value + 18446744073709551616, value), 65536))), old(G.wpos[enc.w])+2, (div(ite(value < 0, value + 18446744073709551616, value), 65536) - 256*div(ite(value < 0, value + 18446744073709551616, value), 16777216))), old(G.wpos[enc.w])+3, (div(ite(value < 0, value + 18446744073709551616, value), 16777216) - 256*div(ite(value < 0, value + 18446744073709551616, value), 4294967296))), old(G.wpos[enc.w])+4, (div(ite(value < 0, value + 18446744073709551616, value), 4294967296) - 256*div(ite(value < 0, value + 18446744073709551616, value), 1099511627776))), old(G.wpos[enc.w])+5, (div(ite(value < 0, value + 18446744073709551616, value), 1099511627776) - 256*div(ite(value < 0, value + 18446744073709551616, value), 281474976710656))), old(G.wpos[enc.w])+6, (div(ite(value < 0, value + 18446744073709551616, value), 281474976710656) - 256*div(ite(value < 0, value + 18446744073709551616, value), 72057594037927936))), old(G.wpos[enc.w])+7, div(ite(value < 0, value + 18446744073709551616, value), 72057594037927936))
  ensures total: err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wpos[enc.w], G.wdata[enc.w], G.wfail[enc.w]
  safe

func (*ua.BinaryDecoder).ReadInt64(dec, value) (err) [C01,C02]
  requires dec != nil && dec.r != nil && value != nil
  ensures value: err == nil ==> let(u, 1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3] + 4294967296*G.rdata[dec.r][old(G.rpos[dec.r])+4] + 1099511627776*G.rdata[dec.r][old(G.rpos[dec.r])+5] + 281474976710656*G.rdata[dec.r][old(G.rpos[dec.r])+6] + 72057594037927936*G.rdata[dec.r][old(G.rpos[dec.r])+7], *value == ite(u >= 9223372036854775808, u - 18446744073709551616, u))
  ensures consumed: err == nil ==> G.rpos[dec.r] == old(G.rpos[dec.r]) + 8
  ensures total: err != nil ==> old(G.rpos[dec.r]) + 8 > G.rlen[dec.r]
  modifies *value, dec.bs, G.rpos[dec.r]
  safe

func (*ua.BinaryEncoder).WriteUInt64(enc, value) (err) [C01,C02]
  requires enc != nil && enc.w != nil
  ensures bytes: err == nil ==> G.wpos[enc.w] == old(G.wpos[enc.w]) + 8 && G.wdata[enc.w] == rowupd(rowupd(rowupd(rowupd(rowupd(rowupd(rowupd(rowupd(old(G.wdata[enc.w]), old(G.wpos[enc.w])+0, (div(value, 1) - 256*div(value, 256))), old(G.wpos[enc.w])+1, (div(value, 256) - 256*div(value, 65536))), old(G.wpos[enc.w])+2, (div(value, 65536) - 256*div(value, 16777216))), old(G.wpos[enc.w])+3, (div(value, 16777216) - 256*div(value, 4294967296))), old(G.wpos[enc.w])+4, (div(value, 4294967296) - 256*div(value, 1099511627776))), old(G.wpos[enc.w])+5, (div(value, 1099511627776) - 256*div(value, 281474976710656))), old(G.wpos[enc.w])+6, (div(value, 281474976710656) - 256*div(value, 72057594037927936))), old(G.wpos[enc.w])+7, div(value, 72057594037927936))
  ensures total: err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wpos[enc.w], G.wdata[enc.w], G.wfail[enc.w]
  safe

func (*ua.BinaryDecoder).ReadUInt64(dec, value) (err) [C01,C02]
  requires dec != nil && dec.r != nil && value != nil
  ensures value: err == nil ==> *value == 1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3] + 4294967296*G.rdata[dec.r][old(G.rpos[dec.r])+4] + 1099511627776*G.rdata[dec.r][old(G.rpos[dec.r])+5] + 281474976710656*G.rdata[dec.r][old(G.rpos[dec.r])+6] + 72057594037927936*G.rdata[dec.r][old(G.rpos[dec.r])+7]
  ensures consumed: err == nil ==> G.rpos[dec.r] == old(G.rpos[dec.r]) + 8
  ensures total: err != nil ==> old(G.rpos[dec.r]) + 8 > G.rlen[dec.r]
  modifies *value, dec.bs, G.rpos[dec.r]
  safe

func (*ua.BinaryEncoder).WriteFloat(enc, value) (err) [C01,C02]
  requires enc != nil && enc.w != nil
  ensures bytes: err == nil ==> G.wpos[enc.w] == old(G.wpos[enc.w]) + 4 && G.wdata[enc.w] == rowupd(rowupd(rowupd(rowupd(old(G.wdata[enc.w]), old(G.wpos[enc.w])+0, (div(math.Float32bits(value), 1) - 256*div(math.Float32bits(value), 256))), old(G.wpos[enc.w])+1, (div(math.Float32bits(value), 256) - 256*div(math.Float32bits(value), 65536))), old(G.wpos[enc.w])+2, (div(math.Float32bits(value), 65536) - 256*div(math.Float32bits(value), 16777216))), old(G.wpos[enc.w])+3, div(math.Float32bits(value), 16777216))
  ensures total: err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wpos[enc.w], G.wdata[enc.w], G.wfail[enc.w]
  safe

func (*ua.BinaryDecoder).ReadFloat(dec, value) (err) [C01,C02]
  requires dec != nil && dec.r != nil && value != nil
  ensures value: err == nil ==> *value == math.Float32frombits(1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3])
  ensures consumed: err == nil ==> G.rpos[dec.r] == old(G.rpos[dec.r]) + 4
  ensures total: err != nil ==> old(G.rpos[dec.r]) + 4 > G.rlen[dec.r]
  modifies *value, dec.bs, G.rpos[dec.r]
  safe

func (*ua.BinaryEncoder).WriteDouble(enc, value) (err) [C01,C02]
  requires enc != nil && enc.w != nil
  ensures bytes: err == nil ==> G.wpos[enc.w] == old(G.wpos[enc.w]) + 8 && G.wdata[enc.w] == rowupd(rowupd(rowupd(rowupd(rowupd(rowupd(rowupd(rowupd(old(G.wdata[enc.w]), old(G.wpos[enc.w])+0, (div(math.Float64bits(value), 1) - 256*div(math.Float64bits(value), 256))), old(G.wpos[enc.w])+1, (div(math.Float64bits(value), 256) - 256*div(math.Float64bits(value), 65536))), old(G.wpos[enc.w])+2, (div(math.Float64bits(value), 65536) - 256*div(math.Float64bits(value), 16777216))), old(G.wpos[enc.w])+3, (div(math.Float64bits(value), 16777216) - 256*div(math.Float64bits(value), 4294967296))), old(G.wpos[enc.w])+4, (div(math.Float64bits(value), 4294967296) - 256*div(math.Float64bits(value), 1099511627776))), old(G.wpos[enc.w])+5, (div(math.Float64bits(value), 1099511627776) - 256*div(math.Float64bits(value), 281474976710656))), old(G.wpos[enc.w])+6, (div(math.Float64bits(value), 281474976710656) - 256*div(math.Float64bits(value), 72057594037927936))), old(G.wpos[enc.w])+7, div(math.Float64bits(value), 72057594037927936))
  ensures total: err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wpos[enc.w], G.wdata[enc.w], G.wfail[enc.w]
  safe

func (*ua.BinaryDecoder).ReadDouble(dec, value) (err) [C01,C02]
  requires dec != nil && dec.r != nil && value != nil
  ensures value: err == nil ==> *value == math.Float64frombits(1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3] + 4294967296*G.rdata[dec.r][old(G.rpos[dec.r])+4] + 1099511627776*G.rdata[dec.r][old(G.rpos[dec.r])+5] + 281474976710656*G.rdata[dec.r][old(G.rpos[dec.r])+6] + 72057594037927936*G.rdata[dec.r][old(G.rpos[dec.r])+7])
  ensures consumed: err == nil ==> G.rpos[dec.r] == old(G.rpos[dec.r]) + 8
  ensures total: err != nil ==> old(G.rpos[dec.r]) + 8 > G.rlen[dec.r]
  modifies *value, dec.bs, G.rpos[dec.r]
  safe

func (*ua.BinaryEncoder).WriteStatusCode(enc, value) (err) [C01,C02]
  requires enc != nil && enc.w != nil
  ensures bytes: err == nil ==> G.wpos[enc.w] == old(G.wpos[enc.w]) + 4 && G.wdata[enc.w] == rowupd(rowupd(rowupd(rowupd(old(G.wdata[enc.w]), old(G.wpos[enc.w])+0, (div(value, 1) - 256*div(value, 256))), old(G.wpos[enc.w])+1, (div(value, 256) - 256*div(value, 65536))), old(G.wpos[enc.w])+2, (div(value, 65536) - 256*div(value, 16777216))), old(G.wpos[enc.w])+3, div(value, 16777216))
  ensures total: err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wpos[enc.w], G.wdata[enc.w], G.wfail[enc.w]
  safe

func (*ua.BinaryDecoder).ReadStatusCode(dec, value) (err) [C01,C02]
  requires dec != nil && dec.r != nil && value != nil
  ensures value: err == nil ==> *value == 1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]
  ensures consumed: err == nil ==> G.rpos[dec.r] == old(G.rpos[dec.r]) + 4
  ensures total: err != nil ==> old(G.rpos[dec.r]) + 4 > G.rlen[dec.r]
  modifies *value, dec.bs, G.rpos[dec.r]
  safe

func (*ua.BinaryEncoder).WriteGUID(enc, value) (err) [C01,C02]
  requires enc != nil && enc.w != nil
  ensures bytes: err == nil ==> G.wpos[enc.w] == old(G.wpos[enc.w]) + 16 && G.wdata[enc.w] == rowupd(rowupd(rowupd(rowupd(rowupd(rowupd(rowupd(rowupd(rowupd(rowupd(rowupd(rowupd(rowupd(rowupd(rowupd(rowupd(old(G.wdata[enc.w]), old(G.wpos[enc.w])+0, value[3]), old(G.wpos[enc.w])+1, value[2]), old(G.wpos[enc.w])+2, value[1]), old(G.wpos[enc.w])+3, value[0]), old(G.wpos[enc.w])+4, value[5]), old(G.wpos[enc.w])+5, value[4]), old(G.wpos[enc.w])+6, value[7]), old(G.wpos[enc.w])+7, value[6]), old(G.wpos[enc.w])+8, value[8]), old(G.wpos[enc.w])+9, value[9]), old(G.wpos[enc.w])+10, value[10]), old(G.wpos[enc.w])+11, value[11]), old(G.wpos[enc.w])+12, value[12]), old(G.wpos[enc.w])+13, value[13]), old(G.wpos[enc.w])+14, value[14]), old(G.wpos[enc.w])+15, value[15])
  ensures total: err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wpos[enc.w], G.wdata[enc.w], G.wfail[enc.w]
  safe

func (*ua.BinaryDecoder).ReadGUID(dec, value) (err) [C01,C02]
  requires dec != nil && dec.r != nil && value != nil
  ensures value: err == nil ==> (*value)[3] == G.rdata[dec.r][old(G.rpos[dec.r])+0] && (*value)[2] == G.rdata[dec.r][old(G.rpos[dec.r])+1] && (*value)[1] == G.rdata[dec.r][old(G.rpos[dec.r])+2] && (*value)[0] == G.rdata[dec.r][old(G.rpos[dec.r])+3] && (*value)[5] == G.rdata[dec.r][old(G.rpos[dec.r])+4] && (*value)[4] == G.rdata[dec.r][old(G.rpos[dec.r])+5] && (*value)[7] == G.rdata[dec.r][old(G.rpos[dec.r])+6] && (*value)[6] == G.rdata[dec.r][old(G.rpos[dec.r])+7] && (*value)[8] == G.rdata[dec.r][old(G.rpos[dec.r])+8] && (*value)[9] == G.rdata[dec.r][old(G.rpos[dec.r])+9] && (*value)[10] == G.rdata[dec.r][old(G.rpos[dec.r])+10] && (*value)[11] == G.rdata[dec.r][old(G.rpos[dec.r])+11] && (*value)[12] == G.rdata[dec.r][old(G.rpos[dec.r])+12] && (*value)[13] == G.rdata[dec.r][old(G.rpos[dec.r])+13] && (*value)[14] == G.rdata[dec.r][old(G.rpos[dec.r])+14] && (*value)[15] == G.rdata[dec.r][old(G.rpos[dec.r])+15]
  ensures consumed: err == nil ==> G.rpos[dec.r] == old(G.rpos[dec.r]) + 16
  ensures total: err != nil ==> old(G.rpos[dec.r]) + 16 > G.rlen[dec.r]
  modifies *value, dec.bs, G.rpos[dec.r]
  safe

func (*ua.BinaryEncoder).WriteString(enc, value) (err) [C01,C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647
  ensures size: err == nil ==> G.wpos[enc.w] == old(G.wpos[enc.w]) + 4 + len(value)
  ensures length: err == nil ==> let(p, old(G.wpos[enc.w]), G.wdata[enc.w][p+0] == (div(ite(len(value)==0, 4294967295, len(value)), 1) - 256*div(ite(len(value)==0, 4294967295, len(value)), 256)) && G.wdata[enc.w][p+1] == (div(ite(len(value)==0, 4294967295, len(value)), 256) - 256*div(ite(len(value)==0, 4294967295, len(value)), 65536)) && G.wdata[enc.w][p+2] == (div(ite(len(value)==0, 4294967295, len(value)), 65536) - 256*div(ite(len(value)==0, 4294967295, len(value)), 16777216)) && G.wdata[enc.w][p+3] == div(ite(len(value)==0, 4294967295, len(value)), 16777216))
  ensures content: err == nil ==> let(p, old(G.wpos[enc.w]), forall(j, p+4, p+4+len(value), G.wdata[enc.w][j] == sbyte(value, j-(p+4))))
  ensures prefix: err == nil ==> let(p, old(G.wpos[enc.w]), forall(j, 0, p, G.wdata[enc.w][j] == old(G.wdata[enc.w])[j]))
  ensures total: err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wpos[enc.w], G.wdata[enc.w], G.wfail[enc.w]
  safe

func (*ua.BinaryDecoder).ReadString(dec, value) (err) [C01,C02]
  requires dec != nil && dec.r != nil && value != nil
  ensures null: err == nil && (1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]) >= 2147483648 ==> len(*value) == 0 && G.rpos[dec.r] == old(G.rpos[dec.r]) + 4
  ensures size: err == nil && (1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]) < 2147483648 ==> len(*value) == (1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]) && G.rpos[dec.r] == old(G.rpos[dec.r]) + 4 + len(*value)
  ensures content: err == nil && (1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]) < 2147483648 ==> let(p, old(G.rpos[dec.r])+4, forall(j, 0, len(*value), sbyte(*value, j) == G.rdata[dec.r][p+j]))
  ensures total: err != nil ==> old(G.rpos[dec.r]) + 4 + ite((1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]) < 2147483648, (1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]), 0) > G.rlen[dec.r] || old(G.rpos[dec.r]) + 4 > G.rlen[dec.r]
  modifies *value, dec.bs, G.rpos[dec.r]
  safe

func (*ua.BinaryEncoder).WriteByteString(enc, value) (err) [C01,C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647
  ensures size: err == nil ==> G.wpos[enc.w] == old(G.wpos[enc.w]) + 4 + len(value)
  ensures length: err == nil ==> let(p, old(G.wpos[enc.w]), G.wdata[enc.w][p+0] == (div(ite(len(value)==0, 4294967295, len(value)), 1) - 256*div(ite(len(value)==0, 4294967295, len(value)), 256)) && G.wdata[enc.w][p+1] == (div(ite(len(value)==0, 4294967295, len(value)), 256) - 256*div(ite(len(value)==0, 4294967295, len(value)), 65536)) && G.wdata[enc.w][p+2] == (div(ite(len(value)==0, 4294967295, len(value)), 65536) - 256*div(ite(len(value)==0, 4294967295, len(value)), 16777216)) && G.wdata[enc.w][p+3] == div(ite(len(value)==0, 4294967295, len(value)), 16777216))
  ensures content: err == nil ==> let(p, old(G.wpos[enc.w]), forall(j, p+4, p+4+len(value), G.wdata[enc.w][j] == sbyte(value, j-(p+4))))
  ensures prefix: err == nil ==> let(p, old(G.wpos[enc.w]), forall(j, 0, p, G.wdata[enc.w][j] == old(G.wdata[enc.w])[j]))
  ensures total: err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wpos[enc.w], G.wdata[enc.w], G.wfail[enc.w]
  safe

func (*ua.BinaryDecoder).ReadByteString(dec, value) (err) [C01,C02]
  requires dec != nil && dec.r != nil && value != nil
  ensures null: err == nil && (1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]) >= 2147483648 ==> len(*value) == 0 && G.rpos[dec.r] == old(G.rpos[dec.r]) + 4
  ensures size: err == nil && (1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]) < 2147483648 ==> len(*value) == (1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]) && G.rpos[dec.r] == old(G.rpos[dec.r]) + 4 + len(*value)
  ensures content: err == nil && (1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]) < 2147483648 ==> let(p, old(G.rpos[dec.r])+4, forall(j, 0, len(*value), sbyte(*value, j) == G.rdata[dec.r][p+j]))
  ensures total: err != nil ==> old(G.rpos[dec.r]) + 4 + ite((1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]) < 2147483648, (1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]), 0) > G.rlen[dec.r] || old(G.rpos[dec.r]) + 4 > G.rlen[dec.r]
  modifies *value, dec.bs, G.rpos[dec.r]
  safe

func (*ua.BinaryEncoder).WriteXMLElement(enc, value) (err) [C01,C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647
  ensures size: err == nil ==> G.wpos[enc.w] == old(G.wpos[enc.w]) + 4 + len(value)
  ensures length: err == nil ==> let(p, old(G.wpos[enc.w]), G.wdata[enc.w][p+0] == (div(ite(len(value)==0, 4294967295, len(value)), 1) - 256*div(ite(len(value)==0, 4294967295, len(value)), 256)) && G.wdata[enc.w][p+1] == (div(ite(len(value)==0, 4294967295, len(value)), 256) - 256*div(ite(len(value)==0, 4294967295, len(value)), 65536)) && G.wdata[enc.w][p+2] == (div(ite(len(value)==0, 4294967295, len(value)), 65536) - 256*div(ite(len(value)==0, 4294967295, len(value)), 16777216)) && G.wdata[enc.w][p+3] == div(ite(len(value)==0, 4294967295, len(value)), 16777216))
  ensures content: err == nil ==> let(p, old(G.wpos[enc.w]), forall(j, p+4, p+4+len(value), G.wdata[enc.w][j] == sbyte(value, j-(p+4))))
  ensures prefix: err == nil ==> let(p, old(G.wpos[enc.w]), forall(j, 0, p, G.wdata[enc.w][j] == old(G.wdata[enc.w])[j]))
  ensures total: err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wpos[enc.w], G.wdata[enc.w], G.wfail[enc.w]
  safe

func (*ua.BinaryDecoder).ReadXMLElement(dec, value) (err) [C01,C02]
  requires dec != nil && dec.r != nil && value != nil
  ensures null: err == nil && (1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]) >= 2147483648 ==> len(*value) == 0 && G.rpos[dec.r] == old(G.rpos[dec.r]) + 4
  ensures size: err == nil && (1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]) < 2147483648 ==> len(*value) == (1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]) && G.rpos[dec.r] == old(G.rpos[dec.r]) + 4 + len(*value)
  ensures content: err == nil && (1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]) < 2147483648 ==> let(p, old(G.rpos[dec.r])+4, forall(j, 0, len(*value), sbyte(*value, j) == G.rdata[dec.r][p+j]))
  ensures total: err != nil ==> old(G.rpos[dec.r]) + 4 + ite((1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]) < 2147483648, (1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]), 0) > G.rlen[dec.r] || old(G.rpos[dec.r]) + 4 > G.rlen[dec.r]
  modifies *value, dec.bs, G.rpos[dec.r]
  safe

func (*ua.BinaryEncoder).WriteByteArray(enc, value) (err) [C01,C02]
  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && base(value) != arrbase(enc.bs)
  ensures size: err == nil ==> G.wpos[enc.w] == old(G.wpos[enc.w]) + 4 + len(value)
  ensures length: err == nil ==> let(p, old(G.wpos[enc.w]), G.wdata[enc.w][p+0] == (div(ite(value == nil, 4294967295, len(value)), 1) - 256*div(ite(value == nil, 4294967295, len(value)), 256)) && G.wdata[enc.w][p+1] == (div(ite(value == nil, 4294967295, len(value)), 256) - 256*div(ite(value == nil, 4294967295, len(value)), 65536)) && G.wdata[enc.w][p+2] == (div(ite(value == nil, 4294967295, len(value)), 65536) - 256*div(ite(value == nil, 4294967295, len(value)), 16777216)) && G.wdata[enc.w][p+3] == div(ite(value == nil, 4294967295, len(value)), 16777216))
  ensures content: err == nil ==> let(p, old(G.wpos[enc.w]), forall(j, p+4, p+4+len(value), G.wdata[enc.w][j] == value[j-(p+4)]))
  ensures prefix: err == nil ==> let(p, old(G.wpos[enc.w]), forall(j, 0, p, G.wdata[enc.w][j] == old(G.wdata[enc.w])[j]))
  ensures total: err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wpos[enc.w], G.wdata[enc.w], G.wfail[enc.w]
  safe

func (*ua.BinaryDecoder).ReadByteArray(dec, value) (err) [C01,C02]
  requires dec != nil && dec.r != nil && value != nil
  ensures null: err == nil && (1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]) >= 2147483648 ==> *value == nil && G.rpos[dec.r] == old(G.rpos[dec.r]) + 4
  ensures size: err == nil && (1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]) < 2147483648 ==> *value != nil && len(*value) == (1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]) && G.rpos[dec.r] == old(G.rpos[dec.r]) + 4 + len(*value)
  ensures content: err == nil && (1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]) < 2147483648 ==> let(p, old(G.rpos[dec.r])+4, forall(j, 0, len(*value), (*value)[j] == G.rdata[dec.r][p+j]))
  ensures total: err != nil ==> old(G.rpos[dec.r]) + 4 + ite((1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]) < 2147483648, (1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3]), 0) > G.rlen[dec.r] || old(G.rpos[dec.r]) + 4 > G.rlen[dec.r]
  modifies *value, dec.bs, G.rpos[dec.r]
  safe


define ticksOf(t) = div(t + 11644473600000000000, 100)
define clampTicks(k) = ite(k < 0, 0, ite(k >= 2650467743990000000, 9223372036854775807, k))
define unclamp(k) = ite(k == 9223372036854775807, 2650467743990000000, ite(k < 0, 0, k))

func (*ua.BinaryEncoder).WriteDateTime(enc, value) (err) [C01,C02]
  requires enc != nil && enc.w != nil
  ensures bytes: err == nil ==> G.wpos[enc.w] == old(G.wpos[enc.w]) + 8 && let(k, clampTicks(ticksOf(value)), G.wdata[enc.w] == rowupd(rowupd(rowupd(rowupd(rowupd(rowupd(rowupd(rowupd(old(G.wdata[enc.w]), old(G.wpos[enc.w])+0, (div(k, 1) - 256*div(k, 256))), old(G.wpos[enc.w])+1, (div(k, 256) - 256*div(k, 65536))), old(G.wpos[enc.w])+2, (div(k, 65536) - 256*div(k, 16777216))), old(G.wpos[enc.w])+3, (div(k, 16777216) - 256*div(k, 4294967296))), old(G.wpos[enc.w])+4, (div(k, 4294967296) - 256*div(k, 1099511627776))), old(G.wpos[enc.w])+5, (div(k, 1099511627776) - 256*div(k, 281474976710656))), old(G.wpos[enc.w])+6, (div(k, 281474976710656) - 256*div(k, 72057594037927936))), old(G.wpos[enc.w])+7, div(k, 72057594037927936)))
  ensures total: err != nil ==> G.wfail[enc.w]
  modifies enc.bs, G.wpos[enc.w], G.wdata[enc.w], G.wfail[enc.w]
  safe

func (*ua.BinaryDecoder).ReadDateTime(dec, value) (err) [C01,C02]
  requires dec != nil && dec.r != nil && value != nil
  ensures value: err == nil ==> let(u, 1*G.rdata[dec.r][old(G.rpos[dec.r])+0] + 256*G.rdata[dec.r][old(G.rpos[dec.r])+1] + 65536*G.rdata[dec.r][old(G.rpos[dec.r])+2] + 16777216*G.rdata[dec.r][old(G.rpos[dec.r])+3] + 4294967296*G.rdata[dec.r][old(G.rpos[dec.r])+4] + 1099511627776*G.rdata[dec.r][old(G.rpos[dec.r])+5] + 281474976710656*G.rdata[dec.r][old(G.rpos[dec.r])+6] + 72057594037927936*G.rdata[dec.r][old(G.rpos[dec.r])+7], *value == 100*unclamp(ite(u >= 9223372036854775808, u - 18446744073709551616, u)) - 11644473600000000000)
  ensures consumed: err == nil ==> G.rpos[dec.r] == old(G.rpos[dec.r]) + 8
  ensures total: err != nil ==> old(G.rpos[dec.r]) + 8 > G.rlen[dec.r]
  modifies *value, dec.bs, G.rpos[dec.r]
  safe


func ua.verifStart(enc, dec)
  modifies G.rpos[dec.r]
  ensures G.rpos[dec.r] == G.wpos[enc.w]
 

func ua.verifLink(enc, dec)
  modifies G.rdata[dec.r], G.rlen[dec.r]
  ensures G.rdata[dec.r] == G.wdata[enc.w] && G.rlen[dec.r] == G.wpos[enc.w]
  trusted
define streq(a, b) = len(a) == len(b) && forall(j, 0, len(a), sbyte(a, j) == sbyte(b, j))

func ua.verifRT_Boolean(enc, dec, v) (out, ok) [C01,C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wpos[enc.w] >= 0 && G.wpos[enc.w] < 1000000000000
  ensures roundtrip: ok ==> out == v
  ensures consumed: ok ==> G.rpos[dec.r] == G.wpos[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT_SByte(enc, dec, v) (out, ok) [C01,C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wpos[enc.w] >= 0 && G.wpos[enc.w] < 1000000000000
  ensures roundtrip: ok ==> out == v
  ensures consumed: ok ==> G.rpos[dec.r] == G.wpos[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT_Byte(enc, dec, v) (out, ok) [C01,C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wpos[enc.w] >= 0 && G.wpos[enc.w] < 1000000000000
  ensures roundtrip: ok ==> out == v
  ensures consumed: ok ==> G.rpos[dec.r] == G.wpos[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT_Int16(enc, dec, v) (out, ok) [C01,C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wpos[enc.w] >= 0 && G.wpos[enc.w] < 1000000000000
  ensures roundtrip: ok ==> out == v
  ensures consumed: ok ==> G.rpos[dec.r] == G.wpos[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT_UInt16(enc, dec, v) (out, ok) [C01,C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wpos[enc.w] >= 0 && G.wpos[enc.w] < 1000000000000
  ensures roundtrip: ok ==> out == v
  ensures consumed: ok ==> G.rpos[dec.r] == G.wpos[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT_Int32(enc, dec, v) (out, ok) [C01,C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wpos[enc.w] >= 0 && G.wpos[enc.w] < 1000000000000
  ensures roundtrip: ok ==> out == v
  ensures consumed: ok ==> G.rpos[dec.r] == G.wpos[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT_UInt32(enc, dec, v) (out, ok) [C01,C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wpos[enc.w] >= 0 && G.wpos[enc.w] < 1000000000000
  ensures roundtrip: ok ==> out == v
  ensures consumed: ok ==> G.rpos[dec.r] == G.wpos[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT_Int64(enc, dec, v) (out, ok) [C01,C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wpos[enc.w] >= 0 && G.wpos[enc.w] < 1000000000000
  ensures roundtrip: ok ==> out == v
  ensures consumed: ok ==> G.rpos[dec.r] == G.wpos[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT_UInt64(enc, dec, v) (out, ok) [C01,C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wpos[enc.w] >= 0 && G.wpos[enc.w] < 1000000000000
  ensures roundtrip: ok ==> out == v
  ensures consumed: ok ==> G.rpos[dec.r] == G.wpos[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT_Float(enc, dec, v) (out, ok) [C01,C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wpos[enc.w] >= 0 && G.wpos[enc.w] < 1000000000000
  ensures roundtrip: ok ==> out == v
  ensures consumed: ok ==> G.rpos[dec.r] == G.wpos[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT_Double(enc, dec, v) (out, ok) [C01,C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wpos[enc.w] >= 0 && G.wpos[enc.w] < 1000000000000
  ensures roundtrip: ok ==> out == v
  ensures consumed: ok ==> G.rpos[dec.r] == G.wpos[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT_StatusCode(enc, dec, v) (out, ok) [C01,C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wpos[enc.w] >= 0 && G.wpos[enc.w] < 1000000000000
  ensures roundtrip: ok ==> out == v
  ensures consumed: ok ==> G.rpos[dec.r] == G.wpos[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT_GUID(enc, dec, v) (out, ok) [C01,C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wpos[enc.w] >= 0 && G.wpos[enc.w] < 1000000000000
  ensures roundtrip: ok ==> out == v
  ensures consumed: ok ==> G.rpos[dec.r] == G.wpos[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT_String(enc, dec, v) (out, ok) [C01,C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wpos[enc.w] >= 0 && G.wpos[enc.w] < 1000000000000
  requires len(v) <= 2147483647
  ensures roundtrip: ok ==> streq(out, v)
  ensures consumed: ok ==> G.rpos[dec.r] == G.wpos[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT_ByteString(enc, dec, v) (out, ok) [C01,C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wpos[enc.w] >= 0 && G.wpos[enc.w] < 1000000000000
  requires len(v) <= 2147483647
  ensures roundtrip: ok ==> streq(out, v)
  ensures consumed: ok ==> G.rpos[dec.r] == G.wpos[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT_XMLElement(enc, dec, v) (out, ok) [C01,C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wpos[enc.w] >= 0 && G.wpos[enc.w] < 1000000000000
  requires len(v) <= 2147483647
  ensures roundtrip: ok ==> streq(out, v)
  ensures consumed: ok ==> G.rpos[dec.r] == G.wpos[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT_ByteArray(enc, dec, v) (out, ok) [C01,C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wpos[enc.w] >= 0 && G.wpos[enc.w] < 1000000000000
  requires len(v) <= 2147483647 && base(v) != arrbase(enc.bs) && base(v) != arrbase(dec.bs)
  ensures roundtrip: ok ==> (out == nil) == (v == nil) && len(out) == len(v) && forall(j, 0, len(v), out[j] == v[j])
  ensures consumed: ok ==> G.rpos[dec.r] == G.wpos[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

func ua.verifRT_DateTime(enc, dec, v) (out, ok) [C01,C02]
  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wpos[enc.w] >= 0 && G.wpos[enc.w] < 1000000000000
  ensures roundtrip: ok ==> out == ite(v < -11644473600000000000, -11644473600000000000, ite(v >= 253402300799000000000, 253402300799000000000, v - mod(v, 100)))
  ensures consumed: ok ==> G.rpos[dec.r] == G.wpos[enc.w]
  ensures total: !ok ==> G.wfail[enc.w]
  noframe

