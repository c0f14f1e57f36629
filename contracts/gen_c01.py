#!/usr/bin/env python3
# generates C01.spec (byte-level contracts of the scalar codec)
out=[]
P=out.append
P("# Byte-level contracts of the scalar codec. Generated by gen_c01.py.")
P("package ua")
P("lemmas ua lemmas/ua_scalar.go")
P("ghost wpos int\nghost wdata byte row\nghost wfail bool\nghost rpos int\nghost rlen int\nghost rdata byte row\n")
def wrow(bs):
    r="old(G.wdata[enc.w])"
    for i,b in enumerate(bs):
        r=f"rowupd({r}, old(G.wpos[enc.w])+{i}, {b})"
    return r
def le(v,n,signed):
    bits=8*n
    u=f"ite({v} < 0, {v} + {1<<bits}, {v})" if signed else v
    return [f"(div({u}, {1<<(8*i)}) - 256*div({u}, {1<<(8*i+8)}))" if i<n-1 else f"div({u}, {1<<(8*i)})" for i in range(n)]
def rd(n):
    return " + ".join(f"{1<<(8*i)}*G.rdata[dec.r][old(G.rpos[dec.r])+{i}]" for i in range(n))
def W(name,bs,req=None):
    P(f"func (*ua.BinaryEncoder).{name}(enc, value) (err) [C01,C02]")
    P("  requires enc != nil && enc.w != nil")
    if req: P("  requires "+req)
    P(f"  ensures bytes: err == nil ==> G.wpos[enc.w] == old(G.wpos[enc.w]) + {len(bs)} && G.wdata[enc.w] == {wrow(bs)}")
    P("  ensures total: err != nil ==> G.wfail[enc.w]\n  modifies enc.bs, G.wpos[enc.w], G.wdata[enc.w], G.wfail[enc.w]\n  safe\n")
def R(name,val,n):
    P(f"func (*ua.BinaryDecoder).{name}(dec, value) (err) [C01,C02]")
    P("  requires dec != nil && dec.r != nil && value != nil")
    P(f"  ensures value: err == nil ==> {val}")
    P(f"  ensures consumed: err == nil ==> G.rpos[dec.r] == old(G.rpos[dec.r]) + {n}")
    P(f"  ensures total: err != nil ==> old(G.rpos[dec.r]) + {n} > G.rlen[dec.r]")
    P("  modifies *value, dec.bs, G.rpos[dec.r]\n  safe\n")
W("WriteBoolean",["ite(value, 1, 0)"])
R("ReadBoolean","*value == (G.rdata[dec.r][old(G.rpos[dec.r])] != 0)",1)
ints=[("SByte",1,True),("Byte",1,False),("Int16",2,True),("UInt16",2,False),("Int32",4,True),("UInt32",4,False),("Int64",8,True),("UInt64",8,False)]
for nm,n,s in ints:
    W("Write"+nm,le("value",n,s))
    u=rd(n)
    if s: val=f"let(u, {u}, *value == ite(u >= {1<<(8*n-1)}, u - {1<<(8*n)}, u))"
    else: val=f"*value == {u}"
    R("Read"+nm,val,n)
W("WriteFloat",le("math.Float32bits(value)",4,False))
R("ReadFloat",f"*value == math.Float32frombits({rd(4)})",4)
W("WriteDouble",le("math.Float64bits(value)",8,False))
R("ReadDouble",f"*value == math.Float64frombits({rd(8)})",8)
# status code
W("WriteStatusCode",le("value",4,False))
R("ReadStatusCode",f"*value == {rd(4)}",4)
# GUID
order=[3,2,1,0,5,4,7,6]+list(range(8,16))
W("WriteGUID",[f"value[{i}]" for i in order])
R("ReadGUID"," && ".join(f"(*value)[{o}] == G.rdata[dec.r][old(G.rpos[dec.r])+{i}]" for i,o in enumerate(order)),16)
# strings
for nm in ["String","ByteString","XMLElement"]:
    lb=le("ite(len(value)==0, 4294967295, len(value))",4,False)
    P(f"func (*ua.BinaryEncoder).Write{nm}(enc, value) (err) [C01,C02]")
    P("  requires enc != nil && enc.w != nil && len(value) <= 2147483647")
    P(f"  ensures size: err == nil ==> G.wpos[enc.w] == old(G.wpos[enc.w]) + 4 + len(value)")
    P("  ensures length: err == nil ==> let(p, old(G.wpos[enc.w]), "+" && ".join(f"G.wdata[enc.w][p+{i}] == {b}" for i,b in enumerate(lb))+")")
    P("  ensures content: err == nil ==> let(p, old(G.wpos[enc.w]), forall(j, p+4, p+4+len(value), G.wdata[enc.w][j] == sbyte(value, j-(p+4))))")
    P("  ensures prefix: err == nil ==> let(p, old(G.wpos[enc.w]), forall(j, 0, p, G.wdata[enc.w][j] == old(G.wdata[enc.w])[j]))")
    P("  ensures total: err != nil ==> G.wfail[enc.w]\n  modifies enc.bs, G.wpos[enc.w], G.wdata[enc.w], G.wfail[enc.w]\n  safe\n")
    P(f"func (*ua.BinaryDecoder).Read{nm}(dec, value) (err) [C01,C02]")
    P("  requires dec != nil && dec.r != nil && value != nil")
    u=rd(4)
    P(f"  ensures null: err == nil && ({u}) >= 2147483648 ==> len(*value) == 0 && G.rpos[dec.r] == old(G.rpos[dec.r]) + 4")
    P(f"  ensures size: err == nil && ({u}) < 2147483648 ==> len(*value) == ({u}) && G.rpos[dec.r] == old(G.rpos[dec.r]) + 4 + len(*value)")
    P(f"  ensures content: err == nil && ({u}) < 2147483648 ==> let(p, old(G.rpos[dec.r])+4, forall(j, 0, len(*value), sbyte(*value, j) == G.rdata[dec.r][p+j]))")
    P(f"  ensures total: err != nil ==> old(G.rpos[dec.r]) + 4 + ite(({u}) < 2147483648, ({u}), 0) > G.rlen[dec.r] || old(G.rpos[dec.r]) + 4 > G.rlen[dec.r]")
    P("  modifies *value, dec.bs, G.rpos[dec.r]\n  safe\n")
# byte arrays (null and empty are distinct)
lb=le("ite(value == nil, 4294967295, len(value))",4,False)
P("func (*ua.BinaryEncoder).WriteByteArray(enc, value) (err) [C01,C02]")
P("  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && base(value) != arrbase(enc.bs)")
P(f"  ensures size: err == nil ==> G.wpos[enc.w] == old(G.wpos[enc.w]) + 4 + len(value)")
P("  ensures length: err == nil ==> let(p, old(G.wpos[enc.w]), "+" && ".join(f"G.wdata[enc.w][p+{i}] == {b}" for i,b in enumerate(lb))+")")
P("  ensures content: err == nil ==> let(p, old(G.wpos[enc.w]), forall(j, p+4, p+4+len(value), G.wdata[enc.w][j] == value[j-(p+4)]))")
P("  ensures prefix: err == nil ==> let(p, old(G.wpos[enc.w]), forall(j, 0, p, G.wdata[enc.w][j] == old(G.wdata[enc.w])[j]))")
P("  ensures total: err != nil ==> G.wfail[enc.w]\n  modifies enc.bs, G.wpos[enc.w], G.wdata[enc.w], G.wfail[enc.w]\n  safe\n")
u=rd(4)
P("func (*ua.BinaryDecoder).ReadByteArray(dec, value) (err) [C01,C02]")
P("  requires dec != nil && dec.r != nil && value != nil")
P(f"  ensures null: err == nil && ({u}) >= 2147483648 ==> *value == nil && G.rpos[dec.r] == old(G.rpos[dec.r]) + 4")
P(f"  ensures size: err == nil && ({u}) < 2147483648 ==> *value != nil && len(*value) == ({u}) && G.rpos[dec.r] == old(G.rpos[dec.r]) + 4 + len(*value)")
P(f"  ensures content: err == nil && ({u}) < 2147483648 ==> let(p, old(G.rpos[dec.r])+4, forall(j, 0, len(*value), (*value)[j] == G.rdata[dec.r][p+j]))")
P(f"  ensures total: err != nil ==> old(G.rpos[dec.r]) + 4 + ite(({u}) < 2147483648, ({u}), 0) > G.rlen[dec.r] || old(G.rpos[dec.r]) + 4 > G.rlen[dec.r]")
P("  modifies *value, dec.bs, G.rpos[dec.r]\n  safe\n")
# DateTime: ticks
P("""
define ticksOf(t) = div(t + 11644473600000000000, 100)
define clampTicks(k) = ite(k < 0, 0, ite(k >= 2650467743990000000, 9223372036854775807, k))
define unclamp(k) = ite(k == 9223372036854775807, 2650467743990000000, ite(k < 0, 0, k))
""")
P("func (*ua.BinaryEncoder).WriteDateTime(enc, value) (err) [C01,C02]")
P("  requires enc != nil && enc.w != nil")
P("  ensures bytes: err == nil ==> G.wpos[enc.w] == old(G.wpos[enc.w]) + 8 && let(k, clampTicks(ticksOf(value)), G.wdata[enc.w] == "+wrow(le("k",8,False))+")")
P("  ensures total: err != nil ==> G.wfail[enc.w]\n  modifies enc.bs, G.wpos[enc.w], G.wdata[enc.w], G.wfail[enc.w]\n  safe\n")
P("func (*ua.BinaryDecoder).ReadDateTime(dec, value) (err) [C01,C02]")
P("  requires dec != nil && dec.r != nil && value != nil")
P(f"  ensures value: err == nil ==> let(u, {rd(8)}, *value == 100*unclamp(ite(u >= {1<<63}, u - {1<<64}, u)) - 11644473600000000000)")
P("  ensures consumed: err == nil ==> G.rpos[dec.r] == old(G.rpos[dec.r]) + 8")
P("  ensures total: err != nil ==> old(G.rpos[dec.r]) + 8 > G.rlen[dec.r]")
P("  modifies *value, dec.bs, G.rpos[dec.r]\n  safe\n")
# lemmas
P("""
func ua.verifStart(enc, dec)
  modifies G.rpos[dec.r]
  ensures G.rpos[dec.r] == G.wpos[enc.w]
  trusted

func ua.verifLink(enc, dec) trusted
""".replace(" trusted","")+"""  modifies G.rdata[dec.r], G.rlen[dec.r]
  ensures G.rdata[dec.r] == G.wdata[enc.w] && G.rlen[dec.r] == G.wpos[enc.w]
  trusted
define streq(a, b) = len(a) == len(b) && forall(j, 0, len(a), sbyte(a, j) == sbyte(b, j))
""")
go=["package ua","",'import ("time"; "github.com/google/uuid")',"","// verifLink is the ghost statement that the reader sees what the writer wrote.","func verifStart(enc *BinaryEncoder, dec *BinaryDecoder) {}","func verifLink(enc *BinaryEncoder, dec *BinaryDecoder) {}",""]
def L(nm,typ,post,req=None):
    P(f"func ua.verifRT_{nm}(enc, dec, v) (out, ok) [C01,C02]")
    P("  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wpos[enc.w] >= 0 && G.wpos[enc.w] < 1000000000000")
    if req: P("  requires "+req)
    P(f"  ensures roundtrip: ok ==> {post}")
    P("  ensures consumed: ok ==> G.rpos[dec.r] == G.wpos[enc.w]")
    P("  ensures total: !ok ==> G.wfail[enc.w]")
    P("  noframe\n")
    go.append(f"""func verifRT_{nm}(enc *BinaryEncoder, dec *BinaryDecoder, v {typ}) (out {typ}, ok bool) {{
	verifStart(enc, dec)
	if err := enc.Write{nm}(v); err != nil {{
		return out, false
	}}
	verifLink(enc, dec)
	if err := dec.Read{nm}(&out); err != nil {{
		return out, false
	}}
	return out, true
}}
""")
for nm,typ in [("Boolean","bool"),("SByte","int8"),("Byte","byte"),("Int16","int16"),("UInt16","uint16"),("Int32","int32"),("UInt32","uint32"),("Int64","int64"),("UInt64","uint64"),("Float","float32"),("Double","float64"),("StatusCode","StatusCode"),("GUID","uuid.UUID")]:
    L(nm,typ,"out == v")
for nm,typ in [("String","string"),("ByteString","ByteString"),("XMLElement","XMLElement")]:
    L(nm,typ,"streq(out, v)","len(v) <= 2147483647")
L("ByteArray","[]byte","(out == nil) == (v == nil) && len(out) == len(v) && forall(j, 0, len(v), out[j] == v[j])","len(v) <= 2147483647 && base(v) != arrbase(enc.bs) && base(v) != arrbase(dec.bs)")
L("DateTime","time.Time","out == ite(v < -11644473600000000000, -11644473600000000000, ite(v >= 253402300799000000000, 253402300799000000000, v - mod(v, 100)))")
open("C01.spec","w").write("\n".join(out)+"\n")
open("lemmas/ua_scalar.go","w").write("\n".join(go))
