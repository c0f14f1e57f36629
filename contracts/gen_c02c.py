#!/usr/bin/env python3
# Value-level contracts for Variant: the type byte is one cell, the scalar or array it announces is one cell.
# Integers of one width share a kind (only the bytes matter); arrays are opaque values (see C02_array.spec).
from gen_c02b import T, GT, W, IFACE, KIND, wcell, match, val
OUT=["# Round trip of Variant (scalars and one-dimensional arrays). Generated by gen_c02c.py.","package ua","ghost wn int","ghost wk int row","ghost wc int row","ghost wfail bool","ghost rn int","ghost rk int row","ghost rc int row",
"define dtnorm(v) = ite(v < -11644473600000000000, -11644473600000000000, ite(v >= 253402300799000000000, 253402300799000000000, v - mod(v, 100)))",
"lemmas ua lemmas/ua_variant.go","""
func ua.verifStart4(enc, dec)
  modifies G.rn[dec.r]
  ensures G.rn[dec.r] == G.wn[enc.w]
  trusted

func ua.verifLink4(enc, dec)
  modifies G.rk[dec.r], G.rc[dec.r]
  ensures G.rk[dec.r] == G.wk[enc.w] && G.rc[dec.r] == G.wc[enc.w]
  trusted
"""]
P=OUT.append
MODW="  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]"
MODR="  modifies *value, G.rn[dec.r]"
AK={n:200+i for i,n in enumerate(T)}
AK["UInt16"]=AK["Int16"]; AK["UInt32"]=AK["StatusCode"]=AK["Int32"]; AK["UInt64"]=AK["Int64"]; AK["SByte"]=AK["Byte"]; AK["ByteString"]=AK["XMLElement"]=AK["String"]
def prim(name,k,c,m,v):
    P(f"func (*ua.BinaryEncoder).Write{name}(enc, value) (err)")
    P("  requires enc != nil && enc.w != nil")
    P(f"  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), {k}) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), {c}) && G.wfail[enc.w] == old(G.wfail[enc.w])")
    P("  ensures err != nil ==> G.wfail[enc.w]")
    P(MODW+"\n  trusted\n")
    P(f"func (*ua.BinaryDecoder).Read{name}(dec, value) (err)")
    P("  requires dec != nil && dec.r != nil && value != nil")
    P(f"  ensures {m} ==> err == nil && {v} && G.rn[dec.r] == old(G.rn[dec.r]) + 1")
    P(MODR+"\n  trusted\n")
r="old(G.rn[dec.r])"
for nm in T:
    if nm!="Variant":
        k,c=wcell(nm,"value")
        prim(nm,k,c,match(nm,r),val(nm,"*value",r))
    prim(nm+"Array",AK[nm],"boxof(value)",f"old(G.rk[dec.r])[{r}] == {AK[nm]}",f"*value == unboxas([]{T[nm]}, old(G.rc[dec.r])[{r}])")
go=["package ua","",'import ("time"; "github.com/google/uuid")',"","var _ time.Time","var _ uuid.UUID","","func verifStart4(enc *BinaryEncoder, dec *BinaryDecoder) {}","func verifLink4(enc *BinaryEncoder, dec *BinaryDecoder) {}",""]
SC=[n for n in T if n not in("Variant","ExtensionObject","DiagnosticInfo","NodeID")]
def lem(name,req,posts):
    P(f"func ua.verifRT4_{name}(enc, dec, v) (out, ok) [C02]")
    P("  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]")
    P(f"  requires {req}")
    for l,p in posts: P(f"  ensures {l}: ok ==> {p}")
    P("  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]")
    P("  ensures total: !ok ==> G.wfail[enc.w]")
    P("  noframe\n")
    go.append(f"""func verifRT4_{name}(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {{
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {{
		return out, false
	}}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {{
		return out, false
	}}
	return out, true
}}
""")
for nm in SC:
    t=T[nm]
    if nm in("String","ByteString","XMLElement"): eq=f"string(as(out, {t})) == string(as(v, {t}))"
    elif nm=="DateTime": eq=f"as(out, {t}) == dtnorm(as(v, {t}))"
    else: eq=f"as(out, {t}) == as(v, {t})"
    lem(nm,f"is(v, {t})",[("type",f"is(out, {t})"),("value",eq)])
for n in ["Numeric","String","GUID","Opaque"]:
    lem("NodeID"+n,f"is(v, ua.NodeID{n})",[("value","out == v")])
lem("Null","v == nil",[("value","out == nil")])
for nm in T:
    if nm=="DiagnosticInfo": continue
    t="[]"+T[nm]
    lem(nm+"Array",f"is(v, {t})",[("type",f"is(out, {t})"),("value",f"as(out, {t}) == as(v, {t})")])
open("C02_variant.spec","w").write("\n".join(OUT)+"\n")
open("lemmas/ua_variant.go","w").write("\n".join(go))
