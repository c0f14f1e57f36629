#!/usr/bin/env python3
# Element-level contracts of the array codecs (every array of a built-in type). One element = one cell;
# integers of the same width share a kind and hold their unsigned bit pattern, so only the bytes matter.
from gen_c02 import T, GT
W={"SByte":(1,True),"Byte":(1,False),"Int16":(2,True),"UInt16":(2,False),"Int32":(4,True),"UInt32":(4,False),"StatusCode":(4,False),"Int64":(8,True),"UInt64":(8,False)}
KIND={"Boolean":31,"Float":10,"Double":11,"String":12,"ByteString":12,"XMLElement":12,"DateTime":13,"GUID":14,"ExpandedNodeID":16,"QualifiedName":17,"LocalizedText":18,"DataValue":20,"DiagnosticInfo":22}
IFACE=["NodeID","Variant","ExtensionObject"]
ALL=[n for n in T if n!="Byte"]
OUT=["# Element-level round trip of arrays. Generated by gen_c02b.py.","package ua","ghost wn int","ghost wk int row","ghost wc int row","ghost wfail bool","ghost rn int","ghost rk int row","ghost rc int row",
"define dtnorm(v) = ite(v < -11644473600000000000, -11644473600000000000, ite(v >= 253402300799000000000, 253402300799000000000, v - mod(v, 100)))",
"lemmas ua lemmas/ua_array.go","""
func ua.verifStart3(enc, dec)
  modifies G.rn[dec.r]
  ensures G.rn[dec.r] == G.wn[enc.w]
  trusted

func ua.verifLink3(enc, dec)
  modifies G.rk[dec.r], G.rc[dec.r]
  ensures G.rk[dec.r] == G.wk[enc.w] && G.rc[dec.r] == G.wc[enc.w]
  trusted
"""]
P=OUT.append
def wcell(nm,v):
    if nm in W:
        n,sg=W[nm]
        return str(n), (f"ite({v} < 0, {v} + {1<<(8*n)}, {v})" if sg else v)
    if nm in("String","ByteString","XMLElement"): return "12",f"boxof(string({v}))"
    if nm in IFACE: return f"(1000+tag({v}))",f"payload({v})"
    return str(KIND[nm]),f"boxof({v})"
def match(nm,i):
    k=f"old(G.rk[dec.r])[{i}]"; c=f"old(G.rc[dec.r])[{i}]"
    if nm in W: return f"{k} == {W[nm][0]}"
    if nm in IFACE: return f"{k} >= 1000"
    return f"{k} == {12 if nm in('ByteString','XMLElement') else KIND[nm]}"
def val(nm,v,i):
    k=f"old(G.rk[dec.r])[{i}]"; c=f"old(G.rc[dec.r])[{i}]"
    if nm in W:
        n,sg=W[nm]
        return f"{v} == ite({c} >= {1<<(8*n-1)}, {c} - {1<<(8*n)}, {c})" if sg else f"{v} == {c}"
    if nm in("String","ByteString","XMLElement"): return f"string({v}) == unboxas(string, {c})"
    if nm=="DateTime": return f"{v} == dtnorm(unboxas(time.Time, {c}))"
    if nm in IFACE: return f"tag({v}) == {k} - 1000 && payload({v}) == {c}"
    return f"{v} == unboxas({T[nm]}, {c})"
def eqv(nm,a,b):
    if nm in("String","ByteString","XMLElement"): return f"string({a}) == string({b})"
    if nm=="DateTime": return f"{a} == dtnorm({b})"
    if nm=="GUID": return f"boxof({a}) == boxof({b})"
    return f"{a} == {b}"
MODW="  modifies G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]"
MODR="  modifies *value, G.rn[dec.r]"
for nm in T:
    k,c=wcell(nm,"value")
    P(f"func (*ua.BinaryEncoder).Write{nm}(enc, value) (err)")
    P("  requires enc != nil && enc.w != nil")
    P(f"  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + 1 && G.wk[enc.w] == rowupd(old(G.wk[enc.w]), old(G.wn[enc.w]), {k}) && G.wc[enc.w] == rowupd(old(G.wc[enc.w]), old(G.wn[enc.w]), {c}) && G.wfail[enc.w] == old(G.wfail[enc.w])")
    P("  ensures err != nil ==> G.wfail[enc.w]")
    P(MODW+"\n  trusted\n")
    P(f"func (*ua.BinaryDecoder).Read{nm}(dec, value) (err)")
    P("  requires dec != nil && dec.r != nil && value != nil")
    P(f"  ensures {match(nm,'old(G.rn[dec.r])')} ==> err == nil && {val(nm,'*value','old(G.rn[dec.r])')} && G.rn[dec.r] == old(G.rn[dec.r]) + 1")
    P(MODR+"\n  trusted\n")
P("define N() = old(G.wn[enc.w])")
P("define R() = old(G.rn[dec.r])")
go=["package ua","",'import ("time"; "github.com/google/uuid")',"","var _ time.Time","var _ uuid.UUID","","func verifStart3(enc *BinaryEncoder, dec *BinaryDecoder) {}","func verifLink3(enc *BinaryEncoder, dec *BinaryDecoder) {}",""]
for nm in ALL:
    k,c=wcell(nm,"value[j]")
    o="old(G.wn[enc.w])"
    wf=f"forall(j, 0, {{}}, G.wk[enc.w][{o}+1+j] == {k} && G.wc[enc.w][{o}+1+j] == {c})"
    pre=f"forall(j, 0, {o}, G.wk[enc.w][j] == old(G.wk[enc.w])[j] && G.wc[enc.w][j] == old(G.wc[enc.w])[j])"
    P(f"func (*ua.BinaryEncoder).Write{nm}Array(enc, value) (err) [C02]")
    P("  requires enc != nil && enc.w != nil && len(value) <= 2147483647 && G.wn[enc.w] >= 0")
    P(f"  ensures null: err == nil && value == nil ==> G.wn[enc.w] == {o} + 1 && G.wk[enc.w][{o}] == 4 && G.wc[enc.w][{o}] == 4294967295")
    P(f"  ensures size: err == nil && value != nil ==> G.wn[enc.w] == {o} + 1 + len(value) && G.wk[enc.w][{o}] == 4 && G.wc[enc.w][{o}] == len(value)")
    P(f"  ensures elems: err == nil && value != nil ==> {wf.format('len(value)')}")
    P(f"  ensures prefix: err == nil ==> {pre}")
    P(f"  ensures total: err != nil ==> G.wfail[enc.w]")
    P(f"  ensures nofail: err == nil ==> G.wfail[enc.w] == old(G.wfail[enc.w])")
    P(f"  invariant G.wn[enc.w] == {o} + 1 + $i && $i >= 0 && $i <= len(value)")
    P(f"  invariant {wf.format('$i')}")
    P(f"  invariant G.wk[enc.w][{o}] == 4 && G.wc[enc.w][{o}] == len(value)")
    P(f"  invariant {pre}")
    P(f"  invariant G.wfail[enc.w] == old(G.wfail[enc.w])")
    P(MODW+"\n")
    r="old(G.rn[dec.r])"; n=f"old(G.rc[dec.r])[{r}]"
    full=f"forall(j, 0, {n}, {match(nm,r+'+1+j')})"
    P(f"func (*ua.BinaryDecoder).Read{nm}Array(dec, value) (err) [C02]")
    P("  requires dec != nil && dec.r != nil && value != nil && G.rn[dec.r] >= 0")
    P(f"  ensures null: old(G.rk[dec.r])[{r}] == 4 && {n} >= 2147483648 && {n} < 4294967296 ==> err == nil && *value == nil && G.rn[dec.r] == {r} + 1")
    P(f"  ensures full: old(G.rk[dec.r])[{r}] == 4 && {n} >= 0 && {n} < 2147483648 && {full} ==> err == nil && *value != nil && len(*value) == {n} && G.rn[dec.r] == {r} + 1 + {n} && forall(j, 0, {n}, {val(nm,'(*value)[j]',r+'+1+j')})")
    P(f"  invariant old(G.rk[dec.r])[{r}] == 4 && {full} ==> G.rn[dec.r] == {r} + 1 + $i && $i >= 0 && $i <= {n}")
    P(f"  invariant old(G.rk[dec.r])[{r}] == 4 && {full} ==> forall(j, 0, $i, {val(nm,'$s[j]',r+'+1+j')})")
    P(MODR+"\n")
    P(f"func ua.verifRT3_{nm}(enc, dec, v) (out, ok) [C02]")
    P("  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w] && len(v) <= 2147483647")
    P(f"  ensures nilness: ok ==> (out == nil) == (v == nil)")
    P(f"  ensures length: ok ==> len(out) == len(v)")
    P(f"  ensures elements: ok ==> forall(j, 0, len(v), {eqv(nm,'out[j]','v[j]')})")
    P("  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]")
    P("  ensures total: !ok ==> G.wfail[enc.w]")
    P("  noframe\n")
    t=GT[nm]
    go.append(f"""func verifRT3_{nm}(enc *BinaryEncoder, dec *BinaryDecoder, v []{t}) (out []{t}, ok bool) {{
	verifStart3(enc, dec)
	if err := enc.Write{nm}Array(v); err != nil {{
		return out, false
	}}
	verifLink3(enc, dec)
	if err := dec.Read{nm}Array(&out); err != nil {{
		return out, false
	}}
	return out, true
}}
""")
open("C02_array.spec","w").write("\n".join(OUT)+"\n")
open("lemmas/ua_array.go","w").write("\n".join(go))
