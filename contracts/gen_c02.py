#!/usr/bin/env python3
# Cell-level contracts of the codec. A stream is a sequence of cells: integers up to 32 bits are
# little-endian byte cells (kind 0); every other scalar is one cell holding the boxed value.
# The contracts of the scalar primitives at this level abstract the byte-level contracts of C01.
T={"Boolean":"bool","SByte":"int8","Byte":"byte","Int16":"int16","UInt16":"uint16","Int32":"int32","UInt32":"uint32","Int64":"int64","UInt64":"uint64","Float":"float32","Double":"float64","String":"string","DateTime":"time.Time","GUID":"uuid.UUID","ByteString":"ua.ByteString","XMLElement":"ua.XMLElement","NodeID":"ua.NodeID","ExpandedNodeID":"ua.ExpandedNodeID","StatusCode":"ua.StatusCode","QualifiedName":"ua.QualifiedName","LocalizedText":"ua.LocalizedText","ExtensionObject":"ua.ExtensionObject","DataValue":"ua.DataValue","Variant":"ua.Variant","DiagnosticInfo":"ua.DiagnosticInfo"}
GT={k:v.replace("ua.","") for k,v in T.items()}
KIND={"Boolean":31,"Int64":8,"UInt64":9,"Float":10,"Double":11,"String":12,"ByteString":12,"XMLElement":12,"DateTime":13,"GUID":14,"NodeID":15,"ExpandedNodeID":16,"QualifiedName":17,"LocalizedText":18,"ExtensionObject":19,"DataValue":20,"Variant":21,"DiagnosticInfo":22}
INTS={"SByte":(1,True),"Byte":(1,False),"Int16":(2,True),"UInt16":(2,False),"Int32":(4,True),"UInt32":(4,False),"StatusCode":(4,False)}
HEAD='''package ua
ghost wn int
ghost wk int row
ghost wc int row
ghost wfail bool
ghost rn int
ghost rk int row
ghost rc int row
define dtnorm(v) = ite(v < -11644473600000000000, -11644473600000000000, ite(v >= 253402300799000000000, 253402300799000000000, v - mod(v, 100)))
'''
LINK='''
func ua.verifStart2(enc, dec)
  modifies G.rn[dec.r]
  ensures G.rn[dec.r] == G.wn[enc.w]
  trusted

func ua.verifLink2(enc, dec)
  modifies G.rk[dec.r], G.rc[dec.r]
  ensures G.rk[dec.r] == G.wk[enc.w] && G.rc[dec.r] == G.wc[enc.w]
  trusted
'''
MODW="modifies enc.bs, G.wn[enc.w], G.wk[enc.w], G.wc[enc.w], G.wfail[enc.w]"
MODR="modifies *value, dec.bs, G.rn[dec.r]"
class Gen:
    def __init__(s,head): s.out=[head]
    def P(s,x): s.out.append(x)
    def row(s,r,vals):
        e=f"old(G.{r}[enc.w])"
        for i,v in enumerate(vals): e=f"rowupd({e}, old(G.wn[enc.w])+{i}, {v})"
        return e
    def cells(s,nm):
        if nm in INTS:
            n,sg=INTS[nm]; bits=8*n
            u=f"ite(value < 0, value + {1<<bits}, value)" if sg else "value"
            bs=[f"(div({u}, {1<<(8*i)}) - 256*div({u}, {1<<(8*i+8)}))" if i<n-1 else f"div({u}, {1<<(8*i)})" for i in range(n)]
            return ["0"]*n, bs
        if nm in("String","ByteString","XMLElement"): return ["12"],["boxof(string(value))"]
        return [str(KIND[nm])],["boxof(value)"]
    def tok(s,nm,norm=None,w=True,r=True,inline=False):
        """trusted cell-level contract of a primitive"""
        k,c=s.cells(nm); n=len(k)
        if nm=="Variant" or nm=="NodeID" or nm=="ExtensionObject": k,c,n=[str(KIND[nm])]*2,["tag(value)","payload(value)"],2
        if w:
            s.P(f"func (*ua.BinaryEncoder).Write{nm}(enc, value) (err)")
            s.P(f"  requires enc != nil && enc.w != nil")
            s.P(f"  ensures err == nil ==> G.wn[enc.w] == old(G.wn[enc.w]) + {n} && G.wk[enc.w] == {s.row('wk',k)} && G.wc[enc.w] == {s.row('wc',c)} && G.wfail[enc.w] == old(G.wfail[enc.w])")
            s.P(f"  ensures err != nil ==> G.wfail[enc.w]")
            s.P(f"  {MODW}\n  trusted" + ("\n  inline" if inline else "")+"\n")
        if r:
            m=" && ".join(f"old(G.rk[dec.r])[old(G.rn[dec.r])+{i}] == {k[i]}" for i in range(n))
            cell=lambda i:f"old(G.rc[dec.r])[old(G.rn[dec.r])+{i}]"
            if nm in INTS:
                _,sg=INTS[nm]
                u=" + ".join(f"{1<<(8*i)}*{cell(i)}" for i in range(n))
                v=f"let(u, {u}, *value == ite(u >= {1<<(8*n-1)}, u - {1<<(8*n)}, u))" if sg else f"*value == {u}"
            elif nm in("String","ByteString","XMLElement"): v=f"string(*value) == unboxas(string, {cell(0)})"
            elif nm=="DateTime": v=f"*value == dtnorm(unboxas(time.Time, {cell(0)}))"
            elif n==2 and nm not in INTS: v=f"tag(*value) == {cell(0)} && payload(*value) == {cell(1)}"
            else: v=f"*value == unboxas({T[nm]}, {cell(0)})"
            s.P(f"func (*ua.BinaryDecoder).Read{nm}(dec, value) (err)")
            s.P(f"  requires dec != nil && dec.r != nil && value != nil")
            s.P(f"  ensures {m} ==> err == nil && {v} && G.rn[dec.r] == old(G.rn[dec.r]) + {n}")
            s.P(f"  {MODR}\n  trusted" + ("\n  inline" if inline else "")+"\n")
    def write(s,f): open(f,"w").write("\n".join(s.out)+"\n")
SC=["Boolean","SByte","Byte","Int16","UInt16","Int32","UInt32","Int64","UInt64","Float","Double","String","DateTime","GUID","ByteString","XMLElement"]
go=["package ua","",'import ("time"; "github.com/google/uuid")',"","var _ time.Time","var _ uuid.UUID","","func verifStart2(enc *BinaryEncoder, dec *BinaryDecoder) {}","func verifLink2(enc *BinaryEncoder, dec *BinaryDecoder) {}",""]
def driver(nm,typ):
    go.append(f"""func verifRT2_{nm}(enc *BinaryEncoder, dec *BinaryDecoder, v {typ}) (out {typ}, ok bool) {{
	verifStart2(enc, dec)
	if err := enc.Write{nm}(v); err != nil {{
		return out, false
	}}
	verifLink2(enc, dec)
	if err := dec.Read{nm}(&out); err != nil {{
		return out, false
	}}
	return out, true
}}
""")
REQ="  requires enc != nil && enc.w != nil && dec != nil && dec.r != nil && G.wn[enc.w] >= 0 && !G.wfail[enc.w]"
def lemma(g,nm,post,req=None,pre="verifRT2_",extra=""):
    g.P(f"func ua.{pre}{nm}(enc, dec, v) (out, ok) [C02]")
    g.P(REQ)
    for r in ([req] if isinstance(req,str) else (req or [])): g.P("  requires "+r)
    for lab,p in post: g.P(f"  ensures {lab}: ok ==> {p}")
    g.P("  ensures consumed: ok ==> G.rn[dec.r] == G.wn[enc.w]")
    g.P("  ensures total: !ok ==> G.wfail[enc.w]")
    g.P(extra+"  noframe\n")
# ---------- composites ----------
g=Gen("# Cell-level round trip of the composite built-in types. Generated by gen_c02.py.\n"+HEAD+"lemmas ua lemmas/ua_composite.go\n"+LINK)
for n in SC+["StatusCode"]: g.tok(n)
g.tok("Variant")
g.tok("DiagnosticInfo",inline=True)
g.P('''
define num(v) = is(v, ua.NodeIDNumeric)
define stn(v) = is(v, ua.NodeIDString)
define gun(v) = is(v, ua.NodeIDGUID)
define opq(v) = is(v, ua.NodeIDOpaque)
define gzero(x) = forall(i, 0, 16, x[i] == 0)
define nidOK(v) = v == nil || num(v) || stn(v) || gun(v) || opq(v)
define nidNull(v) = v == nil || num(v) && as(v, ua.NodeIDNumeric).NamespaceIndex == 0 && as(v, ua.NodeIDNumeric).ID == 0 || stn(v) && as(v, ua.NodeIDString).NamespaceIndex == 0 && as(v, ua.NodeIDString).ID == "" || opq(v) && as(v, ua.NodeIDOpaque).NamespaceIndex == 0 && as(v, ua.NodeIDOpaque).ID == "" || gun(v) && as(v, ua.NodeIDGUID).NamespaceIndex == 0 && gzero(as(v, ua.NodeIDGUID).ID)
define nsOf(v) = ite(num(v), as(v, ua.NodeIDNumeric).NamespaceIndex, ite(stn(v), as(v, ua.NodeIDString).NamespaceIndex, ite(gun(v), as(v, ua.NodeIDGUID).NamespaceIndex, as(v, ua.NodeIDOpaque).NamespaceIndex)))
define sameID(a, b) = tag(a) == tag(b) && (num(a) ==> as(a, ua.NodeIDNumeric).ID == as(b, ua.NodeIDNumeric).ID) && (stn(a) ==> as(a, ua.NodeIDString).ID == as(b, ua.NodeIDString).ID) && (gun(a) ==> as(a, ua.NodeIDGUID).ID == as(b, ua.NodeIDGUID).ID) && (opq(a) ==> as(a, ua.NodeIDOpaque).ID == as(b, ua.NodeIDOpaque).ID)
''')
lemma(g,"NodeID",[("null","(nidNull(v) ==> out == nil)"),("value","(!nidNull(v) ==> sameID(out, v) && nsOf(out) == nsOf(v))")],"nidOK(v)")
lemma(g,"ExpandedNodeID",[("server","out.ServerIndex == v.ServerIndex"),("uri","out.NamespaceURI == v.NamespaceURI"),
   ("id","(v.NodeID == nil ==> out.NodeID == nil)"),
   ("id2","(v.NodeID != nil && out.NodeID != nil ==> sameID(out.NodeID, v.NodeID) && nsOf(out.NodeID) == ite(v.NamespaceURI == \"\", nsOf(v.NodeID), 0))"),
   ("id3","(v.NodeID != nil && out.NodeID == nil ==> num(v.NodeID) && as(v.NodeID, ua.NodeIDNumeric).ID == 0 && (v.NamespaceURI != \"\" || nsOf(v.NodeID) == 0))")],"nidOK(v.NodeID)")
lemma(g,"QualifiedName",[("value","out == v")])
lemma(g,"LocalizedText",[("value","out == v")])
lemma(g,"DataValue",[("value","out.Value == v.Value && out.StatusCode == v.StatusCode && out.SourcePicoseconds == v.SourcePicoseconds && out.ServerPicoseconds == v.ServerPicoseconds"),
   ("times","out.SourceTimestamp == ite(v.SourceTimestamp == zero(time.Time), v.SourceTimestamp, dtnorm(v.SourceTimestamp)) && out.ServerTimestamp == ite(v.ServerTimestamp == zero(time.Time), v.ServerTimestamp, dtnorm(v.ServerTimestamp))")])
ptrs=["SymbolicID","NamespaceURI","Locale","LocalizedText","AdditionalInfo","InnerStatusCode","InnerDiagnosticInfo"]
lemma(g,"DiagnosticInfo",[(p,f"(out.{p} == nil) == (v.{p} == nil) && (v.{p} != nil ==> *out.{p} == *v.{p})") for p in ptrs])
for nm in ["NodeID","ExpandedNodeID","QualifiedName","LocalizedText","DataValue","DiagnosticInfo"]: driver(nm,GT[nm])
g.write("C02_composite.spec")
open("lemmas/ua_composite.go","w").write("\n".join(go))
