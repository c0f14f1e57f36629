#!/usr/bin/env python3
# No-panic contracts of the binary decoder: every Read* method, for every stream. Generated file.
import re,sys
from gen_c02 import T
src=open("/repo/ua/binary_decoder.go").read()
OUT=["# No-panic contracts of the decoder. Generated by gen_c03.py.","package ua","pure reflect.*","""
func invoke ua.EncodingContext.NamespaceURIs(ec) (uris)
  ensures len(uris) >= 0
  trusted

# the registered-structure decoder (reflection and unsafe pointers): assumed not to panic, writes only the new object
func (*ua.BinaryDecoder).Decode(dec, v) (err)
  modifies dec.bs
  trusted

func ua.FindTypeForBinaryEncodingID(id) (typ, ok)
  ensures ok ==> typ != nil
  trusted
"""]
P=OUT.append
names=re.findall(r"func \(dec \*BinaryDecoder\) (Read\w+)\((\w+) ",src)
for n,a in names:
    if n in("ReadNodeID","ReadExpandedNodeID","ReadVariant"): pass
    P(f"func (*ua.BinaryDecoder).{n}(dec, value) (err) [C03]")
    P("  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil")
    if n.endswith("Array"): P("  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647")
    P("  modifies *value, dec.bs")
    if n=="ReadVariant":
        P("  invtimeout 400")
        P("  invariant len($t) == 2 && len($c) == ($t[0] - $k) * $t[1]")
        P("  invariant len($t) == 3 && len($c) == ($t[0] - $k) * $t[1] * $t[2]")
    P("  safe\n")
P("""func (*ua.BinaryDecoder).readArrayDimensions(dec, dims, n) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && dims != nil && n >= 0 && n <= 2147483647
  modifies *dims, dec.bs
  ensures two: err == nil && len(*dims) == 2 ==> (*dims)[0] >= 0 && (*dims)[1] >= 0 && (*dims)[0]*(*dims)[1] == n
  ensures three: err == nil && len(*dims) == 3 ==> (*dims)[0] >= 0 && (*dims)[1] >= 0 && (*dims)[2] >= 0 && (*dims)[0]*(*dims)[1]*(*dims)[2] == n
  invariant $k == 0 ==> $i == 1
  invariant $k == 1 ==> $i == (*dims)[0]
  invariant $k == 2 ==> $i == (*dims)[0]*(*dims)[1]
  invariant $k == 3 ==> $i == (*dims)[0]*(*dims)[1]*(*dims)[2]
  invariant $i >= 0 && ($k >= 1 ==> $i <= n)
  invariant forall(j, 0, $k, (*dims)[j] >= 0)
  safe
""")
open("C03.spec","w").write("\n".join(OUT)+"\n")
