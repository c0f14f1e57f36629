# No-panic contracts of the decoder. Generated by gen_c03.py.
package ua
pure reflect.*

func invoke ua.EncodingContext.NamespaceURIs(ec) (uris)
  ensures len(uris) >= 0
  trusted

# the registered-structure decoder (reflection and unsafe pointers): assumed not to panic, writes only the new object
func (*ua.BinaryDecoder).Decode(dec, v) (err)
  modifies dec.bs
  trusted

func ua.FindTypeForBinaryEncodingID(id) (typ, ok)
  ensures ok ==> typ != nil
  trusted

func (*ua.BinaryDecoder).ReadBoolean(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadSByte(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadByte(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadInt16(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadUInt16(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadInt32(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadUInt32(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadInt64(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadUInt64(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadFloat(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadDouble(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadString(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadDateTime(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadGUID(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadByteString(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadXMLElement(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadNodeID(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadExpandedNodeID(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadStatusCode(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadQualifiedName(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadLocalizedText(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadExtensionObject(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadDataValue(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadVariant(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  invtimeout 400
  invariant len($t) == 2 && len($c) == ($t[0] - $k) * $t[1]
  invariant len($t) == 3 && len($c) == ($t[0] - $k) * $t[1] * $t[2]
  safe

func (*ua.BinaryDecoder).ReadDiagnosticInfo(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadBooleanArray(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadSByteArray(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadByteArray(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadInt16Array(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadUInt16Array(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadInt32Array(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadUInt32Array(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadInt64Array(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadUInt64Array(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadFloatArray(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadDoubleArray(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadStringArray(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadDateTimeArray(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadGUIDArray(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadByteStringArray(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadXMLElementArray(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadNodeIDArray(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadExpandedNodeIDArray(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadStatusCodeArray(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadQualifiedNameArray(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadLocalizedTextArray(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadExtensionObjectArray(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadDataValueArray(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadVariantArray(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).ReadDiagnosticInfoArray(dec, value) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && value != nil
  ensures len: err == nil ==> len(*value) >= 0 && len(*value) <= 2147483647
  modifies *value, dec.bs
  safe

func (*ua.BinaryDecoder).readArrayDimensions(dec, dims, n) (err) [C03]
  requires dec != nil && dec.r != nil && dec.ec != nil && dims != nil && n >= 0 && n <= 2147483647
  modifies *dims, dec.bs
  ensures two: err == nil && len(*dims) == 2 ==> (*dims)[0] >= 0 && (*dims)[1] >= 0 && (*dims)[0]*(*dims)[1] == n
  ensures three: err == nil && len(*dims) == 3 ==> (*dims)[0] >= 0 && (*dims)[1] >= 0 && (*dims)[2] >= 0 && (*dims)[0]*(*dims)[1]*(*dims)[2] == n
  invariant $k == 0 ==> $i == 1
  invariant $k == 1 ==> $i == (*dims)[0]
  invariant $k == 2 ==> $i == (*dims)[0]*(*dims)[1]
  invariant $k == 3 ==> $i == (*dims)[0]*(*dims)[1]*(*dims)[2]
  invariant $i >= 0 && ($k >= 1 ==> $i <= n)
  invariant forall(j, 0, $k, (*dims)[j] >= 0)
  safe

