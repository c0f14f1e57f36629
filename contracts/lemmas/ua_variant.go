package ua

import ("time"; "github.com/google/uuid")

var _ time.Time
var _ uuid.UUID

func verifStart4(enc *BinaryEncoder, dec *BinaryDecoder) {}
func verifLink4(enc *BinaryEncoder, dec *BinaryDecoder) {}

func verifRT4_Boolean(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_SByte(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_Byte(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_Int16(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_UInt16(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_Int32(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_UInt32(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_Int64(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_UInt64(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_Float(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_Double(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_String(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_DateTime(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_GUID(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_ByteString(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_XMLElement(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_ExpandedNodeID(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_StatusCode(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_QualifiedName(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_LocalizedText(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_DataValue(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_NodeIDNumeric(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_NodeIDString(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_NodeIDGUID(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_NodeIDOpaque(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_Null(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_BooleanArray(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_SByteArray(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_ByteArray(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_Int16Array(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_UInt16Array(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_Int32Array(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_UInt32Array(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_Int64Array(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_UInt64Array(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_FloatArray(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_DoubleArray(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_StringArray(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_DateTimeArray(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_GUIDArray(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_ByteStringArray(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_XMLElementArray(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_NodeIDArray(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_ExpandedNodeIDArray(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_StatusCodeArray(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_QualifiedNameArray(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_LocalizedTextArray(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_ExtensionObjectArray(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_DataValueArray(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT4_VariantArray(enc *BinaryEncoder, dec *BinaryDecoder, v Variant) (out Variant, ok bool) {
	verifStart4(enc, dec)
	if err := enc.WriteVariant(v); err != nil {
		return out, false
	}
	verifLink4(enc, dec)
	if err := dec.ReadVariant(&out); err != nil {
		return out, false
	}
	return out, true
}
