package ua

import ("time"; "github.com/google/uuid")

var _ time.Time
var _ uuid.UUID

func verifStart3(enc *BinaryEncoder, dec *BinaryDecoder) {}
func verifLink3(enc *BinaryEncoder, dec *BinaryDecoder) {}

func verifRT3_Boolean(enc *BinaryEncoder, dec *BinaryDecoder, v []bool) (out []bool, ok bool) {
	verifStart3(enc, dec)
	if err := enc.WriteBooleanArray(v); err != nil {
		return out, false
	}
	verifLink3(enc, dec)
	if err := dec.ReadBooleanArray(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT3_SByte(enc *BinaryEncoder, dec *BinaryDecoder, v []int8) (out []int8, ok bool) {
	verifStart3(enc, dec)
	if err := enc.WriteSByteArray(v); err != nil {
		return out, false
	}
	verifLink3(enc, dec)
	if err := dec.ReadSByteArray(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT3_Int16(enc *BinaryEncoder, dec *BinaryDecoder, v []int16) (out []int16, ok bool) {
	verifStart3(enc, dec)
	if err := enc.WriteInt16Array(v); err != nil {
		return out, false
	}
	verifLink3(enc, dec)
	if err := dec.ReadInt16Array(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT3_UInt16(enc *BinaryEncoder, dec *BinaryDecoder, v []uint16) (out []uint16, ok bool) {
	verifStart3(enc, dec)
	if err := enc.WriteUInt16Array(v); err != nil {
		return out, false
	}
	verifLink3(enc, dec)
	if err := dec.ReadUInt16Array(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT3_Int32(enc *BinaryEncoder, dec *BinaryDecoder, v []int32) (out []int32, ok bool) {
	verifStart3(enc, dec)
	if err := enc.WriteInt32Array(v); err != nil {
		return out, false
	}
	verifLink3(enc, dec)
	if err := dec.ReadInt32Array(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT3_UInt32(enc *BinaryEncoder, dec *BinaryDecoder, v []uint32) (out []uint32, ok bool) {
	verifStart3(enc, dec)
	if err := enc.WriteUInt32Array(v); err != nil {
		return out, false
	}
	verifLink3(enc, dec)
	if err := dec.ReadUInt32Array(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT3_Int64(enc *BinaryEncoder, dec *BinaryDecoder, v []int64) (out []int64, ok bool) {
	verifStart3(enc, dec)
	if err := enc.WriteInt64Array(v); err != nil {
		return out, false
	}
	verifLink3(enc, dec)
	if err := dec.ReadInt64Array(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT3_UInt64(enc *BinaryEncoder, dec *BinaryDecoder, v []uint64) (out []uint64, ok bool) {
	verifStart3(enc, dec)
	if err := enc.WriteUInt64Array(v); err != nil {
		return out, false
	}
	verifLink3(enc, dec)
	if err := dec.ReadUInt64Array(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT3_Float(enc *BinaryEncoder, dec *BinaryDecoder, v []float32) (out []float32, ok bool) {
	verifStart3(enc, dec)
	if err := enc.WriteFloatArray(v); err != nil {
		return out, false
	}
	verifLink3(enc, dec)
	if err := dec.ReadFloatArray(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT3_Double(enc *BinaryEncoder, dec *BinaryDecoder, v []float64) (out []float64, ok bool) {
	verifStart3(enc, dec)
	if err := enc.WriteDoubleArray(v); err != nil {
		return out, false
	}
	verifLink3(enc, dec)
	if err := dec.ReadDoubleArray(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT3_String(enc *BinaryEncoder, dec *BinaryDecoder, v []string) (out []string, ok bool) {
	verifStart3(enc, dec)
	if err := enc.WriteStringArray(v); err != nil {
		return out, false
	}
	verifLink3(enc, dec)
	if err := dec.ReadStringArray(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT3_DateTime(enc *BinaryEncoder, dec *BinaryDecoder, v []time.Time) (out []time.Time, ok bool) {
	verifStart3(enc, dec)
	if err := enc.WriteDateTimeArray(v); err != nil {
		return out, false
	}
	verifLink3(enc, dec)
	if err := dec.ReadDateTimeArray(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT3_GUID(enc *BinaryEncoder, dec *BinaryDecoder, v []uuid.UUID) (out []uuid.UUID, ok bool) {
	verifStart3(enc, dec)
	if err := enc.WriteGUIDArray(v); err != nil {
		return out, false
	}
	verifLink3(enc, dec)
	if err := dec.ReadGUIDArray(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT3_ByteString(enc *BinaryEncoder, dec *BinaryDecoder, v []ByteString) (out []ByteString, ok bool) {
	verifStart3(enc, dec)
	if err := enc.WriteByteStringArray(v); err != nil {
		return out, false
	}
	verifLink3(enc, dec)
	if err := dec.ReadByteStringArray(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT3_XMLElement(enc *BinaryEncoder, dec *BinaryDecoder, v []XMLElement) (out []XMLElement, ok bool) {
	verifStart3(enc, dec)
	if err := enc.WriteXMLElementArray(v); err != nil {
		return out, false
	}
	verifLink3(enc, dec)
	if err := dec.ReadXMLElementArray(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT3_NodeID(enc *BinaryEncoder, dec *BinaryDecoder, v []NodeID) (out []NodeID, ok bool) {
	verifStart3(enc, dec)
	if err := enc.WriteNodeIDArray(v); err != nil {
		return out, false
	}
	verifLink3(enc, dec)
	if err := dec.ReadNodeIDArray(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT3_ExpandedNodeID(enc *BinaryEncoder, dec *BinaryDecoder, v []ExpandedNodeID) (out []ExpandedNodeID, ok bool) {
	verifStart3(enc, dec)
	if err := enc.WriteExpandedNodeIDArray(v); err != nil {
		return out, false
	}
	verifLink3(enc, dec)
	if err := dec.ReadExpandedNodeIDArray(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT3_StatusCode(enc *BinaryEncoder, dec *BinaryDecoder, v []StatusCode) (out []StatusCode, ok bool) {
	verifStart3(enc, dec)
	if err := enc.WriteStatusCodeArray(v); err != nil {
		return out, false
	}
	verifLink3(enc, dec)
	if err := dec.ReadStatusCodeArray(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT3_QualifiedName(enc *BinaryEncoder, dec *BinaryDecoder, v []QualifiedName) (out []QualifiedName, ok bool) {
	verifStart3(enc, dec)
	if err := enc.WriteQualifiedNameArray(v); err != nil {
		return out, false
	}
	verifLink3(enc, dec)
	if err := dec.ReadQualifiedNameArray(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT3_LocalizedText(enc *BinaryEncoder, dec *BinaryDecoder, v []LocalizedText) (out []LocalizedText, ok bool) {
	verifStart3(enc, dec)
	if err := enc.WriteLocalizedTextArray(v); err != nil {
		return out, false
	}
	verifLink3(enc, dec)
	if err := dec.ReadLocalizedTextArray(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT3_ExtensionObject(enc *BinaryEncoder, dec *BinaryDecoder, v []ExtensionObject) (out []ExtensionObject, ok bool) {
	verifStart3(enc, dec)
	if err := enc.WriteExtensionObjectArray(v); err != nil {
		return out, false
	}
	verifLink3(enc, dec)
	if err := dec.ReadExtensionObjectArray(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT3_DataValue(enc *BinaryEncoder, dec *BinaryDecoder, v []DataValue) (out []DataValue, ok bool) {
	verifStart3(enc, dec)
	if err := enc.WriteDataValueArray(v); err != nil {
		return out, false
	}
	verifLink3(enc, dec)
	if err := dec.ReadDataValueArray(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT3_Variant(enc *BinaryEncoder, dec *BinaryDecoder, v []Variant) (out []Variant, ok bool) {
	verifStart3(enc, dec)
	if err := enc.WriteVariantArray(v); err != nil {
		return out, false
	}
	verifLink3(enc, dec)
	if err := dec.ReadVariantArray(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT3_DiagnosticInfo(enc *BinaryEncoder, dec *BinaryDecoder, v []DiagnosticInfo) (out []DiagnosticInfo, ok bool) {
	verifStart3(enc, dec)
	if err := enc.WriteDiagnosticInfoArray(v); err != nil {
		return out, false
	}
	verifLink3(enc, dec)
	if err := dec.ReadDiagnosticInfoArray(&out); err != nil {
		return out, false
	}
	return out, true
}
