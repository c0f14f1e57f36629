package ua

import ("time"; "github.com/google/uuid")

// verifLink is the ghost statement that the reader sees what the writer wrote.
func verifStart(enc *BinaryEncoder, dec *BinaryDecoder) {}
func verifLink(enc *BinaryEncoder, dec *BinaryDecoder) {}

func verifRT_Boolean(enc *BinaryEncoder, dec *BinaryDecoder, v bool) (out bool, ok bool) {
	verifStart(enc, dec)
	if err := enc.WriteBoolean(v); err != nil {
		return out, false
	}
	verifLink(enc, dec)
	if err := dec.ReadBoolean(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT_SByte(enc *BinaryEncoder, dec *BinaryDecoder, v int8) (out int8, ok bool) {
	verifStart(enc, dec)
	if err := enc.WriteSByte(v); err != nil {
		return out, false
	}
	verifLink(enc, dec)
	if err := dec.ReadSByte(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT_Byte(enc *BinaryEncoder, dec *BinaryDecoder, v byte) (out byte, ok bool) {
	verifStart(enc, dec)
	if err := enc.WriteByte(v); err != nil {
		return out, false
	}
	verifLink(enc, dec)
	if err := dec.ReadByte(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT_Int16(enc *BinaryEncoder, dec *BinaryDecoder, v int16) (out int16, ok bool) {
	verifStart(enc, dec)
	if err := enc.WriteInt16(v); err != nil {
		return out, false
	}
	verifLink(enc, dec)
	if err := dec.ReadInt16(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT_UInt16(enc *BinaryEncoder, dec *BinaryDecoder, v uint16) (out uint16, ok bool) {
	verifStart(enc, dec)
	if err := enc.WriteUInt16(v); err != nil {
		return out, false
	}
	verifLink(enc, dec)
	if err := dec.ReadUInt16(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT_Int32(enc *BinaryEncoder, dec *BinaryDecoder, v int32) (out int32, ok bool) {
	verifStart(enc, dec)
	if err := enc.WriteInt32(v); err != nil {
		return out, false
	}
	verifLink(enc, dec)
	if err := dec.ReadInt32(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT_UInt32(enc *BinaryEncoder, dec *BinaryDecoder, v uint32) (out uint32, ok bool) {
	verifStart(enc, dec)
	if err := enc.WriteUInt32(v); err != nil {
		return out, false
	}
	verifLink(enc, dec)
	if err := dec.ReadUInt32(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT_Int64(enc *BinaryEncoder, dec *BinaryDecoder, v int64) (out int64, ok bool) {
	verifStart(enc, dec)
	if err := enc.WriteInt64(v); err != nil {
		return out, false
	}
	verifLink(enc, dec)
	if err := dec.ReadInt64(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT_UInt64(enc *BinaryEncoder, dec *BinaryDecoder, v uint64) (out uint64, ok bool) {
	verifStart(enc, dec)
	if err := enc.WriteUInt64(v); err != nil {
		return out, false
	}
	verifLink(enc, dec)
	if err := dec.ReadUInt64(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT_Float(enc *BinaryEncoder, dec *BinaryDecoder, v float32) (out float32, ok bool) {
	verifStart(enc, dec)
	if err := enc.WriteFloat(v); err != nil {
		return out, false
	}
	verifLink(enc, dec)
	if err := dec.ReadFloat(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT_Double(enc *BinaryEncoder, dec *BinaryDecoder, v float64) (out float64, ok bool) {
	verifStart(enc, dec)
	if err := enc.WriteDouble(v); err != nil {
		return out, false
	}
	verifLink(enc, dec)
	if err := dec.ReadDouble(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT_StatusCode(enc *BinaryEncoder, dec *BinaryDecoder, v StatusCode) (out StatusCode, ok bool) {
	verifStart(enc, dec)
	if err := enc.WriteStatusCode(v); err != nil {
		return out, false
	}
	verifLink(enc, dec)
	if err := dec.ReadStatusCode(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT_GUID(enc *BinaryEncoder, dec *BinaryDecoder, v uuid.UUID) (out uuid.UUID, ok bool) {
	verifStart(enc, dec)
	if err := enc.WriteGUID(v); err != nil {
		return out, false
	}
	verifLink(enc, dec)
	if err := dec.ReadGUID(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT_String(enc *BinaryEncoder, dec *BinaryDecoder, v string) (out string, ok bool) {
	verifStart(enc, dec)
	if err := enc.WriteString(v); err != nil {
		return out, false
	}
	verifLink(enc, dec)
	if err := dec.ReadString(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT_ByteString(enc *BinaryEncoder, dec *BinaryDecoder, v ByteString) (out ByteString, ok bool) {
	verifStart(enc, dec)
	if err := enc.WriteByteString(v); err != nil {
		return out, false
	}
	verifLink(enc, dec)
	if err := dec.ReadByteString(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT_XMLElement(enc *BinaryEncoder, dec *BinaryDecoder, v XMLElement) (out XMLElement, ok bool) {
	verifStart(enc, dec)
	if err := enc.WriteXMLElement(v); err != nil {
		return out, false
	}
	verifLink(enc, dec)
	if err := dec.ReadXMLElement(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT_ByteArray(enc *BinaryEncoder, dec *BinaryDecoder, v []byte) (out []byte, ok bool) {
	verifStart(enc, dec)
	if err := enc.WriteByteArray(v); err != nil {
		return out, false
	}
	verifLink(enc, dec)
	if err := dec.ReadByteArray(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT_DateTime(enc *BinaryEncoder, dec *BinaryDecoder, v time.Time) (out time.Time, ok bool) {
	verifStart(enc, dec)
	if err := enc.WriteDateTime(v); err != nil {
		return out, false
	}
	verifLink(enc, dec)
	if err := dec.ReadDateTime(&out); err != nil {
		return out, false
	}
	return out, true
}
