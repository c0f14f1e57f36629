package ua

import ("time"; "github.com/google/uuid")

var _ time.Time
var _ uuid.UUID

func verifStart2(enc *BinaryEncoder, dec *BinaryDecoder) {}
func verifLink2(enc *BinaryEncoder, dec *BinaryDecoder) {}

func verifRT2_NodeID(enc *BinaryEncoder, dec *BinaryDecoder, v NodeID) (out NodeID, ok bool) {
	verifStart2(enc, dec)
	if err := enc.WriteNodeID(v); err != nil {
		return out, false
	}
	verifLink2(enc, dec)
	if err := dec.ReadNodeID(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT2_ExpandedNodeID(enc *BinaryEncoder, dec *BinaryDecoder, v ExpandedNodeID) (out ExpandedNodeID, ok bool) {
	verifStart2(enc, dec)
	if err := enc.WriteExpandedNodeID(v); err != nil {
		return out, false
	}
	verifLink2(enc, dec)
	if err := dec.ReadExpandedNodeID(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT2_QualifiedName(enc *BinaryEncoder, dec *BinaryDecoder, v QualifiedName) (out QualifiedName, ok bool) {
	verifStart2(enc, dec)
	if err := enc.WriteQualifiedName(v); err != nil {
		return out, false
	}
	verifLink2(enc, dec)
	if err := dec.ReadQualifiedName(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT2_LocalizedText(enc *BinaryEncoder, dec *BinaryDecoder, v LocalizedText) (out LocalizedText, ok bool) {
	verifStart2(enc, dec)
	if err := enc.WriteLocalizedText(v); err != nil {
		return out, false
	}
	verifLink2(enc, dec)
	if err := dec.ReadLocalizedText(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT2_DataValue(enc *BinaryEncoder, dec *BinaryDecoder, v DataValue) (out DataValue, ok bool) {
	verifStart2(enc, dec)
	if err := enc.WriteDataValue(v); err != nil {
		return out, false
	}
	verifLink2(enc, dec)
	if err := dec.ReadDataValue(&out); err != nil {
		return out, false
	}
	return out, true
}

func verifRT2_DiagnosticInfo(enc *BinaryEncoder, dec *BinaryDecoder, v DiagnosticInfo) (out DiagnosticInfo, ok bool) {
	verifStart2(enc, dec)
	if err := enc.WriteDiagnosticInfo(v); err != nil {
		return out, false
	}
	verifLink2(enc, dec)
	if err := dec.ReadDiagnosticInfo(&out); err != nil {
		return out, false
	}
	return out, true
}
