package ua

// verifRT4 translates to URI form and back.
func verifRT4(n NodeID, uris []string) NodeID {
	return ToNodeID(ToExpandedNodeID(n, uris), uris)
}

// verifRT4b translates from URI form and back.
func verifRT4b(e ExpandedNodeID, uris []string) ExpandedNodeID {
	return ToExpandedNodeID(ToNodeID(e, uris), uris)
}
