import sys; sys.path.insert(0,"/verif/tools")
from mkseed import make
make("c04-guid-emptytable","C04",[["ua/nodeid.go","""		if n2.NamespaceIndex > 0 && n2.NamespaceIndex < uint16(len(namespaceURIs)) {
			return ExpandedNodeID{0, namespaceURIs[n2.NamespaceIndex], NodeIDGUID{ID: n2.ID}}""","""		if n2.NamespaceIndex > 0 && n2.NamespaceIndex <= uint16(len(namespaceURIs)-1) {
			return ExpandedNodeID{0, namespaceURIs[n2.NamespaceIndex], NodeIDGUID{ID: n2.ID}}"""]],
 "a Guid node id with a non-zero namespace index and an empty namespace table","the translation reads outside the table and panics","ua",'''package ua
import ("testing";"github.com/google/uuid")
func TestDemo(t *testing.T) {
	n := NodeIDGUID{3, uuid.UUID{1}}
	e := ToExpandedNodeID(n, nil)
	if e.NodeID != NodeID(n) || e.NamespaceURI != "" { t.Fatal(e) }
}
''')
make("c04-prefix-match","C04",[["ua/expanded_nodeid.go","""		if uri == n.NamespaceURI {
			ns = uint16(i)
			flag = true
			break
		}""","""		if strings.TrimSuffix(uri, "/") == strings.TrimSuffix(n.NamespaceURI, "/") {
			ns = uint16(i)
			flag = true
			break
		}"""],["ua/expanded_nodeid.go","import (","import (\n\t\"strings\""]],
 "two namespace URIs that differ only by a trailing slash","node ids of the second namespace come back in the first, and an unregistered URI yields a valid node id","ua",'''package ua
import "testing"
func TestDemo(t *testing.T) {
	uris := []string{"http://opcfoundation.org/UA/", "urn:a", "urn:a/"}
	n := NodeIDNumeric{2, 7}
	if r := ToNodeID(ToExpandedNodeID(n, uris), uris); r != NodeID(n) { t.Fatal(r) }
}
''')
