# NodeID <-> ExpandedNodeID translation
package ua
lemmas ua lemmas/ua_nodeid.go
define isid(n) = is(n, NodeIDNumeric) || is(n, NodeIDString) || is(n, NodeIDGUID) || is(n, NodeIDOpaque)
define nsof(n) = ite(is(n, NodeIDNumeric), as(n, NodeIDNumeric).NamespaceIndex, ite(is(n, NodeIDString), as(n, NodeIDString).NamespaceIndex, ite(is(n, NodeIDGUID), as(n, NodeIDGUID).NamespaceIndex, as(n, NodeIDOpaque).NamespaceIndex)))
define sameid(a, b) = (is(a, NodeIDNumeric) ==> is(b, NodeIDNumeric) && as(a, NodeIDNumeric).ID == as(b, NodeIDNumeric).ID) && (is(a, NodeIDString) ==> is(b, NodeIDString) && as(a, NodeIDString).ID == as(b, NodeIDString).ID) && (is(a, NodeIDGUID) ==> is(b, NodeIDGUID) && boxof(as(a, NodeIDGUID).ID) == boxof(as(b, NodeIDGUID).ID)) && (is(a, NodeIDOpaque) ==> is(b, NodeIDOpaque) && string(as(a, NodeIDOpaque).ID) == string(as(b, NodeIDOpaque).ID))
define table(uris) = forall(i, 0, len(uris), uris[i] != "") && forall(i, 0, len(uris), forall(j, 0, i, uris[i] != uris[j]))

func ua.ToExpandedNodeID(n, namespaceURIs) (r) [C04]
  requires n == nil || isid(n)
  ensures known: isid(n) && 0 < nsof(n) && nsof(n) < len(namespaceURIs) && len(namespaceURIs) <= 65535 ==> r.ServerIndex == 0 && r.NamespaceURI == namespaceURIs[nsof(n)] && isid(r.NodeID) && nsof(r.NodeID) == 0 && sameid(n, r.NodeID)
  ensures other: isid(n) && !(0 < nsof(n) && nsof(n) < len(namespaceURIs) && len(namespaceURIs) <= 65535) ==> r.ServerIndex == 0 && (r.NamespaceURI == "" && r.NodeID == n || 0 < nsof(n) && nsof(n) < len(namespaceURIs) && r.NamespaceURI == namespaceURIs[nsof(n)] && isid(r.NodeID) && nsof(r.NodeID) == 0 && sameid(n, r.NodeID))
  safe

func ua.ToNodeID(n, namespaceURIs) (r) [C04]
  requires n.NodeID == nil || isid(n.NodeID)
  requires len(namespaceURIs) <= 65535
  ensures plain: n.NamespaceURI == "" ==> r == n.NodeID
  ensures unknown: n.NamespaceURI != "" && forall(i, 0, len(namespaceURIs), namespaceURIs[i] != n.NamespaceURI) ==> r == nil
  ensures nilid: n.NodeID == nil ==> r == nil
  ensures known: n.NamespaceURI != "" && r != nil ==> isid(r) && nsof(r) >= 0 && nsof(r) < len(namespaceURIs) && namespaceURIs[nsof(r)] == n.NamespaceURI && sameid(n.NodeID, r) && forall(i, 0, nsof(r), namespaceURIs[i] != n.NamespaceURI)
  ensures found: n.NamespaceURI != "" && isid(n.NodeID) && !forall(i, 0, len(namespaceURIs), namespaceURIs[i] != n.NamespaceURI) ==> r != nil
  invariant forall(j, 0, $i, namespaceURIs[j] != n.NamespaceURI)
  safe

func ua.verifRT4(n, uris) (r) [C04]
  requires isid(n) && table(uris) && len(uris) <= 65535
  ensures roundtrip: isid(r) && nsof(r) == nsof(n) && sameid(n, r)

func ua.verifRT4b(e, uris) (r) [C04]
  requires isid(e.NodeID) && nsof(e.NodeID) == 0 && e.ServerIndex == 0 && table(uris) && len(uris) <= 65535 && e.NamespaceURI != "" && len(uris) >= 1 && e.NamespaceURI != uris[0]
  requires !forall(i, 0, len(uris), uris[i] != e.NamespaceURI)
  ensures roundtrip: r.NamespaceURI == e.NamespaceURI && r.ServerIndex == 0 && isid(r.NodeID) && nsof(r.NodeID) == 0 && sameid(e.NodeID, r.NodeID)
