package ua

import (
	"fmt"
	"testing"

	"github.com/google/uuid"
)

// TestVerifReplayC04 searches for a node id that changes when it is translated to URI form and back.
func TestVerifReplayC04(t *testing.T) {
	fails := 0
	fail := func(f string, a ...any) {
		if fails < 20 {
			fmt.Println("FAILING-INPUT " + fmt.Sprintf(f, a...))
		}
		fails++
		t.Fail()
	}
	for _, n := range []int{0, 1, 2, 3, 10, 255, 256, 257, 300} {
		uris := make([]string, n)
		for i := range uris {
			uris[i] = fmt.Sprintf("urn:ns:%d", i)
		}
		in := append([]string{}, uris...)
		for ns := 0; ns < n+3; ns++ {
			ids := []NodeID{NodeIDNumeric{uint16(ns), 7}, NodeIDNumeric{uint16(ns), 0}, NodeIDNumeric{uint16(ns), 1<<32 - 1}, NodeIDString{uint16(ns), "a"}, NodeIDString{uint16(ns), ""}, NodeIDString{uint16(ns), in0(in, ns)}, NodeIDGUID{uint16(ns), uuid.UUID{1, 2, 3}}, NodeIDOpaque{uint16(ns), "b"}, NodeIDOpaque{uint16(ns), ""}}
			for _, id := range ids {
				func() {
					defer func() {
						if p := recover(); p != nil {
							fail("%#v with %d namespaces panics: %v", id, n, p)
						}
					}()
					e := ToExpandedNodeID(id, uris)
					if r := ToNodeID(e, uris); r != id {
						fail("%#v with %d namespaces becomes %#v and then %#v", id, n, e, r)
					}
					if ns > 0 && ns < n && e.NamespaceURI != uris[ns] {
						fail("%#v with %d namespaces becomes %#v", id, n, e)
					}
					if (ns == 0 || ns >= n) && (e.NamespaceURI != "" || e.NodeID != id) {
						fail("%#v with %d namespaces becomes %#v", id, n, e)
					}
					if e.ServerIndex != 0 {
						fail("%#v gets server index %d", id, e.ServerIndex)
					}
					if ns == 0 {
						for _, u := range []string{"urn:unknown", "urn:ns", "urn:ns:", fmt.Sprintf("urn:ns:%d", n), "URN:NS:1", "urn:ns:1/", "urn:ns:01", " urn:ns:1", "x"} {
							if r := ToNodeID(ExpandedNodeID{NamespaceURI: u, NodeID: id}, uris); r != nil {
								fail("%#v with unknown namespace %q becomes %#v", id, u, r)
							}
						}
						for i, u := range uris {
							x := ExpandedNodeID{NamespaceURI: u, NodeID: id}
							r := ToNodeID(x, uris)
							if r == nil {
								fail("%#v with known namespace %q becomes nil", id, u)
								continue
							}
							if i > 0 {
								if y := ToExpandedNodeID(r, uris); y != x {
									fail("%#v becomes %#v and then %#v", x, r, y)
								}
							}
							if r := ToNodeID(ExpandedNodeID{NamespaceURI: u}, uris); r != nil {
								fail("nil identifier in %q becomes %#v", u, r)
							}
						}
					}
				}()
			}
		}
		if r := ToNodeID(ExpandedNodeID{}, uris); r != nil {
			fail("nil becomes %#v", r)
		}
	}
}

func in0(s []string, i int) string {
	if i < len(s) {
		return s[i]
	}
	return "q"
}
