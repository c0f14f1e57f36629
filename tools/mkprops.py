#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as a script so the text stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","Built-in scalar values survive the binary encoding byte for byte",
  "Every Boolean, integer, Float, Double, String, DateTime, Guid, ByteString, XmlElement and StatusCode value that is encoded has the little-endian OPC UA layout, and decoding those bytes yields the same value and consumes exactly the bytes produced. The only permitted normalisations are: an empty text or byte string is written as the null string, and a DateTime is truncated to 100 ns and clamped to the range 1601-01-01 .. 9999-12-31T23:59:59.",
  ["inputs"],"all values of each built-in scalar type, at every position of a stream",
  "The tests encode one or two values per type; layout errors for boundary values (sign bits, clamping limits, high bytes, string lengths) are not reached.",
  ["ua/binary_encoder.go","ua/binary_decoder.go"],[("Write<Type>/Read<Type> pairs","ua/binary_encoder.go, ua/binary_decoder.go")],["bytes written to the stream","value returned by the decoder"])
p("C02","Structured values, arrays and variants survive the binary encoding",
  "NodeId, ExpandedNodeId, QualifiedName, LocalizedText, DataValue, DiagnosticInfo, every array of a built-in type and every Variant holding a built-in scalar or an array of a built-in type decode to the value that was encoded, with the same type and element order, and consume exactly what was written. The null node id is the only value in its encoding class that may come back as nil, a node id's namespace index is replaced by a namespace URI when the URI is present, and a DataValue omits exactly the fields that are zero.",
  ["inputs"],"all values of these types, every array length, every combination of optional fields",
  "Tests sample a handful of variants; omitted-field masks, encodings chosen by magnitude and 25 array types x element positions are unbounded.",
  ["ua/binary_encoder.go","ua/binary_decoder.go","ua/variant.go"],[("mask bytes select optional fields","ua/binary_encoder.go WriteDataValue/WriteLocalizedText/WriteDiagnosticInfo/WriteExpandedNodeID"),("type byte selects the codec","ua/binary_encoder.go WriteVariant, ua/binary_decoder.go ReadVariant")],["value returned by the decoder"])
p("C03","Decoding built-in types never crashes the process, whatever the bytes",
  "For every finite byte stream, decoding any built-in type, array of a built-in type, Variant, DataValue or DiagnosticInfo ends with a value or an error; it never indexes out of range, dereferences nil, allocates a negative size or panics in any other way.",
  ["inputs"],"all byte strings a peer can send, including truncated streams and inconsistent lengths and dimensions",
  "Tests only decode what the encoder produced; hostile lengths, dimensions and masks are never tried.",
  ["ua/binary_decoder.go"],[("length/dimension checks before allocation and slicing","ua/binary_decoder.go")],["panic or error from the decoder"])
p("C04","Node ids keep their identity when translated between index and URI form",
  "Translating a node id to its URI form and back against the same namespace table yields the same node id, an unknown URI or nil identifier never yields a valid node id, and neither direction ever reads outside the namespace table.",
  ["inputs","configurations"],"all node ids and all namespace tables (without duplicate URIs)",
  "Tests use one table; the boundary between known and unknown namespace indexes is not sampled.",
  ["ua/nodeid.go","ua/expanded_nodeid.go"],[("ToExpandedNodeID / ToNodeID","ua/nodeid.go, ua/expanded_nodeid.go")],["returned node id"])
p("C07","Sequence, token, channel and handle numbers are never zero and never skip",
  "Every number the stack assigns (chunk sequence number, secure channel id, security token id, request handle, subscription id, monitored item id) is non-zero, is the successor of the previous one of its kind, and restarts at one after the largest value.",
  ["histories"],"all histories of assignments, including wrap-around",
  "Wrap-around needs 2^32 calls; tests make a few.",
  ["server/server_secure_channel.go","client/client_secure_channel.go","server/server.go","server/subscription.go","server/monitored_item.go"],[("getNext* counters","see files")],["numbers on the wire"])
p("C09","A service runs only for an activated session on its own secure channel",
  "A session-scoped service request gets a non-fault response, and has effects on server state other than diagnostics counters and session expiry, only if its authentication token names a live session that has been activated on the very secure channel that carried the request; otherwise it is answered with a fault that names the reason (unknown session, not activated, other channel) or the channel is aborted.",
  ["inputs","histories"],"all requests of every session-scoped service, all session tables and channels",
  "Tests issue well-formed requests from a properly activated session, one channel at a time.",
  ["server/server_service_set.go","server/session_manager.go","server/session.go"],[("guard sequence at the head of each handler","server/server_service_set.go handle*")],["response written to the channel"])
p("C21","Every request gets exactly one response, correlated with it",
  "Every service request that reaches the server is answered exactly once on the secure channel it came from (or the channel is torn down), by the response type of its service or a fault with a bad status, carrying its request id and request handle, and an accepted request with a list of operations gets one result per operation in its response. A queued Publish request is answered once, with its own id, handle and acknowledgement results, also when it is evicted, times out, or its last subscription or its session is closed; a timeout hint of zero never times out. A request of an unsupported service is answered with BadServiceUnsupported.",
  ["inputs","histories"],"all requests of all services, all list lengths, all queue histories",
  "Tests look at the payload of single successful requests; correlation on error paths, list lengths and the publish queue are not exercised.",
  ["server/server.go","server/server_service_set.go","server/session.go","server/subscription.go"],[("handlers write one response","server/server_service_set.go handle*"),("publish request queue","server/session.go addPublishRequest/removePublishRequest, server/subscription.go publish")],["messages written to the channel"])
p("C20","A subscription can be seen and changed only by the session that created it",
  "A request that names a subscription of another session (also one whose owner has gone) is refused with BadSubscriptionIdInvalid, per request or per operation, and changes neither that subscription nor its monitored items, queued messages or lifetime; the server methods that list monitored items or resend data refuse it too. Closing a session with its subscriptions deletes only its own, and a subscription's notifications leave only in answer to publish requests of its own session.",
  ["inputs","histories"],"all requests of all services, all subscription tables and owners",
  "Tests use one session with its own subscriptions; no test names somebody else's.",
  ["server/server_service_set.go","server/subscription.go","server/subscription_manager.go","server/server.go"],[("ownership comparison before each use of a subscription","server/server_service_set.go handle*"),("subscriptions of a session","server/subscription_manager.go GetBySession")],["state of the subscription, response written to the channel"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
