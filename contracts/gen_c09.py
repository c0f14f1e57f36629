#!/usr/bin/env python3
"""Generates C09.spec: one contract per session-scoped service handler (they share the same clauses)."""
import os
H="""CloseSession:CloseSessionRequest:CloseSessionResponse
Cancel:CancelRequest:CancelResponse
Browse:BrowseRequest:BrowseResponse
BrowseNext:BrowseNextRequest:BrowseNextResponse
TranslateBrowsePathsToNodeIds:TranslateBrowsePathsToNodeIDsRequest:TranslateBrowsePathsToNodeIDsResponse
RegisterNodes:RegisterNodesRequest:RegisterNodesResponse
UnregisterNodes:UnregisterNodesRequest:UnregisterNodesResponse
Read:ReadRequest:ReadResponse
Write:WriteRequest:WriteResponse
HistoryRead:HistoryReadRequest:HistoryReadResponse
Call:CallRequest:CallResponse
CreateMonitoredItems:CreateMonitoredItemsRequest:CreateMonitoredItemsResponse
ModifyMonitoredItems:ModifyMonitoredItemsRequest:ModifyMonitoredItemsResponse
SetMonitoringMode:SetMonitoringModeRequest:SetMonitoringModeResponse
SetTriggering:SetTriggeringRequest:SetTriggeringResponse
DeleteMonitoredItems:DeleteMonitoredItemsRequest:DeleteMonitoredItemsResponse
CreateSubscription:CreateSubscriptionRequest:CreateSubscriptionResponse
ModifySubscription:ModifySubscriptionRequest:ModifySubscriptionResponse
SetPublishingMode:SetPublishingModeRequest:SetPublishingModeResponse
DeleteSubscriptions:DeleteSubscriptionsRequest:DeleteSubscriptionsResponse
Publish:PublishRequest:PublishResponse
Republish:RepublishRequest:RepublishResponse"""
PRIV=["(*server.SubscriptionManager).Get","(*server.SubscriptionManager).GetBySession","(*server.SubscriptionManager).Add","(*server.SubscriptionManager).Delete",
"(*server.NamespaceManager).FindNode","(*server.Server).readValue","(*server.Server).writeValue","(*server.Session).addPublishRequest","(*server.Session).removePublishRequest",
"(*server.Session).addBrowseContinuationPoint","(*server.Session).removeBrowseContinuationPoint","server.NewSubscription","(*server.Subscription).Delete","(*github.com/gammazero/workerpool.WorkerPool).Submit","(*server.Subscription).SetPublishingMode","(*server.Subscription).Modify","(*server.Subscription).acknowledge","(*server.Subscription).FindItem","(*server.Subscription).AppendItem","(*server.Subscription).DeleteItem","(*server.Subscription).handleLatePublishRequest"]
out=["""# Generated by gen_c09.py. Session gate of every session-scoped service handler.
# Get and SecureChannelId are abstracted by ghosts: okget/sess record the last session found for the request's
# token, sid the channel id the session was bound to when it was read. Their bodies are verified in C09_session.spec.
package server
ghost okget bool
ghost sess int
ghost sid int
ghost nresp int
ghost naborted int
define gate(m, ch) = G.okget[m] && G.sid[G.sess[m]] == old(ch.channelID) && G.sid[G.sess[m]] != 0
define faultcode(r) = as(r, *ua.ServiceFault).ResponseHeader.ServiceResult
func (*server.SessionManager).Get(m, tok) (s, ok)
  trusted
  modifies G.okget[m], G.sess[m]
  ensures ok == G.okget[m]
  ensures ok ==> s != nil && G.sess[m] == base(s) && ufb(registered, m, s, tok)
  ensures !ok ==> s == nil
func (*server.Session).SecureChannelId(s) (r)
  trusted
  modifies G.sid[s]
  ensures r == G.sid[s]
func (*server.serverSecureChannel).Write(ch, r, id) (err)
  trusted
  modifies G.nresp[ch]
  ensures G.nresp[ch] == old(G.nresp[ch]) + 1
func (*server.serverSecureChannel).Abort(ch, reason, message) (err)
  trusted
  modifies G.naborted[ch]
  ensures G.naborted[ch] == old(G.naborted[ch]) + 1
func (*server.SessionManager).Delete(m, s)
  trusted
noinline server.selectTimestamps (*server.Server).readValue (*server.Server).writeValue (*server.Server).validateIndexRange (*server.Server).follow (*server.Server).target server.NewSubscription server.NewDataChangeMonitoredItem server.NewEventMonitoredItem
noinline (*server.NamespaceManager).FindNode (*server.NamespaceManager).IsSubtype (*server.NamespaceManager).FindComponent (*server.SubscriptionManager).Get (*server.SubscriptionManager).GetBySession (*server.SubscriptionManager).Add (*server.SubscriptionManager).Delete (*server.SubscriptionManager).Len
noinline (*server.Session).addBrowseContinuationPoint (*server.Session).removeBrowseContinuationPoint (*server.Session).addPublishRequest (*server.Session).removePublishRequest
noinline (*server.Subscription).Delete (*server.Subscription).Modify (*server.Subscription).FindItem (*server.Subscription).AppendItem (*server.Subscription).DeleteItem (*server.Subscription).acknowledge (*server.Subscription).handleLatePublishRequest (*server.Subscription).SetPublishingMode (*server.Subscription).startPublishing
noinline server.IsUserPermitted (*server.NamespaceManager).FindVariantType (*server.NamespaceManager).FindSuperType (*server.VariableNode).UserRolePermissions (*server.ObjectNode).UserRolePermissions (*server.VariableNode).UserAccessLevel (*server.MethodNode).UserExecutable (*server.MethodNode).UserRolePermissions ua.ToNodeID
# worker tasks are submitted only behind the gate; what they do is not followed here
pure opaquetasks
noinline (*server.MethodNode).callMethodHandler (*server.Server).NamespaceUris (*server.Server).ServerCapabilities
"""]
for l in H.split("\n"):
    h,req,resp=l.split(":")
    o=[f"func (*server.Server).handle{h}(srv, ch, requestid, req) (err) [C09]","  noframe",
    "  requires srv != nil && ch != nil && req != nil && srv.sessionManager != nil && !G.okget[srv.sessionManager]",
    f"  atcall (*server.serverSecureChannel).Write(c, r, id) :: gate: is(r, *ua.ServiceFault) || gate(old(srv.sessionManager), ch)",
    f"  atcall (*server.serverSecureChannel).Write(c, r, id) :: reason: is(r, *ua.ServiceFault) && !gate(old(srv.sessionManager), ch) ==> faultcode(r) == ite(!G.okget[old(srv.sessionManager)], ua.BadSessionIDInvalid, ite(G.sid[G.sess[old(srv.sessionManager)]] == 0, ua.BadSessionNotActivated, ua.BadSecureChannelIDInvalid))",
    f"  atcall (*server.serverSecureChannel).Write(c, r, id) :: open: !old(ch.discoveryOnly)",
    f"  atcall (*server.SessionManager).Get(m, tok) :: token: tok == old(req.RequestHeader.AuthenticationToken)",
    f"  atcall (*server.SessionManager).Delete(m, s) :: expired: gate(old(srv.sessionManager), ch) || G.okget[old(srv.sessionManager)] && G.sid[G.sess[old(srv.sessionManager)]] == 0 && base(s) == G.sess[old(srv.sessionManager)]",
    ]
    for p in PRIV:
        n=p.split(".")[-1]
        o.append(f"  atcall {p}(a0) :: gate: gate(old(srv.sessionManager), ch)")
    out.append("\n".join(o))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"C09.spec"),"w").write("\n".join(out)+"\n")
